From 490262cbd6afbc2fe0ba9042d757be7c9500dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 01/52] fix: mark objects before their children so that the GC
 terminates on cycles

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..c51d582 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -131,14 +131,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Mark before visiting what this object refers to, because it could refer back to this object
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From 35be7984dec53d23634c3cc0f4200bcba51d6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 02/52] fix: do not use the integer increment instructions on
 floats

---
 tiny/src/tiny.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c51d582..810ba2e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3283,7 +3283,8 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_PLUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                        exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
                         GenerateCode(state, TINY_OP_ADD1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3294,7 +3295,8 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_MINUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                        exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
                         GenerateCode(state, TINY_OP_SUB1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
-- 
2.43.0


From 6682230030e9929930efedfbb1b612ba8fcb2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 03/52] fix: read the string index of PUSH_STRING with the
 width it was written with

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 810ba2e..645312d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1218,7 +1218,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From a26f19634a43f090a623e41ada47c6cc236f117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 04/52] fix: reject calls to Tiny functions which supply too
 few arguments

---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 645312d..511fcbf 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3100,6 +3100,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 872eac1d37d5873f6cdc2c1f5b0d61db78125745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 05/52] fix: reject struct constructors which do not initialize
 every field exactly once

---
 tiny/src/tiny.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 511fcbf..7978b7c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2943,10 +2943,26 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
 
                 if (nameNode) {
+                    for (Tiny_StringNode *other = exp->constructor.argNamesHead; other != nameNode;
+                         other = other->next) {
+                        if (strcmp(other->value, nameNode->value) == 0) {
+                            ReportErrorE(state, argNode,
+                                         "Field .%s of struct %s is initialized multiple times.",
+                                         nameNode->value,
+                                         GetTagName(exp->constructor.structTag));
+                        }
+                    }
+
                     nameNode = nameNode->next;
                 }
             }
 
+            if (i < tagCount) {
+                ReportErrorE(state, exp,
+                             "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From 8aefc3367efc35e9e983ef5122467ffb0c7835c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 06/52] fix: reject break and continue outside of a loop

---
 tiny/src/tiny.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7978b7c..21d1bed 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3814,6 +3814,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->proc.body) {
                 CompileStatement(state, exp->proc.body);
+
+                // Whatever was in a loop is patched already
+                PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
             GenerateCode(state, TINY_OP_RETURN);
@@ -3875,6 +3878,10 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
 
             PatchBreakContinue(state, exp->forx.body, sb_count(state->program), stepPc);
+
+            // These aren't part of the loop body
+            PatchBreakContinue(state, exp->forx.init, -1, -1);
+            PatchBreakContinue(state, exp->forx.step, -1, -1);
         } break;
 
         case TINY_EXP_RETURN: {
@@ -3906,6 +3913,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+
+        // Whatever was in a loop is patched already
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From ac8bfd58344ddeb81472a31dd8bfc978e68a52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 07/52] fix: reject variables which are referenced in their own
 initializer

---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 21d1bed..ab89d51 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -836,6 +836,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     newNode->var.index = state->numGlobalVars;
     newNode->var.scope = 0;  // Global variable scope don't matter
     newNode->var.scopeEnded = false;
+    newNode->var.tag = NULL;
 
     sb_push(&state->ctx, state->globalSymbols, newNode);
 
@@ -900,6 +901,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     newNode->var.scopeEnded = false;
     newNode->var.index = sb_count(state->currFunc->func.locals);
     newNode->var.scope = state->currScope;
+    newNode->var.tag = NULL;
 
     sb_push(&state->ctx, state->currFunc->func.locals, newNode);
 
@@ -2529,7 +2531,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Referencing '%s' in its own initializer.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From 8b75ceddabac2bc72ecc76b6334a58dd14103f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 08/52] fix: restore the state when compilation fails

---
 tiny/src/tiny.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ab89d51..6f4d216 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4014,6 +4014,14 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    int startScope = state->currScope;
+    Tiny_Symbol *startFunc = state->currFunc;
+    int startNumStrings = state->numStrings;
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startNumFileLines = sb_count(state->pcToFileLine);
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4037,8 +4045,29 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         if (state->program) {
             // TODO(Apaar): Should we realloc and shrink?
             stb__sbn(state->program) = startCodeLen;
+
+            // The code we generated might have overwritten the final instruction
+            if (startCodeLen > 0) {
+                state->program[startCodeLen - 1] = TINY_OP_HALT;
+            }
+        }
+
+        // None of what follows may refer to anything this failed compilation declared
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startNumFileLines;
+        }
+
+        for (int i = startNumStrings; i < state->numStrings; ++i) {
+            TFree(&state->ctx, state->strings[i]);
         }
 
+        state->numStrings = startNumStrings;
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+        state->currScope = startScope;
+        state->currFunc = startFunc;
+
         state->l = prevLexer;
         state->parserArena = prevParserArena;
         --state->compileCallNestCount;
-- 
2.43.0


From 31ee2285356ddc07428b4a07c45da0de479a7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 09/52] fix: do not leak parameter names and struct fields when
 compilation fails

---
 tiny/src/tiny.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 6f4d216..011fbab 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1699,30 +1699,22 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
-        Tiny_Symbol *tag;
-    } Arg;
-
-    Arg *args = NULL;  // array
-
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
-
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
+        Tiny_StringNode *argName = CreateExprStringNode(state, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", argName->value);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
+        Tiny_Symbol *argTag = ParseTypeSL(state);
 
-        sb_push(&state->ctx, args, arg);
+        // We don't know how many arguments there are yet, see below
+        DeclareArgument(state, argName->value, argTag, 0);
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1733,13 +1725,10 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
+    for (int i = 0; i < sb_count(state->currFunc->func.args); ++i) {
+        state->currFunc->func.args[i]->var.index -= sb_count(state->currFunc->func.args);
     }
 
-    sb_free(&state->ctx, args);
-
     GetNextToken(state);
 
     if (state->l.lastTok != TINY_TOK_COLON) {
@@ -1801,13 +1790,14 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        // Pushed right away so that it is freed with the struct if there's an error below
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
-- 
2.43.0


From 607394c594aa522d626da6f427a375090c5fbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 10/52] fix: check the operand types of compound assignments

---
 tiny/src/tiny.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 011fbab..3492763 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2724,6 +2724,24 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.op != TINY_TOK_EQUAL) {
+                        bool intOnly = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                       exp->binary.op == TINY_TOK_OREQUAL ||
+                                       exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                        // The right hand side is assignable to it, so it has the same type
+                        Tiny_SymbolType type = exp->binary.lhs->tag->type;
+
+                        if (type != TINY_SYM_TAG_INT && (intOnly || type != TINY_SYM_TAG_FLOAT)) {
+                            ReportErrorE(state, exp,
+                                         "Both sides of compound assignment must be %s, but "
+                                         "they're %s and %s",
+                                         intOnly ? "ints" : "ints or floats",
+                                         GetTagName(exp->binary.lhs->tag),
+                                         GetTagName(exp->binary.rhs->tag));
+                        }
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
-- 
2.43.0


From 33cd37c7202307ae89020b9586d139f4fd495ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 11/52] fix: allow a nullable value to be assigned to the same
 nullable type

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3492763..93355f3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2471,6 +2471,10 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
         return dest->type == TINY_SYM_TAG_ANY;
     }
 
+    if (src->type == TINY_SYM_TAG_NULLABLE && dest->type == TINY_SYM_TAG_NULLABLE) {
+        return IsTagAssignableTo(src->nullableTag, dest->nullableTag);
+    }
+
     if (dest->type == TINY_SYM_TAG_NULLABLE) {
         return IsTagAssignableTo(src, dest->nullableTag);
     }
-- 
2.43.0


From fe80754fd1f4bd2305ae878280e115257e185ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 12/52] fix: keep the return value restored by
 Tiny_CallFunction alive during the call

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 93355f3..915433f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -596,6 +596,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // It is restored below, so it must stay reachable
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From f6120f7ebc140cb820ba90ec6f6190948ba51476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 13/52] fix: assert that the stack does not overflow

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 915433f..f238ba7 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1137,6 +1137,8 @@ static Tiny_Float ReadFloat(Tiny_StateThread *thread) {
 }
 
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value) {
+    assert(thread->sp < TINY_THREAD_STACK_SIZE);
+
     thread->stack[thread->sp++] = value;
 }
 
@@ -1182,6 +1184,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_PUSH_NULL_N: {
             ++thread->pc;
             Word n = state->program[thread->pc++];
+            assert(thread->sp + n <= TINY_THREAD_STACK_SIZE);
             memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);
             thread->sp += n;
         } break;
-- 
2.43.0


From 04e3b6b84bb576be96ee076b44e3decccfeb4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 14/52] fix: report unterminated string literals instead of
 reading them forever

---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..e6a6987 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -270,6 +270,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            if (l->last == 0) {
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             CHECK_ESCAPE();
 
             sb_push(&l->ctx, l->lexeme, l->last);
-- 
2.43.0


From 6fc3f73ebc9140f62ef6ff22117a0544c6a429dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 15/52] fix: count the newlines inside of literals

---
 tiny/src/lexer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index e6a6987..99683a7 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -220,8 +220,14 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
 
 #define CHECK_ESCAPE()              \
     do {                            \
+        if (l->last == '\n') {      \
+            l->lineNumber++;        \
+        }                           \
         if (l->last == '\\') {      \
             l->last = GetChar(l);   \
+            if (l->last == '\n') {  \
+                l->lineNumber++;    \
+            }                       \
             switch (l->last) {      \
                 case '"':           \
                     l->last = '"';  \
-- 
2.43.0


From 0ae22eddf2c18c38ad93633939042f0d1e7d5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 16/52] fix: pass strings to the %s of error messages

---
 tiny/src/tiny.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f238ba7..4c95a28 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2563,7 +2563,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3155,7 +3155,8 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n",
+                         exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3233,14 +3234,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3767,7 +3768,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3779,7 +3780,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From 96cad9ae4c7369d3f8567b80bc78c7453e3762a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 17/52] fix: disassemble the shift instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4c95a28..3b87356 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4327,6 +4327,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 6b0876de56c1f8adced572419c7b571aace3956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 18/52] fix: report the line of the call while a foreign
 function is executing

---
 tiny/src/tiny.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3b87356..0b7cd92 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1399,11 +1399,17 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         } break;
 
         case TINY_OP_CALLF: {
-            ++thread->pc;
+            int callPc = thread->pc++;
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
             int prevSize = thread->sp - nargs;
+
+            // The foreign function is executed on behalf of this instruction, not the next one,
+            // which could belong to a different line.
+            int nextPc = thread->pc;
+            thread->pc = callPc;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
+            if (thread->pc == callPc) thread->pc = nextPc;
             thread->sp = prevSize;
         } break;
 
-- 
2.43.0


From 934939fc9549484193157e1529f8b7a661d22cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 19/52] fix: set the position of compile errors

---
 tiny/src/tiny.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 0b7cd92..2b2172e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -52,6 +52,8 @@ static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
 
     va_end(args);
 
+    state->compileErrorResult.error.pos = l->pos;
+
     longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
 }
 
@@ -67,6 +69,8 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
 
     va_end(args);
 
+    state->compileErrorResult.error.pos = state->l.pos;
+
     longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
 }
 
@@ -1490,6 +1494,8 @@ static void ReportErrorE(Tiny_State *state, const Tiny_Expr *exp, const char *s,
 
     va_end(args);
 
+    state->compileErrorResult.error.pos = exp->pos;
+
     longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
 }
 
@@ -1505,6 +1511,8 @@ static void ReportErrorS(Tiny_State *state, const Tiny_Symbol *sym, const char *
 
     va_end(args);
 
+    state->compileErrorResult.error.pos = sym->pos;
+
     longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
 }
 
-- 
2.43.0


From d10f177dfb4ae842e393e7510db2a3552ca02c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 20/52] fix: compare strings which contain null characters

---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2b2172e..be9d90e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -246,7 +246,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -261,7 +261,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.cstr, Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From 02b37683f7918871432335b1dd9dddb0ebc8fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 21/52] fix: use the length of strings instead of looking for a
 null character

---
 tiny/src/std.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..a6c6a93 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,12 +45,12 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt((int)Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
     int i = Tiny_ToInt(args[1]);
 
@@ -114,7 +114,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
@@ -131,7 +131,7 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)Tiny_StringLen(args[1]);
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
@@ -174,7 +174,7 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
+    fwrite(s, 1, Tiny_StringLen(args[1]), file);
     fclose(file);
 
     return Tiny_NewBool(true);
-- 
2.43.0


From b9ffca1d4c5ae2d37d29a3c781d28e5e2b6475bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 22/52] fix: stop reading input at the end of the file

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index a6c6a93..94c1700 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -563,7 +563,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From b327f13e1f9d3ed3c8d10a0b68498bbf535ef5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 23/52] fix: sort integers whose difference does not fit in an
 int

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 94c1700..a575ce2 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -324,7 +324,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From a15a65601731a1bba7cd88232356d4b50ee3f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 24/52] fix: print booleans

---
 tiny/src/std.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index a575ce2..55d3994 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -587,6 +587,9 @@ static void Print(Tiny_Value val, bool repr) {
         case TINY_VAL_NULL:
             printf("<null>");
             break;
+        case TINY_VAL_BOOL:
+            printf(val.boolean ? "true" : "false");
+            break;
         case TINY_VAL_INT:
             printf("%lld", (int64_t)val.i);
             break;
-- 
2.43.0


From 307763c1df5d65b08cdecdfa33fce0c4fa126019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 25/52] fix: do not treat %% as an invalid format specifier
 which uses up an argument

---
 tiny/src/std.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 55d3994..38a8563 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -660,7 +660,10 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
     int arg = 1;
 
     while (*fmt) {
-        if (*fmt == '%') {
+        if (*fmt == '%' && fmt[1] == '%') {
+            putc('%', stdout);
+            fmt += 2;
+        } else if (*fmt == '%') {
             if (arg >= count) {
                 fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
                 exit(1);
@@ -684,9 +687,6 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                 case 'q':
                     Print(args[arg], true);
                     break;
-                case '%':
-                    putc('%', stdout);
-
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-- 
2.43.0


From 6ebffe81acdc6439a78838ef3a8cc28136333fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 26/52] fix: pass the number of strings to Strcat when
 converting a string to JSON

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 38a8563..60cd45d 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1016,7 +1016,7 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
                                         Tiny_NewConstString("\"")};
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
         } break;
 
         default:
-- 
2.43.0


From 0af42ca5f309f3428b62b3f346d237ba86e47c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 27/52] fix: convert integers to JSON exactly

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 60cd45d..5a46904 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1007,8 +1007,9 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             return Tiny_NewConstString("null");
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
-        case TINY_VAL_FLOAT:
         case TINY_VAL_INT:
+            return Lib_IntToStr(thread, args, count);
+        case TINY_VAL_FLOAT:
             return Lib_Ntos(thread, args, count);
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
-- 
2.43.0


From 3872c83417d517eec1d09b4e228252d09a7abf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 28/52] fix: report undefined types and functions passed to the
 json and delegate macros

---
 tiny/src/std.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5a46904..2e44efc 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -841,7 +841,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
@@ -1053,6 +1053,13 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
+    if (!func) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified to 'use delegate' does not exist",
+        };
+    }
+
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
-- 
2.43.0


From e10be11d3909c34a49b0c22a6136b47c68c75fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 29/52] fix: do not overflow the buffer for JSON code of large
 structs

---
 tiny/src/std.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 2e44efc..e71f944 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -813,6 +813,13 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
 
         used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
                          fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
+
+        if (used + 64 >= sizeof(buf)) {
+            return (Tiny_MacroResult){
+                .type = TINY_MACRO_ERROR,
+                .error.msg = "The struct has too many fields to generate JSON code",
+            };
+        }
     }
 
     used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
-- 
2.43.0


From 6f09b6b2d5be3d24eac81d45338d5672bd3391e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 30/52] fix: bind the array functions when only the type exists

---
 tiny/src/std.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index e71f944..aee1a3f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -873,7 +873,11 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    const Tiny_Symbol *alreadyExists = Tiny_FindTypeSymbol(state, asName);
+    // The type alone doesn't mean much, it could be a type registered for use by other bindings (for
+    // example, the dict functions return array_any)
+    const Tiny_Symbol *alreadyExists =
+        Tiny_FindTypeSymbol(state, asName) ? Tiny_FindFuncSymbol(state, asName) : NULL;
+
     if (alreadyExists) {
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
-- 
2.43.0


From 1f13c451299b7f763ab68f1e293f33859906659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 31/52] fix: clear and resize arrays which have no storage yet

---
 tiny/src/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..3308202 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -20,7 +20,9 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
-- 
2.43.0


From ba89dbed3042adb924265cc190d61c3790008e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 32/52] fix: expect an identifier after new

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index be9d90e..b9d7f94 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1953,7 +1953,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         case TINY_TOK_NEW: {
             Tiny_Expr *exp = Expr_create(TINY_EXP_CONSTRUCTOR, state);
 
-            GetNextToken(state);
+            GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after 'new'.");
 
             Tiny_Symbol *tag = DeclareStruct(state, state->l.lexeme, true);
 
-- 
2.43.0


From 896f9f2a4a1e5ff617e786329c7df1ccb21bf7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 33/52] fix: report the use of structs which only a signature
 or a macro mentions

---
 tiny/src/tiny.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index b9d7f94..3d48105 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2901,6 +2901,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
+            if (!exp->dot.lhs->tag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->dot.lhs->tag));
+            }
+
             exp->tag = GetFieldTag(exp->dot.lhs->tag, exp->dot.field->value, NULL);
 
             if (!exp->tag) {
@@ -2910,7 +2915,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            if (!exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From d33bedbf3a123096cd83e9663f7b54f75b775d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 34/52] fix: do not overflow the array of macro arguments

---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3d48105..6f2a9c8 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4137,9 +4137,9 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= (int)(sizeof(args) / sizeof(args[0]))) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value, (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From fdaf8b8865890f321e77559dcd1d005ffd9fca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 35/52] fix: check the types of the array, index and value of
 the [] operator

---
 tiny/src/tiny.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 6f2a9c8..4061850 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2506,6 +2506,30 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// Makes sure that calling `func` (which implements the [] operator) with `nargs` arguments whose
+// i-th argument is `arg` makes sense
+static void CheckIndexFuncArg(Tiny_State *state, const Tiny_Symbol *func, int nargs, int i,
+                              const Tiny_Expr *arg) {
+    bool isForeign = func->type == TINY_SYM_FOREIGN_FUNCTION;
+    int argc = isForeign ? sb_count(func->foreignFunc.argTags) : sb_count(func->func.args);
+
+    if (isForeign && func->foreignFunc.varargs) {
+        if (i >= argc) return;
+    } else if (argc != nargs) {
+        ReportErrorE(state, arg, "Function '%s' must have %d parameters in order to use [].",
+                     func->name, nargs);
+    }
+
+    const Tiny_Symbol *expected =
+        isForeign ? func->foreignFunc.argTags[i] : func->func.args[i]->var.tag;
+
+    if (!IsTagAssignableTo(arg->tag, expected)) {
+        ReportErrorE(state, arg,
+                     "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n",
+                     i + 1, func->name, GetTagName(expected), GetTagName(arg->tag));
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2748,6 +2772,15 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.lhs->type == TINY_EXP_INDEX &&
+                        exp->binary.lhs->index.setIndexFunc) {
+                        const Tiny_Symbol *setIndexFunc = exp->binary.lhs->index.setIndexFunc;
+
+                        CheckIndexFuncArg(state, setIndexFunc, 3, 0, exp->binary.lhs->index.arr);
+                        CheckIndexFuncArg(state, setIndexFunc, 3, 1, exp->binary.lhs->index.elem);
+                        CheckIndexFuncArg(state, setIndexFunc, 3, 2, exp->binary.rhs);
+                    }
+
                     if (exp->binary.op != TINY_TOK_EQUAL) {
                         bool intOnly = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
                                        exp->binary.op == TINY_TOK_OREQUAL ||
@@ -3079,8 +3112,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            CheckIndexFuncArg(state, getIndexFunc, 2, 0, exp->index.arr);
+            CheckIndexFuncArg(state, getIndexFunc, 2, 1, exp->index.elem);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From 53300dd9805dec1becfc9c7fce226a79784c6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 36/52] fix: print the elements of arrays of primitives

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index aee1a3f..3ec1d87 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -614,7 +614,8 @@ static void Print(Tiny_Value val, bool repr) {
             printf("<light native at %p>", val.addr);
             break;
         case TINY_VAL_NATIVE: {
-            if (repr && val.obj->nat.prop == &ArrayProp) {
+            if (repr &&
+                (val.obj->nat.prop == &ArrayProp || val.obj->nat.prop == &PrimitiveArrayProp)) {
                 printf("[");
 
                 Array *array = val.obj->nat.addr;
-- 
2.43.0


From 4aa8fbe5d16f1a3146e72a2ec5740b17f5a89042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 37/52] fix: do not read past the end of a format which ends
 with a percent sign

---
 tiny/src/std.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3ec1d87..acfcbc3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -691,6 +691,7 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
+            if (!*fmt) break;
             ++fmt;
             ++arg;
         } else
-- 
2.43.0


From c15acaa444548e37e949e0f0c2633d1edcab4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 38/52] fix: fail instead of exiting when the array macro
 cannot bind its functions

---
 tiny/src/std.c | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index acfcbc3..8d55505 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -893,10 +893,48 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    Tiny_RegisterType(state, asName);
-
     char sigbuf[512] = {0};
 
+    // The longest signature below repeats the name twice and the type of the elements once
+    if (2 * strlen(asName) + strlen(args[0]) + 64 > sizeof(sigbuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The names given to 'use array' are too long",
+        };
+    }
+
+    const Tiny_Symbol *asType = Tiny_FindTypeSymbol(state, asName);
+
+    if (asType && asType->type != TINY_SYM_TAG_FOREIGN) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The 'as' name given to 'use array' is the name of another type",
+        };
+    }
+
+    static const char *suffixes[] = {"",     "_clear",     "_resize", "_resize_fill", "_get",
+                                     "_set", "_get_index", "_len",    "_set_index",   "_push",
+                                     "_pop", "_shift",     "_remove", "_insert",      "_sort"};
+
+    for (int i = 0; i < (int)(sizeof(suffixes) / sizeof(suffixes[0])); ++i) {
+        snprintf(sigbuf, sizeof(sigbuf), "%s%s", asName, suffixes[i]);
+
+        const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, sigbuf);
+
+        if (strcmp(suffixes[i], "_sort") == 0 && elemType->type != TINY_SYM_TAG_INT) {
+            continue;
+        }
+
+        if (func && func->type == TINY_SYM_FOREIGN_FUNCTION) {
+            return (Tiny_MacroResult){
+                .type = TINY_MACRO_ERROR,
+                .error.msg = "A function which 'use array' must define exists already",
+            };
+        }
+    }
+
+    Tiny_RegisterType(state, asName);
+
     bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
                      elemType->type == TINY_SYM_TAG_FLOAT;
 
-- 
2.43.0


From 5f7ed1b1c4780a537df5fe06ccd7d0510e43d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 39/52] fix: fail when the delegate macro cannot generate its
 functions

---
 tiny/src/std.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 8d55505..b3047e5 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1111,6 +1111,29 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         };
     }
 
+    // call_function can only call functions written in Tiny
+    if (func->type != TINY_SYM_FUNCTION) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified to 'use delegate' is not a Tiny function",
+        };
+    }
+
+    // Make sure that everything written to the buffers below fits
+    size_t namesLen = strlen(asName) + strlen(args[0]) + strlen(func->func.returnTag->name);
+    size_t argCount = Tiny_SymbolArrayCount(func->func.args);
+
+    for (size_t i = 0; i < argCount; ++i) {
+        namesLen += strlen(func->func.args[i]->var.tag->name);
+    }
+
+    if (3 * namesLen + 20 * argCount + 128 > sizeof(typeBuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The names in the signature given to 'use delegate' are too long",
+        };
+    }
+
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
@@ -1140,7 +1163,7 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
 
-        char callBuf[512] = {0};
+        char callBuf[1024] = {0};
 
         if (returnTag->type != TINY_SYM_TAG_VOID) {
             snprintf(callBuf, sizeof(callBuf),
@@ -1151,16 +1174,36 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
                      typeBuf, typeBuf, argsBuf, paramsBuf);
         }
 
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
+        Tiny_CompileResult compileResult =
+            Tiny_CompileString(state, "(delegate call function)", callBuf);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Failed to compile the call function: %s", compileResult.error.msg);
+
+            return macroResult;
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-        char createBuf[512] = {0};
+        char createBuf[1024] = {0};
         snprintf(createBuf, sizeof(createBuf),
                  "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
                  args[0], typeBuf);
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+        Tiny_CompileResult compileResult =
+            Tiny_CompileString(state, "(delegate create function)", createBuf);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Failed to compile the create function: %s", compileResult.error.msg);
+
+            return macroResult;
+        }
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From 07dbd7a1de07ef12be73381635355709a402635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 40/52] fix: report sources which are nested too deeply or have
 too many strings

---
 tiny/include/detail.h |  1 +
 tiny/include/tiny.h   |  5 +++++
 tiny/src/tiny.c       | 49 +++++++++++++++++++++++++++++++++++++++++--
 3 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..05c7715 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -64,6 +64,7 @@ typedef struct Tiny_State {
 
     // Compiler Info
     int currScope;
+    int nestCount;
     Tiny_Symbol *currFunc;
 
     // TODO(Apaar): Make an arena for symbol table
diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..50ed4b6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -45,6 +45,11 @@ typedef double Tiny_Float;
 typedef TINY_FLOAT_TYPE Tiny_Float;
 #endif
 
+// How deeply statements and expressions can be nested. It is an error to exceed this.
+#ifndef TINY_MAX_NESTING
+#define TINY_MAX_NESTING 1000
+#endif
+
 #ifndef TINY_CONSTANT_INDEX_TYPE
 // This is the integer type used for indexes in the bytecode. For example, if
 // we're pushing a string and we're referencing string at index 1240, this is the
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4061850..1450d6e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -465,6 +465,7 @@ Tiny_State *Tiny_CreateStateWithContext(Tiny_Context ctx) {
     state->pcToFileLine = NULL;
 
     state->compileCallNestCount = 0;
+    state->nestCount = 0;
 
     Tiny_BindFunction(state, "int(float): int", Lib_ToInt);
     Tiny_BindFunction(state, "float(int): float", Lib_ToFloat);
@@ -702,6 +703,10 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
+    if (state->numStrings >= MAX_STRINGS && state->compileCallNestCount > 0) {
+        ReportErrorSL(state, "Exceeded maximum number of strings (%d).", MAX_STRINGS);
+    }
+
     assert(state->numStrings < MAX_STRINGS);
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
@@ -2136,9 +2141,27 @@ static Tiny_Expr *ParseSuffix(Tiny_State *state, Tiny_Expr *lhs) {
     return exp;
 }
 
+// The parser and everything which walks its output is recursive, so there must be a limit to how
+// deeply things are nested or the C stack will overflow.
+static void EnterNesting(Tiny_State *state) {
+    if (state->nestCount >= TINY_MAX_NESTING) {
+        ReportErrorSL(state, "Statements and expressions are nested too deeply.");
+    }
+
+    state->nestCount += 1;
+}
+
+static void LeaveNesting(Tiny_State *state) { state->nestCount -= 1; }
+
 static Tiny_Expr *ParseFactor(Tiny_State *state) {
+    EnterNesting(state);
+
     Tiny_Expr *exp = ParseValue(state);
-    return ParseSuffix(state, exp);
+    exp = ParseSuffix(state, exp);
+
+    LeaveNesting(state);
+
+    return exp;
 }
 
 static int GetTokenPrec(int tok) {
@@ -2207,7 +2230,7 @@ static Tiny_Expr *ParseExpr(Tiny_State *state) {
     return ParseBinRhs(state, 0, factor);
 }
 
-static Tiny_Expr *ParseStatement(Tiny_State *state) {
+static Tiny_Expr *ParseStatementNested(Tiny_State *state) {
     switch (state->l.lastTok) {
         case TINY_TOK_OPENCURLY:
             return ParseBlock(state);
@@ -2449,6 +2472,16 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
     return NULL;
 }
 
+static Tiny_Expr *ParseStatement(Tiny_State *state) {
+    EnterNesting(state);
+
+    Tiny_Expr *exp = ParseStatementNested(state);
+
+    LeaveNesting(state);
+
+    return exp;
+}
+
 static Tiny_Expr *ParseProgram(Tiny_State *state) {
     GetNextToken(state);
 
@@ -2530,9 +2563,19 @@ static void CheckIndexFuncArg(Tiny_State *state, const Tiny_Symbol *func, int na
     }
 }
 
+static void ResolveTypesNested(Tiny_State *state, Tiny_Expr *exp);
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
+    EnterNesting(state);
+
+    ResolveTypesNested(state, exp);
+
+    LeaveNesting(state);
+}
+
+static void ResolveTypesNested(Tiny_State *state, Tiny_Expr *exp) {
     switch (exp->type) {
         case TINY_EXP_BREAK:
         case TINY_EXP_CONTINUE:
@@ -4089,6 +4132,7 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int startCodeLen = sb_count(state->program);
 
     int startScope = state->currScope;
+    int startNestCount = state->nestCount;
     Tiny_Symbol *startFunc = state->currFunc;
     int startNumStrings = state->numStrings;
     int startNumGlobalVars = state->numGlobalVars;
@@ -4140,6 +4184,7 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         state->numFunctions = startNumFunctions;
         state->numForeignFunctions = startNumForeignFunctions;
         state->currScope = startScope;
+        state->nestCount = startNestCount;
         state->currFunc = startFunc;
 
         state->l = prevLexer;
-- 
2.43.0


From 4e2f813720bfd47153f04c3f3a0712345883599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 41/52] fix: skip any number of comments without recursion

---
 tiny/src/lexer.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 99683a7..23a5157 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -42,26 +42,23 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
-        if (l->last == '\n') l->lineNumber++;
-        l->last = GetChar(l);
-    }
-
-    if (l->last == 0) {
-        return TINY_TOK_EOF;
-    }
-
-    if (l->last == '/' && Peek(l) == '/') {
-        while (l->last && l->last != '\n') {
+    for (;;) {
+        while (isspace(l->last)) {
+            if (l->last == '\n') l->lineNumber++;
             l->last = GetChar(l);
         }
 
-        if (l->last) {
+        if (l->last != '/' || Peek(l) != '/') {
+            break;
+        }
+
+        while (l->last && l->last != '\n') {
             l->last = GetChar(l);
-            l->lineNumber += 1;
         }
+    }
 
-        return Tiny_GetToken(l);
+    if (l->last == 0) {
+        return TINY_TOK_EOF;
     }
 
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
-- 
2.43.0


From a63d3839c3db6007f351ac56a389d16f660622a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 42/52] fix: fail when the json macro is given a recursive
 struct

---
 tiny/src/std.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b3047e5..0821d6e 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -773,7 +773,17 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+#define MAX_JSON_DEPTH 64
+
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym,
+                                                  int depth) {
+    if (depth > MAX_JSON_DEPTH) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "Structs given to 'use json' must not contain themselves",
+        };
+    }
+
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
         // We can't do it automatically.
@@ -811,7 +821,12 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
+        Tiny_MacroResult fieldResult =
+            BindJsonSerializerForType(state, fieldSym->fieldTag, depth + 1);
+
+        if (fieldResult.type != TINY_MACRO_SUCCESS) {
+            return fieldResult;
+        }
 
         used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
                          fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
@@ -857,7 +872,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
         };
     }
 
-    return BindJsonSerializerForType(state, sym);
+    return BindJsonSerializerForType(state, sym, 0);
 }
 
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
-- 
2.43.0


From 640e00a45b0ec097ba9f7ea164ca2b06a441a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 43/52] fix: print strings which contain null characters

---
 tiny/src/std.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 0821d6e..4272e2a 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -605,9 +605,11 @@ static void Print(Tiny_Value val, bool repr) {
             break;
         case TINY_VAL_STRING:
             if (repr) {
-                printf("\"%.*s\"", (int)val.obj->string.len, val.obj->string.ptr);
+                putc('"', stdout);
+                fwrite(val.obj->string.ptr, 1, val.obj->string.len, stdout);
+                putc('"', stdout);
             } else {
-                printf("%.*s", (int)val.obj->string.len, val.obj->string.ptr);
+                fwrite(val.obj->string.ptr, 1, val.obj->string.len, stdout);
             }
             break;
         case TINY_VAL_LIGHT_NATIVE:
@@ -679,7 +681,9 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                     printf("%f", args[arg].f);
                     break;
                 case 's':
-                    printf("%.*s", (int)Tiny_StringLen(args[arg]), Tiny_ToString(args[arg]));
+                    if (Tiny_ToString(args[arg])) {
+                        fwrite(Tiny_ToString(args[arg]), 1, Tiny_StringLen(args[arg]), stdout);
+                    }
                     break;
                 case 'c':
                     printf("%c", (char)args[arg].i);
-- 
2.43.0


From ab99145bf49183111b09070a04fae99a815b3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 44/52] fix: mark the objects which an array of primitives was
 constructed with

---
 tiny/src/std.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 4272e2a..b46345e 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -222,6 +222,15 @@ static Tiny_Value CreateArrayEx(Tiny_StateThread *thread, int count, const Tiny_
 static TINY_FOREIGN_FUNCTION(CreateArray) { return CreateArrayEx(thread, count, args, false); }
 
 static TINY_FOREIGN_FUNCTION(CreatePrimitiveArray) {
+    // The constructor accepts values of any type and objects must be marked
+    for (int i = 0; i < count; ++i) {
+        Tiny_ValueType type = args[i].type;
+
+        if (type == TINY_VAL_STRING || type == TINY_VAL_NATIVE || type == TINY_VAL_STRUCT) {
+            return CreateArrayEx(thread, count, args, false);
+        }
+    }
+
     return CreateArrayEx(thread, count, args, true);
 }
 
-- 
2.43.0


From 5976a04c9982962d5a69a0695f78ae9a78654943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 45/52] fix: fill the new elements of an array which is resized
 while it is not empty

---
 tiny/src/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 3308202..ecaed61 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -30,10 +30,10 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     int len = array->data ? stb__sbn(array->data) : 0;
 
     if (newLen > len) {
-        Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
+        sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = len; i < newLen; ++i) {
-            newValues[i] = newValue;
+            array->data[i] = newValue;
         }
     } else if (array->data) {
         stb__sbn(array->data) = newLen;
-- 
2.43.0


From 1c366f3414ab2e809148fb233b5d71e0e524eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 46/52] fix: terminate the lexeme of a string literal which is
 not closed

---
 tiny/src/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 23a5157..affcc7f 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -274,6 +274,7 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
 
         while (l->last != '"') {
             if (l->last == 0) {
+                sb_push(&l->ctx, l->lexeme, 0);
                 l->errorMsg = "Expected \" to close previous \".";
                 return TINY_TOK_LEXER_ERROR;
             }
-- 
2.43.0


From 1cef7ec92e1ada0b4216fe82fa0e7caffe157be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 47/52] fix: keep fread and fwrite within the buffer for a
 count which is negative or larger than the string

---
 tiny/src/std.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b46345e..5f20e9b 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -104,6 +104,8 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
     FILE *file = Tiny_ToAddr(args[0]);
     int num = (int)Tiny_ToNumber(args[1]);
 
+    if (num < 0) num = 0;
+
     // + 1 for null-terminator
     char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
 
@@ -131,7 +133,12 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)Tiny_StringLen(args[1]);
+    int len = (int)Tiny_StringLen(args[1]);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : len;
+
+    // The string has no more to write
+    if (num < 0) num = 0;
+    if (num > len) num = len;
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
-- 
2.43.0


From 7ef214800cde123fb53e52b3b8a438c75e4efb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 48/52] fix: read_file yields null for a directory

---
 tiny/src/std.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5f20e9b..3645330 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -158,6 +158,12 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
         return Tiny_Null;
     }
 
+    // A directory can be opened but not read
+    if (fgetc(file) == EOF && ferror(file)) {
+        fclose(file);
+        return Tiny_Null;
+    }
+
     fseek(file, 0, SEEK_END);
     long len = ftell(file);
     rewind(file);
-- 
2.43.0


From 449acbb03d35998ee2bade0054d70a0326a6b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 49/52] fix: compiling a directory is an error

---
 tiny/src/tiny.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 1450d6e..e20fe64 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4272,6 +4272,12 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
 Tiny_CompileResult Tiny_CompileFile(Tiny_State *state, const char *filename) {
     FILE *file = fopen(filename, "rb");
 
+    // A directory can be opened but not read
+    if (file && fgetc(file) == EOF && ferror(file)) {
+        fclose(file);
+        file = NULL;
+    }
+
     if (!file) {
         Tiny_CompileResult result = {
             .type = TINY_COMPILE_ERROR,
-- 
2.43.0


From 95ab8234cbb888a675c33ab9056599695c283c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 50/52] fix: fread of the largest number of bytes

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3645330..8e703fa 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -107,7 +107,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
     if (num < 0) num = 0;
 
     // + 1 for null-terminator
-    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
+    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, (size_t)num + 1);
 
     int readCount = fread(str, 1, num, file);
 
-- 
2.43.0


From be7034c88aed6a37147a219e099f91dc826b7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:49 +0000
Subject: [PATCH 51/52] fix: a failed compile takes back the definitions it
 gave to types declared before it

A struct which so far was only referred to (e.g. by the signature of a bound
function) stayed defined, with fields whose types were freed, after the source
which defined it failed to compile.
---
 tiny/include/detail.h |  3 +++
 tiny/include/tiny.h   |  4 ++++
 tiny/src/tiny.c       | 31 +++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index 05c7715..936528e 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -87,6 +87,9 @@ typedef struct Tiny_State {
     jmp_buf compileErrorJmpBufs[TINY_MAX_NESTED_COMPILE_CALLS];
     int compileCallNestCount;
 
+    // How many compilations have been started so far
+    int numCompiles;
+
     // In case there was a compile error, it gets put in
     // here.
     Tiny_CompileResult compileErrorResult;
diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 50ed4b6..7b8a01d 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -542,6 +542,10 @@ typedef struct Tiny_Symbol {
             // such symbols exist before it finishes compilation.
             bool defined;
 
+            // Which compilation gave this struct its definition (see numCompiles
+            // in Tiny_State), so that it can be taken back if that fails.
+            int definedIn;
+
             struct Tiny_Symbol **fields;  // array
         } sstruct;
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e20fe64..c735cb5 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -465,6 +465,7 @@ Tiny_State *Tiny_CreateStateWithContext(Tiny_Context ctx) {
     state->pcToFileLine = NULL;
 
     state->compileCallNestCount = 0;
+    state->numCompiles = 0;
     state->nestCount = 0;
 
     Tiny_BindFunction(state, "int(float): int", Lib_ToInt);
@@ -1010,6 +1011,7 @@ void Tiny_RegisterType(Tiny_State *state, const char *name) {
             // referring to this type that we're about to define here, so just update it in place
             // to be an opaque foreign type.
             s->type = TINY_SYM_TAG_FOREIGN;
+            s->sstruct.definedIn = state->numCompiles;
         }
 
         return;
@@ -1017,6 +1019,10 @@ void Tiny_RegisterType(Tiny_State *state, const char *name) {
 
     s = Symbol_create(TINY_SYM_TAG_FOREIGN, name, state);
 
+    s->sstruct.defined = false;
+    s->sstruct.definedIn = 0;
+    s->sstruct.fields = NULL;
+
     sb_push(&state->ctx, state->globalSymbols, s);
 }
 
@@ -1551,6 +1557,7 @@ static Tiny_Symbol *DeclareStruct(Tiny_State *state, const char *name, bool sear
     Tiny_Symbol *s = Symbol_create(TINY_SYM_TAG_STRUCT, name, state);
 
     s->sstruct.defined = false;
+    s->sstruct.definedIn = 0;
     s->sstruct.fields = NULL;
 
     sb_push(&state->ctx, state->globalSymbols, s);
@@ -1792,6 +1799,7 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
     s->pos = pos;
     s->sstruct.defined = true;
+    s->sstruct.definedIn = state->numCompiles;
 
     GetExpectTokenSL(state, TINY_TOK_OPENCURLY, "Expected '{' after struct name.");
 
@@ -4139,6 +4147,7 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int startNumFunctions = state->numFunctions;
     int startNumForeignFunctions = state->numForeignFunctions;
     int startNumFileLines = sb_count(state->pcToFileLine);
+    int compileIndex = ++state->numCompiles;
 
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
@@ -4147,6 +4156,28 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int jmpCode = setjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1]);
 
     if (jmpCode) {
+        // Structs which were only referred to before this compilation (e.g. by the signature
+        // of a bound function) might have been defined by it, so they go back to being undefined
+        for (int i = 0; i < firstSymIndex; ++i) {
+            Tiny_Symbol *s = state->globalSymbols[i];
+
+            if ((s->type != TINY_SYM_TAG_STRUCT && s->type != TINY_SYM_TAG_FOREIGN) ||
+                s->sstruct.definedIn < compileIndex) {
+                continue;
+            }
+
+            for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, s->sstruct.fields);
+
+            s->type = TINY_SYM_TAG_STRUCT;
+            s->sstruct.defined = false;
+            s->sstruct.definedIn = 0;
+            s->sstruct.fields = NULL;
+        }
+
         // Free all stuff allocated since the start of compilation
         for (int i = firstSymIndex; i < sb_count(state->globalSymbols); ++i) {
             Symbol_destroy(state->globalSymbols[i], &state->ctx);
-- 
2.43.0


From 4e6fc85ad83b4f7dcc8d43831ca869a7f0177987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:06 +0000
Subject: [PATCH 52/52] fix: a string which an allocator placed right after its
 object is freed

---
 tiny/include/detail.h |  4 ++++
 tiny/src/tiny.c       | 16 +++++-----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index 936528e..018d4d3 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -13,6 +13,10 @@ typedef uint8_t Word;
 typedef struct Tiny_Object {
     bool marked;
 
+    // Whether a string's characters are part of this object's allocation. Their address can't tell,
+    // because an allocator may have placed a separate allocation right after the object.
+    bool embedsString;
+
     Tiny_ValueType type;
     struct Tiny_Object *next;
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c735cb5..ac72d12 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -101,17 +101,9 @@ static Tiny_StringNode *CreateExprStringNode(Tiny_State *state, const char *str)
 
 static void DeleteObject(Tiny_Context *ctx, Tiny_Object *obj) {
     if (obj->type == TINY_VAL_STRING) {
-        char *internalStr = (char *)obj + sizeof(Tiny_Object);
-
-        if (obj->string.ptr == internalStr) {
-            // FIXME(Apaar): Is it possible for there to be a string which just happens to be
-            // allocated after the object pointer?
-
-            // If the string pointer is directly after the object then it is part of the object
-            // allocation and does not need to be freed separately
-        } else {
-            TFree(ctx, obj->string.ptr);
-        }
+        // If the string was embedded then it is part of the object allocation and does not need to
+        // be freed separately
+        if (!obj->embedsString) TFree(ctx, obj->string.ptr);
     } else if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->finalize) {
             obj->nat.prop->finalize(ctx, obj->nat.addr);
@@ -293,6 +285,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
     thread->gcHead = obj;
     obj->marked = 0;
 
+    obj->embedsString = true;
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
     memcpy(obj->string.ptr, str, len);
@@ -394,6 +387,7 @@ Tiny_Value Tiny_NewString(Tiny_StateThread *thread, char *str, size_t len) {
 
     Tiny_Object *obj = NewObject(thread, TINY_VAL_STRING);
 
+    obj->embedsString = false;
     obj->string.len = len;
     obj->string.ptr = str;
 
-- 
2.43.0

