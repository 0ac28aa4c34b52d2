// Runs scripts of host actions against the library and records what happens as events.
// Usage: tinyh SCRIPT OUT SCRATCHDIR [timeout]
// A script is a list of cases; every case runs in a process of its own.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sanitizer/asan_interface.h>
#include <unistd.h>

#include "array.h"
#include "tiny.h"
#ifndef NO_DETAIL
#include "detail.h"
#endif

void *__real_malloc(size_t n);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
void *__real_calloc(size_t a, size_t b);
static int inTiny, rawAllocs;
// With the default context the library itself calls these; then the blocks it holds are counted
static int defMode;
static long defLive;
static void Raw(void) { if (!defMode) rawAllocs += inTiny > 0; }
void *__wrap_malloc(size_t n) { Raw(); defLive += defMode; return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { Raw(); defLive += defMode && !p; return __real_realloc(p, n); }
void __wrap_free(void *p) { Raw(); defLive -= defMode && p; __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { rawAllocs += inTiny > 0; return __real_calloc(a, b); }
char *__wrap_strdup(const char *s) { rawAllocs += inTiny > 0; size_t n = strlen(s) + 1; return memcpy(__real_malloc(n), s, n); }

#define NMAX 8
#define FMAX 400

// ---------------------------------------------------------------- allocators
typedef struct { uint64_t magic; int64_t owner; uint64_t size, pad; } Head;
#define MAGIC 0x71e5a110c8ed0001ull
static long outstanding, badFrees;
static long bytesOut, outBy[1024];

// An allocator which hands out blocks next to each other, each one below the last, with nothing
// between them; what it knows about a block is kept elsewhere
#define POOL (2l << 30)
static char *pool, *poolTop;
static Head *poolHeads;
static void TooBig(void);
#define HEAD(p) (pool ? poolHeads + ((char *)(p) - pool) / 16 : (Head *)(p) - 1)
static void Pool(void) {
    if (pool) return;
    pool = mmap(NULL, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    poolHeads = mmap(NULL, POOL / 16 * sizeof(Head), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pool == MAP_FAILED || poolHeads == MAP_FAILED) _exit(98);
    poolTop = pool + POOL;
}
static void *PoolAlloc(Head *h, size_t size, int64_t owner) {
    size_t room = size + 15 & ~15ul;
    if ((size_t)(poolTop - pool) < room + 16) TooBig();
    poolTop -= room ? room : 16;
    Head *n = HEAD(poolTop);
    char *from = h ? pool + (h - poolHeads) * 16 : NULL;
    if (h) memcpy(poolTop, from, h->size < size ? h->size : size);
    else memset(poolTop, 0xa5, size);
    *n = (Head){MAGIC, owner, size};
    return poolTop;
}

static void *Alloc(void *ptr, size_t size, void *ud) {
    if (pool && ptr && ((char *)ptr < poolTop || (char *)ptr >= pool + POOL)) { ++badFrees; abort(); }
    Head *h = ptr ? HEAD(ptr) : NULL;
    int64_t owner = (int64_t)(intptr_t)ud;

    if (h && (h->magic != MAGIC || h->owner != owner)) {
        ++badFrees;
        if (h->magic != MAGIC) abort();
    }
    if (!ptr && !size) return NULL;
    if (h) bytesOut -= h->size;
    if (h && !size) {
        h->magic = 0;
        --outstanding;
        --outBy[owner & 1023];
        if (pool) memset(ptr, 0x5a, h->size), ASAN_POISON_MEMORY_REGION(ptr, h->size);
        else __real_free(h);
        return NULL;
    }
    if (!h) { ++outstanding; ++outBy[owner & 1023]; }
    if (bytesOut + (long)size > 1l << 30) abort();
    if (pool) {
        char *r = PoolAlloc(h, size, owner);
        if (h) {
            h->magic = 0;
            ASAN_POISON_MEMORY_REGION(ptr, h->size);
        }
        bytesOut += size;
        return r;
    }
    // Always move, so that nothing relies on blocks staying where they are
    Head *n = __real_malloc(sizeof(Head) + size);
    if (h) {
        memcpy(n + 1, h + 1, h->size < size ? h->size : size);
        h->magic = 0;
        __real_free(h);
    } else {
        memset(n + 1, 0xa5, size);
    }
    n->magic = MAGIC;
    n->owner = owner;
    n->size = size;
    bytesOut += size;
    return n + 1;
}
static Tiny_Context Ctx(int id) { return (Tiny_Context){Alloc, (void *)(intptr_t)id}; }

// ---------------------------------------------------------------- events
static FILE *out;  // the event which is being put together
static char *evBuf;
static size_t evLen;
static int outFd, stdoutFd;
static int *shared;  // with the parent: number of events written, thread which is running + 1
static long stdoutPos;

static char *fins;
static size_t finsLen, finsCap;

static void Field(const char *k) { fprintf(out, ",\"%s\":", k); }
static void Codes(const char *s, size_t n) {
    fputc('[', out);
    for (size_t i = 0; i < n; ++i) fprintf(out, i ? ",%d" : "%d", (unsigned char)s[i]);
    fputc(']', out);
}
static void Begin(const char *e) {
    out = open_memstream(&evBuf, &evLen);
    fprintf(out, "%s{\"e\":\"%s\"", shared[0] ? "," : "", e);
}
// The history ends here: the program builds values which are too large to be followed
static void TooBig(void) {
    dprintf(outFd, "%s{\"e\":\"big\"}", shared[0] ? "," : "");
    _exit(0);
}
static void End(void) {
    fputc('}', out);
    fclose(out);
    static size_t total;
    total += evLen;
    if (evLen > 400000 || total > 3000000) TooBig();
    for (size_t i = 0; i < evLen;) {
        ssize_t k = write(outFd, evBuf + i, evLen - i);
        if (k <= 0) _exit(95);
        i += k;
    }
    ++shared[0];
    __real_free(evBuf);
}
// What was printed and finalized since the last event
static void Side(void) {
    fflush(stdout);
    struct stat st;
    fstat(stdoutFd, &st);
    if (st.st_size > stdoutPos) {
        size_t n = st.st_size - stdoutPos;
        char *b = __real_malloc(n);
        n = pread(stdoutFd, b, n, stdoutPos);
        stdoutPos = st.st_size;
        Field("o");
        Codes(b, n);
        __real_free(b);
    }
    if (finsLen) {
        Field("x");
        fprintf(out, "[%.*s]", (int)finsLen, fins);
        finsLen = 0;
    }
}

static int HasSide(void) {
    fflush(stdout);
    struct stat st;
    fstat(stdoutFd, &st);
    return st.st_size > stdoutPos || finsLen;
}

// ---------------------------------------------------------------- host objects
typedef struct { int serial, n, ctx; Tiny_Value self, kids[]; } Obj;
static int serials;
static void ObjMark(void *p) { Obj *o = p; for (int i = 0; i < o->n; ++i) Tiny_ProtectFromGC(o->kids[i]); }
static void ObjFree(Tiny_Context *ctx, void *p) {
    Obj *o = p;
    char b[32];
    int n = snprintf(b, sizeof b, "%s%d", finsLen ? "," : "", o->serial);
    if (finsLen + n + 1 > finsCap) fins = __real_realloc(fins, finsCap = 2 * finsCap + 64);
    memcpy(fins + finsLen, b, n);
    finsLen += n;
    if ((intptr_t)ctx->userdata != o->ctx) ++badFrees;
    memset(o->kids, 0xdd, sizeof(Tiny_Value) * o->n);
    o->serial = -o->serial;
    __real_free(o);
}
static const Tiny_NativeProp ObjProp = {"obj", ObjMark, ObjFree};
// A second value for an object of the host: it has the same address but does not own it
static void SameMark(void *p) { Tiny_ProtectFromGC(((Obj *)p)->self); }
static const Tiny_NativeProp SameProp = {"obj", SameMark, NULL};
// Objects without an address: each has to be finalized, too
static int nils;
static void NilFree(Tiny_Context *ctx, void *p) { if (p || nils <= 0) ++badFrees; --nils; }
static const Tiny_NativeProp NilProp = {"nil", NULL, NilFree};

typedef struct { Tiny_StateThread th; int id, used, sid; } Thread;
static Thread threads[NMAX];
static Tiny_State *states[NMAX];
static int compiled[NMAX];  // whether something was compiled successfully: otherwise threads cannot start

static Tiny_Value NewObj(Tiny_StateThread *th, int n, const Tiny_Value *kids) {
    Obj *o = __real_malloc(sizeof(Obj) + n * sizeof(Tiny_Value));
    o->serial = ++serials;
    o->n = n;
    o->ctx = (int)(intptr_t)th->ctx.userdata;
    memcpy(o->kids, kids, n * sizeof(Tiny_Value));
    return o->self = Tiny_NewNative(th, o, &ObjProp);
}

// ---------------------------------------------------------------- values
static const void *seen[4096];
static int nseen;
static void BigInt(int64_t i) {
    if (i >= -2147483647ll && i <= 2147483647ll) { fprintf(out, "{\"t\":\"i\",\"i\":%lld}", (long long)i); return; }
    uint64_t u = i < 0 ? 0 - (uint64_t)i : (uint64_t)i;
    fprintf(out, "{\"t\":\"I\",\"g\":%d,\"d\":[", i < 0 ? -1 : 1);
    for (int k = 0; u; ++k, u /= 10000) fprintf(out, k ? ",%d" : "%d", (int)(u % 10000));
    fprintf(out, "]}");
}
static void Float(double f) {
    if (f == 0) { fprintf(out, "{\"t\":\"f\",\"m\":0,\"e\":%d}", signbit(f) ? 1 : 0); return; }
    if (!isfinite(f)) { fprintf(out, "{\"t\":\"x\"}"); return; }
    int e;
    double m = frexp(f, &e);
    int k = 0;
    while (m != floor(m) && k < 60) { m *= 2; ++k; }
    if (fabs(m) > 2147483647.0 || abs(k - e) > 200) { fprintf(out, "{\"t\":\"x\"}"); return; }
    fprintf(out, "{\"t\":\"f\",\"m\":%lld,\"e\":%d}", (long long)m, k - e);
}
static int SeenId(const void *p, int *first) {
    for (int i = 0; i < nseen; ++i) if (seen[i] == p) { *first = 0; return i + 1; }
    *first = 1;
    if (nseen < 4096) seen[nseen++] = p;
    return nseen;
}
static void Value(Tiny_Value v, int depth) {
    switch (v.type) {
        case TINY_VAL_NULL: fprintf(out, "{\"t\":\"n\"}"); break;
        case TINY_VAL_BOOL: fprintf(out, "{\"t\":\"b\",\"b\":%s}", v.boolean ? "true" : "false"); break;
        case TINY_VAL_INT: BigInt(v.i); break;
        case TINY_VAL_FLOAT: Float(v.f); break;
        case TINY_VAL_STRING:
        case TINY_VAL_CONST_STRING:
            fprintf(out, "{\"t\":\"s\",\"s\":");
            Codes(Tiny_ToString(v), Tiny_StringLen(v));
            fputc('}', out);
            break;
        case TINY_VAL_LIGHT_NATIVE:
            fprintf(out, "{\"t\":\"L\",\"v\":");
            BigInt((int64_t)(intptr_t)v.addr);
            fputc('}', out);
            break;
        case TINY_VAL_NATIVE: {
            if (Tiny_GetProp(v) == &ObjProp || Tiny_GetProp(v) == &SameProp) {
                Obj *o = Tiny_ToAddr(v);
                fprintf(out, "{\"t\":\"N\",\"ser\":%d}", o->serial);
            } else {
                int first;
                fprintf(out, "{\"t\":\"N\",\"id\":%d}", SeenId(v.obj, &first));
            }
            break;
        }
        case TINY_VAL_STRUCT: {
            int first;
            fprintf(out, "{\"t\":\"S\",\"id\":%d", SeenId(v.obj, &first));
#ifndef NO_DETAIL
            if (first && depth < 6) {
                fprintf(out, ",\"f\":[");
                for (int i = 0; i < v.obj->ostruct.n; ++i) {
                    if (i) fputc(',', out);
                    Value(Tiny_GetField(v, i), depth + 1);
                }
                fputc(']', out);
            }
#endif
            fputc('}', out);
            break;
        }
        default: fprintf(out, "{\"t\":\"?\"}");
    }
}
static void Val1(const char *k, Tiny_Value v) { nseen = 0; Field(k); Value(v, 0); }
static void ValN(const char *k, const Tiny_Value *v, int n) {
    nseen = 0;
    Field(k);
    fputc('[', out);
    for (int i = 0; i < n; ++i) { if (i) fputc(',', out); Value(v[i], 0); }
    fputc(']', out);
}
static void Str(const char *k, const char *s) {
    Field(k);
    fputc('"', out);
    for (; s && *s; ++s) if (*s == '"' || *s == '\\' || (unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(out, "\\u%04x", (unsigned char)*s); else fputc(*s, out);
    fputc('"', out);
}
static void Line(Tiny_StateThread *th) {
    const char *f = "?";
    int l = -1;
    Tiny_GetExecutingFileLine(th, &f, &l);
    Field("l");
    fprintf(out, "[\"%s\",%d]", f ? f : "", l);
}

// ---------------------------------------------------------------- functions of the host
typedef struct { char kind[16], name[300]; } Fn;
static Fn fns[FMAX];
static int nfns;

static Tiny_Value Host(int slot, Tiny_StateThread *th, const Tiny_Value *args, int n) {
    const char *k = fns[slot].kind;
    Thread *t = th->userdata;
    Tiny_Value r = Tiny_Null;
    int save = inTiny;
    inTiny = 0;
    int fi = -1;
    const Tiny_State *st = th->state;

    if (!strcmp(k, "call") && n > 0 && Tiny_ToString(args[0])) fi = Tiny_GetFunctionIndex(st, Tiny_ToString(args[0]));
    Begin(fi >= 0 ? "cb" : "c");
    Field("t");
    fprintf(out, "%d", t->id);
    Str("f", fns[slot].name);
    ValN("a", args, n);
    Line(th);
    if (!strcmp(k, "look") && n > 0 && args[0].type == TINY_VAL_NATIVE && Tiny_GetProp(args[0]) != &ObjProp && Tiny_GetProp(args[0]) != &SameProp) {
        Array *a = Tiny_ToAddr(args[0]);
        int len = ArrayLen(a);
        nseen = 0;
        Field("el");
        fputc('[', out);
        for (int i = 0; i < len; ++i) { if (i) fputc(',', out); Value(*ArrayGet(a, i), 0); }
        fputc(']', out);
    } else if (!strcmp(k, "look")) { Field("el"); fprintf(out, "[]"); }
    if (!strcmp(k, "conv")) {  // what the conversions of the interface say about the arguments
        Field("cv");
        fputc('[', out);
        for (int i = 0; i < n; ++i) {
            Tiny_Value v = args[i];
            fprintf(out, "%s{\"b\":%s,\"i\":", i ? "," : "", Tiny_ToBool(v) ? "true" : "false");
            BigInt(Tiny_ToInt(v));
            fprintf(out, ",\"f\":");
            Float(Tiny_ToFloat(v));
            fprintf(out, ",\"nm\":");
            Float(Tiny_ToNumber(v));
            fprintf(out, ",\"s\":%s,\"n\":%zu,\"nl\":%s,\"ad\":%s,\"pr\":%s,\"fd\":", Tiny_ToString(v) ? "true" : "false", Tiny_StringLen(v),
                    Tiny_IsNull(v) ? "true" : "false",
                    (v.type == TINY_VAL_LIGHT_NATIVE ? Tiny_ToAddr(v) == v.addr : v.type == TINY_VAL_NATIVE ? !!Tiny_ToAddr(v) : 0) ? "true" : "false",
                    Tiny_GetProp(v) ? Tiny_GetProp(v) == &ObjProp || Tiny_GetProp(v) == &SameProp ? "\"obj\"" : "\"lib\"" : "\"\"");
            if (v.type == TINY_VAL_STRUCT) fprintf(out, "\"S\"");
            else { fprintf(out, "\"%s\"", Tiny_IsNull(Tiny_GetField(v, 0)) ? "n" : "?"); }
            fputc('}', out);
        }
        fputc(']', out);
    }
    if (!strcmp(k, "usage")) { Field("na"); fprintf(out, "%ld", outBy[(intptr_t)th->ctx.userdata & 1023]); }
    if (!strcmp(k, "mk")) { Side(); } else { Side(); End(); }

    if (!strcmp(k, "echo")) { if (n) r = args[0]; }
    else if (!strcmp(k, "usage") || !strcmp(k, "conv")) r = Tiny_NewInt(0);
    else if (!strcmp(k, "count")) r = Tiny_NewInt(n);
    else if (!strcmp(k, "pick")) {
        if (n && args[0].type == TINY_VAL_INT && args[0].i >= 0 && args[0].i + 2 <= n) r = args[args[0].i + 1];
    } else if (!strcmp(k, "str")) {
        if (n && Tiny_ToString(args[0])) r = Tiny_NewStringCopy(th, Tiny_ToString(args[0]), Tiny_StringLen(args[0]));
    } else if (!strcmp(k, "bytes")) {
        char *b = Tiny_AllocUsingContext(th->ctx, NULL, n + 1);
        for (int i = 0; i < n; ++i) b[i] = (char)Tiny_ToInt(args[i]);
        b[n] = 0;
        r = Tiny_NewString(th, b, n);
    } else if (!strcmp(k, "c7")) r = Tiny_NewInt(7);
    else if (!strcmp(k, "cf")) r = Tiny_NewFloat(2.5);
    else if (!strcmp(k, "cs")) r = Tiny_NewConstString("host");
    else if (!strcmp(k, "ct")) r = Tiny_NewBool(true);
    else if (!strcmp(k, "junk")) {
        int c = n ? (int)Tiny_ToInt(args[0]) : 0;
        for (int i = 0; i < c; ++i) Tiny_NewStringCopy(th, "junk", 4);
    } else if (!strcmp(k, "light")) {
        if (n && args[0].type == TINY_VAL_INT) r = Tiny_NewLightNative((void *)(intptr_t)args[0].i);
    } else if (!strcmp(k, "mk")) {
        r = NewObj(th, n, args);
        Val1("r", r);
        End();
    } else if (!strcmp(k, "nil")) {
        ++nils;
        Tiny_NewNative(th, NULL, &NilProp);
    } else if (!strcmp(k, "same")) {
        r = n ? args[0] : r;
        if (Tiny_GetProp(r) == &ObjProp || Tiny_GetProp(r) == &SameProp) r = Tiny_NewNative(th, Tiny_ToAddr(r), &SameProp);
    } else if (!strcmp(k, "kid") || !strcmp(k, "kset")) {
        if (n >= 2 && (Tiny_GetProp(args[0]) == &ObjProp || Tiny_GetProp(args[0]) == &SameProp) && args[1].type == TINY_VAL_INT) {
            Obj *o = Tiny_ToAddr(args[0]);
            int i = (int)args[1].i;
            if (args[1].i >= 0 && args[1].i < o->n) {
                if (k[2] == 'd') r = o->kids[i];
                else if (n >= 3) o->kids[i] = args[2];
            }
        }
    } else if (!strcmp(k, "getg") || !strcmp(k, "setg")) {
        const char *g = n ? Tiny_ToString(args[0]) : NULL;
        int i = g ? Tiny_GetGlobalIndex(st, g) : -1;
        if (i >= 0) {
            if (k[0] == 'g') r = Tiny_GetGlobal(th, i);
            else if (n >= 2) Tiny_SetGlobal(th, i, args[1]);
        }
    } else if (!strcmp(k, "look")) { if (n) r = args[0]; }
    else if (fi >= 0) {
        inTiny = 1;
        r = Tiny_CallFunction(th, fi, args + 1, n - 1);
        inTiny = 0;
        Begin("ce");
        Field("t");
        fprintf(out, "%d", t->id);
        Val1("r", r);
        Line(th);
        Side();
        End();
    }
    inTiny = save;
    return r;
}
#define T1(i) static Tiny_Value H##i(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Host(i, t, a, n); }
#define T10(x) T1(x##0) T1(x##1) T1(x##2) T1(x##3) T1(x##4) T1(x##5) T1(x##6) T1(x##7) T1(x##8) T1(x##9)
T1(0) T1(1) T1(2) T1(3) T1(4) T1(5) T1(6) T1(7) T1(8) T1(9)
T10(1) T10(2) T10(3) T10(4) T10(5) T10(6) T10(7) T10(8) T10(9)
#define T100(x) T10(x##0) T10(x##1) T10(x##2) T10(x##3) T10(x##4) T10(x##5) T10(x##6) T10(x##7) T10(x##8) T10(x##9)
T100(1) T100(2) T100(3)
#define N10(x) H##x##0, H##x##1, H##x##2, H##x##3, H##x##4, H##x##5, H##x##6, H##x##7, H##x##8, H##x##9
#define N100(x) N10(x##0), N10(x##1), N10(x##2), N10(x##3), N10(x##4), N10(x##5), N10(x##6), N10(x##7), N10(x##8), N10(x##9)
static const Tiny_ForeignFunction tramp[FMAX] = {H0, H1, H2, H3, H4, H5, H6, H7, H8, H9,
    N10(1), N10(2), N10(3), N10(4), N10(5), N10(6), N10(7), N10(8), N10(9), N100(1), N100(2), N100(3)};

// The functions of the test host (TinyTrace: HostSigs)
static const char *const hostSigs[][2] = {
    {"emit", "emit(...): void"},
    {"echo", "echo(any): any"},
    {"count", "count(...): int"},
    {"pick", "pick(int, ...): any"},
    {"str", "hstr(str): str"},
    {"bytes", "bytes(...): str"},
    {"mk", "mk(...): any"},
    {"kid", "kid(any, int): any"},
    {"kset", "kset(any, int, any): void"},
    {"call", "call(str, ...): any"},
    {"getg", "hgetg(str): any"},
    {"setg", "hsetg(str, any): void"},
    {"light", "light(int): any"},
    {"junk", "junk(int): void"},
    {"look", "look(any): any"},
    {"emit", "ei(int): void"},
    {"emit", "ef(float): void"},
    {"emit", "es(str): void"},
    {"emit", "eb(bool): void"},
    {"echo", "oi(int): int"},
    {"echo", "of(float): float"},
    {"echo", "os(str): str"},
    {"echo", "ob(bool): bool"},
    {"c7", "c7(): int"},
    {"cf", "cf(): float"},
    {"cs", "cs(): str"},
    {"ct", "ct(): bool"},
    {"count", "untyped"},
    {"usage", "usage(): int"},
    {"conv", "conv(...): int"},
    {"nil", "nil(): void"},
    {"same", "same(any): any"},
};
static Tiny_ForeignFunction BindSlot(const char *kind, const char *sig) {
    char name[300];
    snprintf(name, sizeof name, "%.*s", (int)strcspn(sig, "("), sig);
    for (int i = 0; i < nfns; ++i) if (!strcmp(fns[i].kind, kind) && !strcmp(fns[i].name, name)) return tramp[i];
    if (nfns >= FMAX) _exit(98);
    strcpy(fns[nfns].kind, kind);
    strcpy(fns[nfns].name, name);
    return tramp[nfns++];
}

// What the host can learn about a type, a function and a constant
static void TagName(FILE *f, const Tiny_Symbol *t) {
    if (!t) { fprintf(f, "-"); return; }
    switch (t->type) {
        case TINY_SYM_TAG_VOID: fprintf(f, "void"); break;
        case TINY_SYM_TAG_BOOL: fprintf(f, "bool"); break;
        case TINY_SYM_TAG_INT: fprintf(f, "int"); break;
        case TINY_SYM_TAG_FLOAT: fprintf(f, "float"); break;
        case TINY_SYM_TAG_STR: fprintf(f, "str"); break;
        case TINY_SYM_TAG_ANY: fprintf(f, "any"); break;
        case TINY_SYM_TAG_NULLABLE: TagName(f, t->nullableTag); fputc('?', f); break;
        default: fprintf(f, "%s", t->name);
    }
}
static void AskType(FILE *f, Tiny_State *s, const char *name) {
    const Tiny_Symbol *t = Tiny_FindTypeSymbol(s, name);
    if (!t) { fprintf(f, "{\"k\":\"none\"}"); return; }
    fprintf(f, "{\"k\":\"");
    if (t->type == TINY_SYM_TAG_FOREIGN) fprintf(f, "foreign");
    else if (t->type == TINY_SYM_TAG_STRUCT) fprintf(f, "struct");
    else TagName(f, t);
    fprintf(f, "\",\"n\":\"");
    TagName(f, t);
    fprintf(f, "\",\"fs\":[");
    if (t->type == TINY_SYM_TAG_STRUCT) {
        for (size_t i = 0; i < Tiny_SymbolArrayCount(t->sstruct.fields); ++i) {
            const Tiny_Symbol *d = t->sstruct.fields[i];
            fprintf(f, "%s{\"n\":\"%s\",\"ty\":\"", i ? "," : "", d->name);
            TagName(f, d->fieldTag);
            fprintf(f, "\"}");
        }
    }
    fprintf(f, "]}");
}
static void AskFunc(FILE *f, Tiny_State *s, const char *name) {
    const Tiny_Symbol *t = Tiny_FindFuncSymbol(s, name);
    if (!t) { fprintf(f, "{\"k\":\"none\"}"); return; }
    int own = t->type == TINY_SYM_FUNCTION;
    Tiny_Symbol **ps = own ? t->func.args : t->foreignFunc.argTags;
    fprintf(f, "{\"k\":\"%s\",\"n\":\"%s\",\"va\":%s,\"ps\":[", own ? "T" : "F", t->name, !own && t->foreignFunc.varargs ? "true" : "false");
    for (size_t i = 0; i < Tiny_SymbolArrayCount(ps); ++i) {
        fprintf(f, i ? ",\"" : "\"");
        TagName(f, own ? ps[i]->var.tag : ps[i]);
        fputc('"', f);
    }
    fprintf(f, "],\"ret\":\"");
    TagName(f, own ? t->func.returnTag : t->foreignFunc.returnTag);
    fprintf(f, "\"}");
}
static void AskConst(FILE *f, Tiny_State *s, const char *name) {
    const Tiny_Symbol *t = Tiny_FindConstSymbol(s, name);
    if (!t) { fprintf(f, "{\"k\":\"none\"}"); return; }
    fprintf(f, "{\"k\":\"const\",\"n\":\"%s\",\"ty\":\"", t->name);
    TagName(f, t->constant.tag);
    fprintf(f, "\",\"v\":");
    Tiny_Value v = Tiny_Null;
    switch (t->constant.tag->type) {
        case TINY_SYM_TAG_BOOL: v = Tiny_NewBool(t->constant.bValue); break;
        case TINY_SYM_TAG_INT: v = Tiny_NewInt(0); v.i = t->constant.iValue; break;
        case TINY_SYM_TAG_FLOAT: v = Tiny_NewFloat(t->constant.fValue); break;
        case TINY_SYM_TAG_STR: v = Tiny_NewConstString(Tiny_GetStringFromConstIndex(s, t->constant.sIndex)); break;
        default: break;
    }
    FILE *save = out;
    out = f;
    Value(v, 0);
    out = save;
    fprintf(f, "}");
}

// The macro of the host
static char *logBuf;
static size_t logLen, logCap;
static void Log(const char *s, size_t n) {
    if (logLen + n + 1 > logCap) logBuf = __real_realloc(logBuf, logCap = 2 * (logCap + n) + 64);
    memcpy(logBuf + logLen, s, n);
    logLen += n;
    logBuf[logLen] = 0;
}
static Tiny_MacroResult HostMacro(Tiny_State *state, char *const *args, int nargs, const char *asName) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    char b[64];
    int save = inTiny;
    inTiny = 0;
    Log(logLen ? ",{\"as\":[" : "{\"as\":[", logLen ? 8 : 7);
    for (int i = 0; i < nargs; ++i) {
        Log(",[" + (i == 0), 2 - (i == 0));
        for (size_t j = 0; j < strlen(args[i]); ++j) Log(b, snprintf(b, sizeof b, j ? ",%d" : "%d", (unsigned char)args[i][j]));
        Log("]", 1);
    }
    Log("],\"A\":\"", 7);
    if (asName) Log(asName, strlen(asName));
    Log("\"", 1);
    if (nargs > 1 && !strcmp(args[0], "ask")) {
        char *m = NULL;
        size_t len;
        FILE *f = open_memstream(&m, &len);
        fprintf(f, ",\"ty\":");
        AskType(f, state, args[1]);
        fprintf(f, ",\"fn\":");
        AskFunc(f, state, args[1]);
        fclose(f);
        Log(m, len);
        __real_free(m);
    }
    Log("}", 1);
    inTiny = save;
    if (nargs >= 1 && !strcmp(args[0], "fail")) {
        r.type = TINY_MACRO_ERROR;
        strcpy(r.error.msg, "asked to fail");
    } else if (nargs > 1 && !strcmp(args[0], "reg")) {
        Tiny_RegisterType(state, args[1]);
    } else if (nargs > 1 && !strcmp(args[0], "src")) {
        Tiny_CompileResult c = Tiny_CompileString(state, "(macro)", args[1]);
        if (c.type != TINY_COMPILE_SUCCESS) {
            r.type = TINY_MACRO_ERROR;
            strcpy(r.error.msg, "nested");
        }
    }
    return r;
}

// ---------------------------------------------------------------- scripts
static char *Unhex(const char *s, size_t *n) {
    size_t len = strlen(s) / 2;
    char *b = __real_malloc(len + 1);
    for (size_t i = 0; i < len; ++i) {
        char d[3] = { s[2 * i], s[2 * i + 1], 0 };
        b[i] = (char)strtol(d, NULL, 16);
    }
    b[len] = 0;
    if (n) *n = len;
    return b;
}
// n b0 b1 i<n> f<n> s<hex> N (a new object of the host)
static Tiny_Value Tok(Tiny_StateThread *th, const char *s) {
    switch (s[0]) {
        case 'b': return Tiny_NewBool(s[1] == '1');
        case 'i': { Tiny_Value v = Tiny_NewInt(0); v.i = strtoll(s + 1, NULL, 10); return v; }
        case 'f': return Tiny_NewFloat(strtod(s + 1, NULL));
        case 's': { size_t n; char *b = Unhex(s + 1, &n); Tiny_Value v = Tiny_NewStringCopy(th, b, n); __real_free(b); return v; }
        case 'L': return Tiny_NewLightNative((void *)(intptr_t)strtoll(s + 1, NULL, 10));
        case 'N': return Tiny_IsThreadDone(th) ? Tiny_Null : NewObj(th, 0, NULL);  // natives belong to a program which runs
        default: return Tiny_Null;
    }
}
#define TINY(x) do { inTiny = 1; x; inTiny = 0; } while (0)

static void IntF(const char *k, long v) { Field(k); fprintf(out, "%ld", v); }
static void BoolF(const char *k, int v) { Field(k); fprintf(out, v ? "true" : "false"); }

static int starts[4096], nstarts;
static void Command(char **w, int n) {
    const char *op = w[0];
    int a = n > 1 ? atoi(w[1]) : 0;
    if (a < 0 || a >= NMAX) _exit(99);
    Thread *t = &threads[a];
    Tiny_State *s = states[a];

    if (!strcmp(op, "state")) {
        TINY(states[a] = Tiny_CreateStateWithContext(Ctx(100 + a)));
        Begin("state");
        IntF("s", a);
        Field("libs");
        fputc('[', out);
        for (int i = 2; i < n; ++i) {
            fprintf(out, "%s\"%s\"", i > 2 ? "," : "", w[i]);
            inTiny = 1;
            if (!strcmp(w[i], "array")) Tiny_BindStandardArray(states[a]);
            if (!strcmp(w[i], "dict")) Tiny_BindStandardDict(states[a]);
            if (!strcmp(w[i], "io")) Tiny_BindStandardIO(states[a]);
            if (!strcmp(w[i], "i64")) Tiny_BindI64(states[a]);
            if (!strcmp(w[i], "std")) Tiny_BindStandardLib(states[a]);
            if (!strcmp(w[i], "host")) Tiny_BindMacro(states[a], "host", HostMacro);
            inTiny = 0;
        }
        fputc(']', out);
        BoolF("std", 0);
        End();
    } else if (!strcmp(op, "hstate")) {  // a state with all libraries and functions of the host
        inTiny = 1;
        states[a] = Tiny_CreateStateWithContext(Ctx(100 + a));
        Tiny_BindStandardArray(states[a]);
        Tiny_BindStandardDict(states[a]);
        Tiny_BindStandardIO(states[a]);
        Tiny_BindI64(states[a]);
        Tiny_BindStandardLib(states[a]);
        Tiny_BindMacro(states[a], "host", HostMacro);
        for (size_t i = 0; i < sizeof hostSigs / sizeof hostSigs[0]; ++i) Tiny_BindFunction(states[a], hostSigs[i][1], BindSlot(hostSigs[i][0], hostSigs[i][1]));
        inTiny = 0;
        Begin("state");
        IntF("s", a);
        BoolF("std", 1);
        End();
    } else if (!strcmp(op, "bind")) {  // bind s kind hexsig
        size_t len;
        char *sig = Unhex(w[3], &len);
        TINY(Tiny_BindFunction(s, sig, BindSlot(w[2], sig)));
        Begin("bind");
        IntF("s", a);
        Field("sig");
        Codes(sig, len);
        Str("kind", w[2]);
        End();
    } else if (!strcmp(op, "type")) {
        TINY(Tiny_RegisterType(s, w[2]));
        Begin("type"); IntF("s", a); Str("n", w[2]); End();
    } else if (!strcmp(op, "const")) {  // const s name tok
        Tiny_StateThread dummy = {.ctx = Ctx(99)};
        Tiny_Value v = Tok(&dummy, w[3][0] == 's' ? "n" : w[3]);
        char *str = NULL;
        if (w[3][0] == 's') { str = Unhex(w[3] + 1, NULL); v = Tiny_NewConstString(str); }
        inTiny = 1;
        if (w[3][0] == 'b') Tiny_BindConstBool(s, w[2], v.boolean);
        if (w[3][0] == 'i') Tiny_BindConstInt(s, w[2], v.i);
        if (w[3][0] == 'f') Tiny_BindConstFloat(s, w[2], v.f);
        if (w[3][0] == 's') Tiny_BindConstString(s, w[2], str);
        inTiny = 0;
        Begin("const"); IntF("s", a); Str("n", w[2]); Val1("v", v); End();
        __real_free(str);
    } else if (!strcmp(op, "xcompile")) {  // a source which is too deep for the specification: how it ends is open
        size_t len;
        char *src = Unhex(n > 3 ? w[3] : "", &len);
        Tiny_CompileResult r;
        logLen = 0;
        TINY(r = Tiny_CompileString(s, w[2], src));
        if (r.type == TINY_COMPILE_SUCCESS) compiled[a] = 1;
        Begin("xcompile");
        IntF("s", a);
        BoolF("ok", r.type == TINY_COMPILE_SUCCESS);
        IntF("len", len);
        if (r.type != TINY_COMPILE_SUCCESS) {
            IntF("mlen", strnlen(r.error.msg, sizeof r.error.msg));
            IntF("pos", r.error.pos);
        }
        End();
        __real_free(src);
    } else if (!strcmp(op, "compile") || !strcmp(op, "compilef")) {  // compile s name hexsrc
        size_t len;
        char *src = Unhex(n > 3 ? w[3] : "", &len);
        logLen = 0;
        Tiny_CompileResult r;
        if (op[7] == 'f') {
            FILE *f = fopen(w[2], "wb");
            fwrite(src, 1, len, f);
            fclose(f);
            TINY(r = Tiny_CompileFile(s, w[2]));
        } else TINY(r = Tiny_CompileString(s, w[2], src));
        if (r.type == TINY_COMPILE_SUCCESS) compiled[a] = 1;
        Begin("compile");
        IntF("s", a);
        Str("name", w[2]);
        Field("src");
        Codes(src, len);
        BoolF("ok", r.type == TINY_COMPILE_SUCCESS);
        if (r.type != TINY_COMPILE_SUCCESS) {
            size_t mlen = strnlen(r.error.msg, sizeof r.error.msg);
            IntF("mlen", mlen);
            IntF("msz", sizeof r.error.msg);
            IntF("pos", r.error.pos);
            Field("mc"); Codes(r.error.msg, mlen);
            Field("nc"); Codes(w[2], strlen(w[2]));
        }
        Field("log");
        fprintf(out, "[%.*s]", (int)logLen, logLen ? logBuf : "");
        End();
        __real_free(src);
    } else if (!strcmp(op, "nofile")) {  // nofile s name: compile a file which is not there, or cannot be read
        Tiny_CompileResult r;
        TINY(r = Tiny_CompileFile(s, w[2]));
        Begin("nofile");
        IntF("s", a);
        BoolF("ok", r.type == TINY_COMPILE_SUCCESS);
        IntF("mlen", strnlen(r.error.msg, sizeof r.error.msg));
        IntF("msz", sizeof r.error.msg);
        End();
    } else if (!strcmp(op, "ask")) {  // ask s name
        Begin("ask");
        IntF("s", a);
        Str("n", w[2]);
        Field("ty"); AskType(out, s, w[2]);
        Field("fn"); AskFunc(out, s, w[2]);
        Field("ct"); AskConst(out, s, w[2]);
        End();
    } else if (!strcmp(op, "stdin")) {  // stdin t hex: what the programs can read
        size_t len;
        char *b = Unhex(n > 2 ? w[2] : "", &len);
        fflush(stdin);
        int fd = memfd_create("stdin", 0);
        if (write(fd, b, len) != (ssize_t)len) _exit(94);
        lseek(fd, 0, SEEK_SET);
        dup2(fd, 0);
        close(fd);
        clearerr(stdin);
        Begin("stdin"); IntF("t", a); Field("b"); Codes(b, len); End();
        __real_free(b);
    } else if (!strcmp(op, "line")) {
        Begin("line"); IntF("t", a); Line(&t->th); End();
    } else if (!strcmp(op, "dstate")) {  // a state with the default context
        defMode = 1;
        TINY(states[a] = Tiny_CreateState());
        inTiny = 1;
        Tiny_BindStandardArray(states[a]);
        Tiny_BindStandardDict(states[a]);
        Tiny_BindStandardIO(states[a]);
        Tiny_BindI64(states[a]);
        Tiny_BindStandardLib(states[a]);
        Tiny_BindMacro(states[a], "host", HostMacro);
        for (size_t i = 0; i < sizeof hostSigs / sizeof hostSigs[0]; ++i) Tiny_BindFunction(states[a], hostSigs[i][1], BindSlot(hostSigs[i][0], hostSigs[i][1]));
        inTiny = 0;
        Begin("state"); IntF("s", a); BoolF("std", 1); End();
    } else if (!strcmp(op, "dthread")) {
        t->id = a;
        t->used = 1;
        t->sid = atoi(w[2]);
        TINY(Tiny_InitThread(&t->th, states[t->sid]));
        t->th.userdata = t;
        Begin("thread"); IntF("t", a); IntF("s", t->sid); End();
    } else if (!strcmp(op, "gidx")) {
        Begin("gidx"); IntF("s", a); Str("n", w[2]); BoolF("r", Tiny_GetGlobalIndex(s, w[2]) >= 0); End();
    } else if (!strcmp(op, "fidx")) {
        Begin("fidx"); IntF("s", a); Str("n", w[2]); BoolF("r", Tiny_GetFunctionIndex(s, w[2]) >= 0); End();
    } else if (!strcmp(op, "thread")) {
        t->id = a;
        t->used = 1;
        t->sid = atoi(w[2]);
        TINY(Tiny_InitThreadWithContext(&t->th, states[t->sid], Ctx(200 + a)));
        t->th.userdata = t;
        Begin("thread"); IntF("t", a); IntF("s", t->sid); End();
    } else if (!strcmp(op, "start")) {
        if (!compiled[t->sid]) return;
        TINY(Tiny_StartThread(&t->th));
        Begin("start"); IntF("t", a); End();
    } else if (!strcmp(op, "run")) {
        shared[1] = a + 1;
        Begin("run"); IntF("t", a); End();
        TINY(Tiny_Run(&t->th));
        Begin("ran"); IntF("t", a); BoolF("done", Tiny_IsThreadDone(&t->th)); Side(); End();
    } else if (!strcmp(op, "step") || !strcmp(op, "finish")) {  // step t n; finish t n: as many steps as it takes, an event every n
        shared[1] = a + 1;
        long k = n > 2 ? atol(w[2]) : 1, total = 0, c = 0;
        do {
            inTiny = 1;
            for (long i = 0; i < k; ++i) if (Tiny_ExecuteCycle(&t->th)) ++c; else break;
            inTiny = 0;
            total += k;
            if (op[0] == 'f' && !Tiny_IsThreadDone(&t->th) && !HasSide()) continue;
            Begin("stepped"); IntF("t", a); IntF("n", c > 1000000 ? 1000000 : c); BoolF("done", Tiny_IsThreadDone(&t->th)); Side(); End();
            c = 0;
        } while (op[0] == 'f' && !Tiny_IsThreadDone(&t->th) && total < 100000000);
    } else if (!strcmp(op, "call")) {  // call t name toks
        shared[1] = a + 1;
        Tiny_Value args[64];
        for (int i = 3; i < n; ++i) args[i - 3] = Tok(&t->th, w[i]);
        int f = Tiny_GetFunctionIndex(states[t->sid], w[2]);
        Begin("hcall"); IntF("t", a); Str("f", w[2]); ValN("a", args, n - 3); BoolF("none", f < 0); Side(); End();
        if (f >= 0) {
            Tiny_Value r;
            TINY(r = Tiny_CallFunction(&t->th, f, args, n - 3));
            Begin("hret"); IntF("t", a); Val1("r", r); Side(); End();
        }
    } else if (!strcmp(op, "getg")) {
        int i = Tiny_GetGlobalIndex(states[t->sid], w[2]);
        Begin("getg"); IntF("t", a); Str("n", w[2]);
        if (i < 0) { Field("r"); fprintf(out, "{\"t\":\"none\"}"); } else Val1("r", Tiny_GetGlobal(&t->th, i));
        Side();
        End();
    } else if (!strcmp(op, "setg")) {
        Tiny_Value v = Tok(&t->th, w[3]);
        int i = Tiny_GetGlobalIndex(states[t->sid], w[2]);
        if (i >= 0) {
            Begin("setg"); IntF("t", a); Str("n", w[2]); Val1("v", v); Side(); End();
            TINY(Tiny_SetGlobal(&t->th, i, v));
        }
    } else if (!strcmp(op, "destroy")) {
        TINY(Tiny_DestroyThread(&t->th));
        t->used = 0;
        Begin("destroy"); IntF("t", a); Side(); End();
    } else if (!strcmp(op, "delstate")) {
        TINY(Tiny_DeleteState(s));
        states[a] = NULL;
        compiled[a] = 0;
        Begin("delstate"); IntF("s", a); End();
    } else if (!strcmp(op, "pool")) {
        Pool();
    } else if (!strcmp(op, "mem")) {
        Begin("mem"); IntF("n", outstanding + defLive); IntF("bad", badFrees + abs(nils)); IntF("raw", rawAllocs); IntF("bytes", bytesOut); End();
    } else if (!strcmp(op, "disasm")) {
        // The listing: one entry for every instruction; and the numbers of the functions named
        Begin("disasm");
        IntF("s", a);
        Field("is");
        fputc('[', out);
        int pc = 0, k = 0;
        enum { MAXTEXT = 1 << 16 };
        char *buf = __real_malloc(MAXTEXT);
        while (pc >= 0 && k < 20000) {
            int p0 = pc;
            if (k < 4096) starts[nstarts = k, nstarts++] = pc;
            buf[0] = 0;
            int okd;
            TINY(okd = Tiny_DisasmOne(s, &pc, buf, MAXTEXT));
            fprintf(out, "%s{\"p\":%d,\"q\":%d,\"ok\":%s,\"s\":", k ? "," : "", p0, pc, okd ? "true" : "false");
            Codes(buf, strlen(buf));
            fputc('}', out);
            ++k;
            if (!okd && pc == p0) break;
        }
        __real_free(buf);
        fputc(']', out);
        Field("fn");
        fputc('[', out);
        for (int i = 2, c = 0; i < n; ++i) {
            int f = Tiny_GetFunctionIndex(s, w[i]);
            if (f >= 0) fprintf(out, "%s[\"%s\",%d]", c++ ? "," : "", w[i], f);
        }
        fputc(']', out);
        End();
    } else if (!strcmp(op, "dis1")) {
        // One instruction into a buffer of the given size
        // kN: the Nth instruction of the last listing, another number: an address outside of the program
        int pc = w[2][0] == 'k' ? (nstarts ? starts[atoi(w[2] + 1) % nstarts] : -1) : atoi(w[2]), p0 = pc;
        size_t max = atoi(w[3]);
        char *buf = malloc(max + 1);
        memset(buf, 0x55, max + 1);
        int okd;
        TINY(okd = Tiny_DisasmOne(s, &pc, buf, max));
        size_t k = 0;
        while (k < max && buf[k]) ++k;
        Begin("dis1");
        IntF("s", a); IntF("p", p0); IntF("q", pc); IntF("max", max); BoolF("ok", okd);
        BoolF("in", buf[max] == 0x55 && k < max);
        Field("b");
        Codes(buf, k);
        End();
        free(buf);
    } else { Begin("badcommand"); Str("op", op); End(); _exit(97); }
}

static void RunCase(char **lines, int n) {
    for (int i = 0; i < n; ++i) {
        char *copy = strcpy(__real_malloc(strlen(lines[i]) + 1), lines[i]);
        char *w[128];
        int k = 0;
        for (char *p = strtok(copy, " "); p && k < 128; p = strtok(NULL, " ")) w[k++] = p;
        if (k) Command(w, k);
        __real_free(copy);
    }
}

// Removes the scratch directory of a case: it has no directories of its own
static void RemoveDir(const char *dir) {
    DIR *d = opendir(dir);
    struct dirent *e;
    while (d && (e = readdir(d)))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlinkat(dirfd(d), e->d_name, 0);
    if (d) closedir(d);
    rmdir(dir);
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    int limit = argc > 4 ? atoi(argv[4]) : 20;
    FILE *f = fopen(argv[1], "rb");
    if (!f) return 2;
    outFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (outFd < 0 || chdir(argv[3])) return 2;
    shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    char **lines = NULL;
    int nl = 0, cap = 0;
    char *line = NULL;
    size_t lcap = 0;
    ssize_t len;
    char id[128] = "";
    while ((len = getline(&line, &lcap, f)) >= 0) {
        if (len && line[len - 1] == '\n') line[--len] = 0;
        if (!strncmp(line, "case ", 5)) {
            snprintf(id, sizeof id, "%s", line + 5);
            nl = 0;
        } else if (!strcmp(line, "end")) {
            dprintf(outFd, "{\"id\":\"%s\",\"ev\":[", id);
            char tmpl[] = "casXXXXXX";
            char *dir = mkdtemp(tmpl);
            shared[0] = shared[1] = 0;
            pid_t pid = fork();
            if (!pid) {
                close(fileno(f));  // an exit would move the position of the file, which is shared
                if (chdir(dir)) _exit(96);
                stdoutFd = memfd_create("stdout", 0);
                dup2(stdoutFd, 1);
                stdoutFd = 1;
                int nul = open("/dev/null", O_RDWR);
                dup2(nul, 0);
                if (!getenv("TINYH_ERR")) dup2(nul, 2);
                struct rlimit rl = {0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                rl.rlim_cur = rl.rlim_max = 256 << 20;
                setrlimit(RLIMIT_FSIZE, &rl);
                alarm(limit);
                RunCase(lines, nl);
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                dprintf(outFd, "%s{\"e\":\"%s\"", shared[0] ? "," : "",
                        WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "timeout" : "crash");
                dprintf(outFd, ",\"sig\":%d,\"rc\":%d", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0);
                if (shared[1] > 0) dprintf(outFd, ",\"t\":%d", shared[1] - 1);
                dprintf(outFd, "}");
            }
            dprintf(outFd, "]}\n");
            RemoveDir(dir);
        } else {
            if (nl == cap) lines = __real_realloc(lines, sizeof(char *) * (cap = 2 * cap + 16));
            lines[nl++] = strcpy(__real_malloc(len + 1), line);
        }
    }
    return 0;
}
