// Drives the C containers and the position functions of the library. usage: tinyc SCRIPT OUT
// Script: "case ID", operations, "end". One line of JSON for each case.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "tiny.h"
#include "array.h"
#include "dict.h"
#include "arena.h"
#include "pos.h"
#include "util.h"

#define NOBJ 5
#define NONE (-1000)

// ---- memory: every object has an allocator of its own
typedef struct { void *p; size_t n; int own, num; } Mem;
static Mem *mem;
static int memN, memCap, memNum, bad;

static void *Alloc(void *ptr, size_t size, void *user) {
    int own = (int)(intptr_t)user;
    int at = -1;
    if (ptr) {
        for (int i = memN - 1; i >= 0; --i) if (mem[i].p == ptr) { at = i; break; }
        if (at < 0 || mem[at].own != own) { ++bad; return NULL; }
    }
    if (size == 0) {
        if (at >= 0) { memset(ptr, 0xDD, mem[at].n); free(ptr); mem[at] = mem[--memN]; }
        return NULL;
    }
    if (size > (1u << 28)) abort();
    void *q = malloc(size);
    memset(q, 0xA5, size);
    if (at >= 0) {
        memcpy(q, ptr, mem[at].n < size ? mem[at].n : size);
        memset(ptr, 0xDD, mem[at].n);
        free(ptr);
        mem[at].p = q; mem[at].n = size;
    } else {
        if (memN == memCap) mem = realloc(mem, (memCap = memCap ? 2 * memCap : 64) * sizeof *mem);
        mem[memN++] = (Mem){q, size, own, ++memNum};
    }
    return q;
}
static int Outstanding(int own) { int n = 0; for (int i = 0; i < memN; ++i) n += mem[i].own == own; return n; }

// ---- values and keys as codes
static char strs[2][110][12];
static Tiny_Value Val(int c) {
    if (c == 0) return Tiny_Null;
    if (c == 1 || c == 2) return Tiny_NewBool(c == 1);
    switch (c % 4) {
        case 0: return Tiny_NewFloat(c + 0.5f);
        case 1: return Tiny_NewConstString(strs[0][c % 100]);
        case 2: return Tiny_NewLightNative((void *)(uintptr_t)(c * 16));
        default: return Tiny_NewInt(c);
    }
}
static int UnVal(Tiny_Value v) {
    switch (v.type) {
        case TINY_VAL_NULL: return 0;
        case TINY_VAL_BOOL: return v.boolean ? 1 : 2;
        case TINY_VAL_FLOAT: return (int)(v.f - 0.5f) + (v.f - 0.5f == (int)(v.f - 0.5f) ? 0 : 100000);
        case TINY_VAL_CONST_STRING: { int n = -1; sscanf(Tiny_ToString(v), "k%d", &n); return n; }
        case TINY_VAL_LIGHT_NATIVE: return (int)((uintptr_t)v.addr / 16);
        case TINY_VAL_INT: return (int)v.i;
        default: return -7;
    }
}
static Tiny_Value KeyOf(int c) {
    if (c == 1 || c == 2) return Tiny_NewBool(c == 1);
    if (c >= 100 && c < 300) return Tiny_NewConstString(strs[c >= 200][c % 100]);
    if (c >= 300 && c < 500) return Tiny_NewLightNative((void *)(uintptr_t)((c - 299) * 8));
    if (c >= 500 && c < 1000) return Tiny_NewInt(500 - c);
    return Tiny_NewInt(c - 1000);
}
static int UnKey(Tiny_Value v) {
    switch (v.type) {
        case TINY_VAL_BOOL: return v.boolean ? 1 : 2;
        case TINY_VAL_CONST_STRING: { int n = -1; sscanf(Tiny_ToString(v), "k%d", &n); return n < 0 ? -8 : 100 + n; }
        case TINY_VAL_LIGHT_NATIVE: return (int)((uintptr_t)v.addr / 8) + 299;
        case TINY_VAL_INT: return v.i < 0 ? 500 - (int)v.i : 1000 + (int)v.i;
        default: return -9;
    }
}

// ---- objects
static struct { char kind; Array a; Dict d; Tiny_Arena r; int keys[512], nkeys; struct { unsigned char *p; size_t n; int fill; } *b; int nb, cb; } O[NOBJ];
static FILE *out;
static int first;

static int Spoilt(void) {
    int n = 0;
    for (int x = 0; x < NOBJ; ++x)
        if (O[x].kind == 'r')
            for (int i = 0; i < O[x].nb; ++i)
                for (size_t j = 0; j < O[x].b[i].n; ++j)
                    if (O[x].b[i].p[j] != (unsigned char)(O[x].b[i].fill + j * 7)) { ++n; break; }
    return n;
}

static void Op(char **w, int n) {
    const char *o = w[0];
    int x = n > 1 ? atoi(w[1]) : 0, i = n > 2 ? atoi(w[2]) : 0, v = n > 3 ? atoi(w[3]) : 0, r = NONE;
    Tiny_Context ctx = {Alloc, (void *)(intptr_t)x};
    fprintf(out, "%s{\"e\":\"op\",\"o\":\"%s\",\"x\":%d,\"i\":%d,\"v\":%d,\"vs\":[", first ? "" : ",", o, x, i, v);
    for (int j = 4; j < n; ++j) fprintf(out, "%s%s", j > 4 ? "," : "", w[j]);
    fprintf(out, "]");
    fflush(out);
    first = 0;
    Tiny_Value tv = {0};
    if (!strcmp(o, "ainit")) {
        Tiny_Value vs[256];
        for (int j = 4; j < n; ++j) vs[j - 4] = Val(atoi(w[j]));
        if (n > 4) InitArrayEx(&O[x].a, ctx, n - 4, vs); else InitArray(&O[x].a, ctx);
        O[x].kind = 'a';
    } else if (!strcmp(o, "apush")) ArrayPush(&O[x].a, Val(v));
    else if (!strcmp(o, "apop")) { ArrayPop(&O[x].a, &tv); r = UnVal(tv); }
    else if (!strcmp(o, "ashift")) { ArrayShift(&O[x].a, &tv); r = UnVal(tv); }
    else if (!strcmp(o, "ains")) ArrayInsert(&O[x].a, i, Val(v));
    else if (!strcmp(o, "adel")) ArrayRemove(&O[x].a, i);
    else if (!strcmp(o, "aset")) ArraySet(&O[x].a, i, Val(v));
    else if (!strcmp(o, "aput")) *ArrayGet(&O[x].a, i) = Val(v);
    else if (!strcmp(o, "aget")) r = UnVal(*ArrayGet(&O[x].a, i));
    else if (!strcmp(o, "asize")) ArrayResize(&O[x].a, i, Val(v));
    else if (!strcmp(o, "aclear")) ArrayClear(&O[x].a);
    else if (!strcmp(o, "afree")) { DestroyArray(&O[x].a); O[x].kind = 0; }
    else if (!strcmp(o, "dinit")) { InitDict(&O[x].d, ctx); O[x].kind = 'd'; O[x].nkeys = 0; }
    else if (!strcmp(o, "dset")) DictSet(&O[x].d, KeyOf(i), Val(v));
    else if (!strcmp(o, "dget")) { const Tiny_Value *p = DictGet(&O[x].d, KeyOf(i)); r = p ? UnVal(*p) : NONE; }
    else if (!strcmp(o, "ddel")) DictRemove(&O[x].d, KeyOf(i));
    else if (!strcmp(o, "dclear")) DictClear(&O[x].d);
    else if (!strcmp(o, "dfree")) { DestroyDict(&O[x].d); O[x].kind = 0; }
    else if (!strcmp(o, "rinit")) { Tiny_InitArena(&O[x].r, ctx); O[x].kind = 'r'; O[x].nb = 0; }
    else if (!strcmp(o, "ralloc")) {
        unsigned char *p = Tiny_ArenaAlloc(&O[x].r, i, v);
        int m = 0; long off = -1, cap = 0;
        for (int j = 0; j < memN; ++j)
            if (mem[j].own == x && p >= (unsigned char *)mem[j].p && p <= (unsigned char *)mem[j].p + mem[j].n) {
                m = mem[j].num; off = p - (unsigned char *)mem[j].p; cap = (long)mem[j].n;
                if (off < cap) break;
            }
        fprintf(out, ",\"m\":%d,\"off\":%ld,\"cap\":%ld,\"am\":%d", m, off, cap, (int)((uintptr_t)p % 4096));
        fflush(out);
        int fill = (O[x].nb * 31 + x * 5 + 1) & 255;
        if (O[x].nb == O[x].cb) O[x].b = realloc(O[x].b, (O[x].cb = O[x].cb ? 2 * O[x].cb : 64) * sizeof *O[x].b);
        O[x].b[O[x].nb].p = p; O[x].b[O[x].nb].n = i; O[x].b[O[x].nb].fill = fill;
        ++O[x].nb;
        for (int j = 0; j < i; ++j) p[j] = (unsigned char)(fill + j * 7);
    } else if (!strcmp(o, "rfree")) { O[x].kind = 0; Tiny_DestroyArena(&O[x].r); }
    else { fprintf(stderr, "unknown operation %s\n", o); exit(3); }
    fprintf(out, ",\"r\":%d,\"c\":[", r);
    if (O[x].kind == 'a')
        for (int j = 0, l = ArrayLen(&O[x].a); j < l; ++j) fprintf(out, "%s%d", j ? "," : "", UnVal(*ArrayGet(&O[x].a, j)));
    if (O[x].kind == 'd') {
        int any = 0;
        for (int j = 0, l = ArrayLen(&O[x].d.keys); j < l; ++j)
            if (!Tiny_IsNull(*ArrayGet(&O[x].d.keys, j))) {
                fprintf(out, "%s[%d,%d]", any ? "," : "", UnKey(*ArrayGet(&O[x].d.keys, j)), UnVal(*ArrayGet(&O[x].d.values, j)));
                any = 1;
            }
        if (o[0] == 'd' && o[1] != 'i' && o[1] != 'c') {
            int k = 0;
            while (k < O[x].nkeys && O[x].keys[k] != i) ++k;
            if (k == O[x].nkeys && k < 512) O[x].keys[O[x].nkeys++] = i;
        }
        fprintf(out, "],\"g\":[");
        for (int j = 0; j < O[x].nkeys; ++j) {
            const Tiny_Value *p = DictGet(&O[x].d, KeyOf(O[x].keys[j]));
            fprintf(out, "%s[%d,%d]", j ? "," : "", O[x].keys[j], p ? UnVal(*p) : NONE);
        }
    }
    fprintf(out, "],\"mem\":%d,\"bad\":%d,\"spoilt\":%d}", Outstanding(x), bad, Spoilt());
}

// pos HEX: the friendly position of every index of the text
static void Pos(const char *hex) {
    static char text[70000];
    int n = 0;
    for (; hex && hex[0] && hex[1]; hex += 2) { unsigned c; sscanf(hex, "%2x", &c); text[n++] = (char)c; }
    text[n] = 0;
    char *t = malloc(n + 1);  // so that reading behind it is noticed
    memcpy(t, text, n + 1);
    fprintf(out, "%s{\"e\":\"pos\",\"t\":[", first ? "" : ",");
    first = 0;
    for (int i = 0; i < n; ++i) fprintf(out, "%s%d", i ? "," : "", (unsigned char)t[i]);
    fprintf(out, "],\"p\":[");
    fflush(out);
    for (int i = 0; i < n; ++i) {
        Tiny_FriendlyPos p = Tiny_PosToFriendlyPos((Tiny_Pos){i}, t, n);
        fprintf(out, "%s[%u,%u]", i ? "," : "", p.lineIndex, p.charIndex);
    }
    fprintf(out, "],\"l\":[");
    for (int i = 0; i <= n; ++i) fprintf(out, "%s%d", i ? "," : "", Tiny_TranslatePosToLineNumber(t, i));
    fprintf(out, "]}");
    free(t);
}

int main(int argc, char **argv) {
    FILE *in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    for (int s = 0; s < 2; ++s) for (int i = 0; i < 110; ++i) sprintf(strs[s][i], "k%d", i);
    static char line[200000];
    char *w[300];
    while (fgets(line, sizeof line, in)) {
        int n = 0;
        for (char *p = strtok(line, " \n"); p && n < 300; p = strtok(NULL, " \n")) w[n++] = p;
        if (!n) continue;
        if (!strcmp(w[0], "case")) { fprintf(out, "{\"id\":\"%s\",\"ev\":[", w[1]); first = 1; bad = 0; }
        else if (!strcmp(w[0], "end")) {
            fprintf(out, "]}\n");
            fflush(out);
            for (int x = 0; x < NOBJ; ++x) {  // whatever a case leaves
                if (O[x].kind == 'a') DestroyArray(&O[x].a);
                if (O[x].kind == 'd') DestroyDict(&O[x].d);
                if (O[x].kind == 'r') Tiny_DestroyArena(&O[x].r);
                O[x].kind = 0;
            }
        } else if (!strcmp(w[0], "pos")) Pos(n > 1 ? w[1] : "");
        else Op(w, n);
    }
    fclose(out);
    return 0;
}
