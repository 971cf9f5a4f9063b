/* hp: drives the engine's allocator from a script, several heaps in turn.
 * usage: hp HEAPS SCRIPT OUT
 *   a H S N   heap H allocates N bytes into slot S
 *   f H S     heap H frees slot S
 *   r H S N   heap H reallocates slot S to N bytes
 *   b         main lends to the others (before a run)
 *   m         main takes everything back (after a run)
 *   g         main returns unused pools to the system
 *   s         memory of main: what it maps and what of that is free
 * Each line records the address and whether the contents of every slot are what was written there. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/rayforce.h"
#include "core/heap.h"
#include "core/eval.h"
#define MAXS 4096
static struct { unsigned char *p; i64_t n; int touched; unsigned char pat; } sl[MAXS];
/* what is written and looked at: all of a small block; both ends and around each power of two of a large one
 * (headers are written where a block would be split); the first len bytes only */
static i64_t visit(int s, i64_t len, int write) {
    unsigned char *p = sl[s].p, c = sl[s].pat;
    i64_t n = sl[s].n, b = 0, o, e, k;
    if (n <= 2048) { for (o = 0; o < len; o++) if (write) p[o] = c; else b |= p[o] != c; return b; }
    for (k = 5; (1ll << k) - 64 < n; k++)
        for (o = (1ll << k) - 32, e = o + 64; o < e && o < len; o++) if (write) p[o] = c; else b |= p[o] != c;
    for (o = 0; o < 64 && o < len; o++) if (write) p[o] = c; else b |= p[o] != c;
    for (o = n - 64; o < n && o < len; o++) if (write) p[o] = c; else b |= p[o] != c;
    return b;
}
static void paint(int s) { visit(s, sl[s].n, 1); }
static i64_t damaged(int s, i64_t n) { return visit(s, n, 0); }
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    int nh = atoi(argv[1]), i = 0, h, s;
    long long n;
    vm_p vm[16];
    for (h = nh - 1; h >= 0; h--) vm[h] = vm_create(h, NULL);
    FILE *f = fopen(argv[2], "r"), *out = fopen(argv[3], "w");
    if (!f || !out) return 2;
    char line[256];
    unsigned char pat = 1;
    while (fgets(line, sizeof(line), f)) {
        unsigned char *p = NULL;
        i64_t keep = 1;
        h = s = 0; n = 0;
        char op = line[0];
        sscanf(line + 1, "%d %d %lld", &h, &s, &n);
        __VM = vm[h];
        if (op == 'a') {
            p = heap_alloc(n);
            if (p) { sl[s].p = p; sl[s].n = n; sl[s].pat = pat = pat % 251 + 1; paint(s); }
        } else if (op == 'f') {
            heap_free(sl[s].p); sl[s].p = NULL;
        } else if (op == 'r') {
            p = heap_realloc(sl[s].p, n);
            if (p) { sl[s].p = p; keep = !damaged(s, n < sl[s].n ? n : sl[s].n); sl[s].n = n; sl[s].pat = pat = pat % 251 + 1; paint(s); }
            else sl[s].p = NULL;
        } else if (op == 'b') { __VM = vm[0]; for (h = 1; h < nh; h++) heap_borrow(vm[h]->heap);
        } else if (op == 'm') { __VM = vm[0]; for (h = 1; h < nh; h++) heap_merge(vm[h]->heap);
        } else if (op == 'g') { __VM = vm[0]; heap_gc();
        }
        fprintf(out, "{\"i\":%d,\"p\":%llu,\"keep\":%s,\"bad\":[", i++, (unsigned long long)p, keep ? "true" : "false");
        int first = 1;
        for (int k = 0; k < MAXS; k++)
            if (sl[k].p && damaged(k, sl[k].n)) { fprintf(out, "%s%d", first ? "" : ",", k); first = 0; paint(k); }
        fprintf(out, "]");
        if (op == 's') { __VM = vm[0]; memstat_t m = heap_memstat(); fprintf(out, ",\"heap\":%lld,\"free\":%lld", (long long)m.heap, (long long)m.free); }
        fprintf(out, "}\n");
        fflush(out);
    }
    fprintf(out, "{\"end\":1}\n");
    fclose(out);
    return 0;
}
