/* sy: several threads intern texts in one symbol table (core/symbols.c), under a deterministic scheduler.
 * usage: sy THREADS PROGRAM OUT
 *   first line of PROGRAM: SEED PERMILLE THREAD*   as for pl
 *   second line: the number of chains in the table
 *   t K TEXT    thread K interns TEXT (an empty text is allowed)
 *   p K         thread K asks for the names of all symbols it has so far
 *   g           run what the threads have to do, concurrently; then the symbols are counted and named
 * Records, for every text interned, the symbol, and the name and length the table gives for it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <semaphore.h>
#include <sys/mman.h>
#include "plhook.h"
#include "core/rayforce.h"
#include "core/thread.h"
#include "core/runtime.h"
#include "core/symbols.h"
#include "core/eval.h"
#include "plsched.h"

#include "cov.h"

struct op { int probe; char *text; };
static struct op *ops[MAXT]; static int nops[MAXT];
static i64_t *got[MAXT]; static int ngot[MAXT];
static sem_t ready[MAXT], go[MAXT];
static int nthr;

static void name_of(const char *k, int t, const char *w, i64_t id) {
    nest++;
    fprintf(out, "{\"k\":\"%s\",\"t\":%d,\"w\":\"%s\",\"id\":%lld", k, t, w, id == NULL_I64 ? -1ll : (long long)id);
    if (id != NULL_I64 && (id < 0 || id > 1000000)) fprintf(out, ",\"name\":\"?\",\"len\":-1}\n");
    else {
        str_p s = str_from_symbol(id);
        fprintf(out, ",\"name\":\"%s\",\"len\":%lld}\n", s ? s : "?", s ? (long long)symbol_strlen(id) : -1ll);
    }
    fflush(out);
    nest--;
}
static raw_p work(raw_p a) {
    int t = (int)(long)a, i, j;
    nest++; vm_create(t, NULL); nest--;
    for (i = 0; i < nops[t]; i++) {
        struct op *o = &ops[t][i];
        if (o->probe) for (j = 0; j < ngot[t]; j++) name_of("name", t, "", got[t][j]);
        else {
            i64_t id = symbols_intern(o->text, (i64_t)strlen(o->text));
            name_of("sym", t, o->text, id);
            got[t][ngot[t]++] = id;
        }
    }
    return NULL;
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    int n = nthr = atoi(argv[1]), t, i;
    static char line[1 << 20];
    FILE *f = fopen(argv[2], "r");
    out = fopen(argv[3], "w");
    if (!f || !out || n > 15 || !fgets(line, sizeof(line), f)) return 2;
    char *p = line;
    rs = strtoull(p, &p, 10) * 2654435761u + 88172645463325252ull;
    permille = strtol(p, &p, 10);
    sched = malloc(sizeof(int) * (sizeof(line) / 2));
    for (;;) { char *q; long v = strtol(p, &q, 10); if (q == p) break; sched[nsched++] = (int)v; p = q; }
    me = 0; nth = 1; th[0].st = READY; sem_init(&th[0].go, 0, 0);
    limit = 40000000;
    vm_create(0, NULL);
    __RUNTIME = calloc(1, sizeof(*__RUNTIME));
    __RUNTIME->symbols = symbols_create();
    if (!fgets(line, sizeof(line), f)) return 2;
    __RUNTIME->symbols->size = atol(line);
    while (fgets(line, sizeof(line), f)) {
        line[strcspn(line, "\n")] = 0;
        if (line[0] == 't' || line[0] == 'p') {
            t = (int)strtol(line + 1, &p, 10);
            ops[t] = realloc(ops[t], sizeof(struct op) * (nops[t] + 1));
            got[t] = realloc(got[t], sizeof(i64_t) * (nops[t] + 1 + 100000));
            ops[t][nops[t]].probe = line[0] == 'p';
            ops[t][nops[t]++].text = strdup(*p ? p + 1 : p);
        } else if (line[0] == 'g') {
            ray_thread_t h[MAXT];
            nest++;
            for (t = 0; t < n; t++) h[t] = vh_thread_create(work, (raw_p)(long)(t + 1 <= n ? t + 1 : t));
            nest--;
            for (t = 0; t < n; t++) vh_thread_join(h[t]);
            i64_t c = symbols_count(__RUNTIME->symbols);
            fprintf(out, "{\"k\":\"count\",\"id\":%lld}\n", (long long)c);
            for (i = 0; i < c && i < 100000; i++) name_of("name", 0, "", i);
            break;
        }
    }
    fprintf(out, "{\"k\":\"end\",\"id\":0}\n");
    fclose(out);
    _exit(0);
}
