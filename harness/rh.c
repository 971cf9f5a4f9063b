/* rh: drives the real engine from a script and records what it observes.
 *
 * usage: rh [-c CORES] SCRIPT OUT
 * script lines:
 *   E <expr>      evaluate, record {"i":n,"r":VALUE}
 *   D <n1> <n2>.. record {"i":n,"d":{"n1":VALUE,...}} (globals; {"t":"UNDEF"} when unbound)
 *   M             record memory statistics
 *   Q <expr>      evaluate, record nothing
 *   R <n> <expr>  the same n times
 * Every record is flushed at once, so a crash leaves what came before it.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/ops.h"
#include "core/env.h"
#include "core/error.h"
#include "core/eval.h"
#include "core/heap.h"
#include "core/pool.h"
#include "core/util.h"
#include "core/symbols.h"
#include "core/unary.h"
#include "core/binary.h"
#include "core/vary.h"
#include "core/items.h"
#include "core/compose.h"

#include "json.h"

static FILE *out;

/* what the worker threads' heaps (idle now) have mapped and have free */
static nil_t workers_mem(memstat_t *m) {
    pool_p pool = runtime_get()->pool;
    i64_t i, j;
    block_p b;
    if (pool == NULL)
        return;
    for (i = 1; i < pool->executors_count; i++) {
        heap_p h = pool->executors[i].heap;
        m->heap += h->memstat.heap;
        m->system += h->memstat.system;
        for (j = MIN_BLOCK_ORDER; j <= MAX_POOL_ORDER; j++)
            for (b = h->freelist[j]; b; b = b->next)
                m->free += 1ll << j;
        for (j = 0; j < SLAB_ORDERS; j++)
            m->free += h->slabs[j].count << (MIN_BLOCK_ORDER + j);
        for (b = h->foreign_blocks; b; b = b->next)
            m->free += 1ll << b->order;
    }
}

static nil_t ensure_tty_noise_off(nil_t) {}

int main(int argc, char **argv) {
    char *cores = NULL, *script = NULL, *outp = NULL;
    int i;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-c"))
            cores = argv[++i];
        else if (!script)
            script = argv[i];
        else
            outp = argv[i];
    }
    if (!script || !outp)
        return 2;
    FILE *f = fopen(script, "r");
    if (!f)
        return 2;
    out = fopen(outp, "w");
    if (!out)
        return 2;
    char *av[4] = {"rayforce", "-c", cores ? cores : "1", NULL};
    if (runtime_create(3, av) == NULL)
        return 2;
    ensure_tty_noise_off();
    js_plain = getenv("RH_PLAIN") != NULL;
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    long id = 0;
    while ((n = getline(&line, &cap, f)) > 0) {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r'))
            line[--n] = 0;
        if (n == 0)
            continue;
        id++;
        switch (line[0]) {
            case 'E': {
                obj_p r = eval_str(line + 2);
                fprintf(out, "{\"i\":%ld,\"r\":", id);
                js_obj(out, r);
                fprintf(out, "}\n");
                drop_obj(r);
                break;
            }
            case 'Q':
                drop_obj(eval_str(line + 2));
                break;
            case 'D': {
                fprintf(out, "{\"i\":%ld,\"d\":{", id);
                char *sp = line + 2, *tok, *save = NULL;
                int first = 1;
                for (tok = strtok_r(sp, " ", &save); tok; tok = strtok_r(NULL, " ", &save)) {
                    obj_p k = symbol(tok, strlen(tok));
                    obj_p *v = resolve(k->i64);
                    fprintf(out, "%s\"%s\":", first ? "" : ",", tok);
                    first = 0;
                    if (v == NULL)
                        fprintf(out, "{\"t\":\"UNDEF\"}");
                    else
                        js_obj(out, *v);
                    drop_obj(k);
                }
                fprintf(out, "}}\n");
                break;
            }
            case 'R': {
                char *e = line + 2;
                long k = strtol(e, &e, 10);
                while (k-- > 0)
                    drop_obj(eval_str(e + 1));
                break;
            }
            case 'M': {
                obj_p a = eval_str("(gc)");
                drop_obj(a);
                memstat_t m = heap_memstat();
                workers_mem(&m);
                fprintf(out, "{\"i\":%ld,\"m\":{\"sys\":%lld,\"heap\":%lld,\"free\":%lld}}\n", id, m.system, m.heap,
                        m.free);
                break;
            }
        }
        fflush(out);
    }
    fprintf(out, "{\"i\":%ld,\"end\":1}\n", id + 1);
    fflush(out);
    _exit(0);
}
