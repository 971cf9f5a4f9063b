/* pl: runs core/pool.c under a deterministic scheduler.
 * usage: pl THREADS PROGRAM OUT
 *   first line of PROGRAM: SEED PERMILLE THREAD*   the schedule: at each scheduling point the next listed thread
 *       goes on (when it can); after the list, seeded choices that switch with the given frequency
 *   r N E*      a run of N tasks of which those listed fail
 *   d           destroy the pool
 * Records what is observable: tasks executed, results of runs, whether a run or the destruction never returns. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <semaphore.h>
#include <sys/mman.h>
#include "plhook.h"
#include "core/rayforce.h"
#include "core/thread.h"
#ifndef PLX
#define __atomic_load_n(...) (vh_yield(), __atomic_load_n(__VA_ARGS__))
#define __atomic_store_n(...) do { vh_yield(); __atomic_store_n(__VA_ARGS__); } while (0)
#define __atomic_compare_exchange_n(...) (vh_yield(), __atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_fetch_add(...) (vh_yield(), __atomic_fetch_add(__VA_ARGS__))
#define __atomic_add_fetch(...) (vh_yield(), __atomic_add_fetch(__VA_ARGS__))
#define __atomic_exchange_n(...) (vh_yield(), __atomic_exchange_n(__VA_ARGS__))
void vh_yield(void);
#include "core/pool.c"
#undef __atomic_load_n
#undef __atomic_store_n
#undef __atomic_compare_exchange_n
#else
#include "core/pool.h"
#include "core/error.h"
#endif

#include "plsched.h"
#ifdef PLX
#include "cov.h"
#define STEPS 40
#else
#define STEPS 1
#endif

static char fails[1 << 16];
static obj_p task(raw_p id, raw_p x, raw_p k) {
    i64_t i = (i64_t)id;
    obj_p o = (obj_p)x;
    fprintf(out, "{\"k\":\"exec\",\"id\":%lld}\n", (long long)i);
    vh_yield();
    i64_t v = o->i64;
    drop_obj(o);
    obj_p tmp = LIST(2);
    vh_yield();
    AS_LIST(tmp)[0] = i64(v); AS_LIST(tmp)[1] = i64(i);
    drop_obj(tmp);
    vh_yield();
    return fails[i] ? err_limit((i32_t)(i64_t)k) : i64(v * 1000000 + i);
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    int n = atoi(argv[1]), runno = 0;
    static char line[1 << 20];
    FILE *f = fopen(argv[2], "r");
    out = fopen(argv[3], "w");
    if (!f || !out || n > 16) return 2;
    if (!fgets(line, sizeof(line), f)) return 2;
    char *p = line;
    rs = strtoull(p, &p, 10) * 2654435761u + 88172645463325252ull;
    permille = strtol(p, &p, 10);
    sched = malloc(sizeof(int) * (sizeof(line) / 2));
    for (;;) { char *q; long v = strtol(p, &q, 10); if (q == p) break; sched[nsched++] = (int)v; p = q; }
    me = 0; nth = 1; th[0].st = READY; sem_init(&th[0].go, 0, 0);
    pool_p pool = pool_create(n);
    while (fgets(line, sizeof(line), f)) {
        p = line + 1;
        if (line[0] == 'r') {
            long cnt = strtol(p, &p, 10), i;
            memset(fails, 0, sizeof(fails));
            for (;;) { char *q; long v = strtol(p, &q, 10); if (q == p) break; fails[v] = 1; p = q; }
            runno++; limit += STEPS * 400ll * (cnt + n);
            obj_p x = i64(runno);
            for (i = 0; i < cnt; i++) clone_obj(x);
            fprintf(out, "{\"k\":\"prep\",\"id\":%ld}\n", cnt);
            pool_prepare(pool);
            for (i = 0; i < cnt; i++) pool_add_task(pool, (raw_p)task, 3, (raw_p)i, (raw_p)x, (raw_p)(i64_t)runno);
            fprintf(out, "{\"k\":\"run\",\"id\":%d}\n", runno);
            obj_p r = pool_run(pool);
            nest++;
            if (IS_ERR(r)) fprintf(out, "{\"k\":\"err\",\"id\":0,\"rc\":%d}\n", x->rc);
            else {
                fprintf(out, "{\"k\":\"res\",\"rc\":%d,\"id\":%d,\"v\":[", x->rc, r->type == TYPE_LIST);
                for (i = 0; i < r->len; i++) { obj_p e = AS_LIST(r)[i]; fprintf(out, "%s%lld", i ? "," : "", e && e->type == -TYPE_I64 ? (long long)e->i64 : -1ll); }
                fprintf(out, "]}\n");
            }
            drop_obj(r); drop_obj(x);
            nest--;
        } else if (line[0] == 'd') {
            pool_destroy(pool);
            fprintf(out, "{\"k\":\"gone\",\"id\":0}\n");
        }
        fflush(out);
    }
    fprintf(out, "{\"k\":\"end\",\"id\":%lld}\n", steps);
    fclose(out);
    _exit(0);
}
