/* tm: the engine's event loop under a clock and input of the script's making.
 * usage: tm SCRIPT OUT
 *   Q expr   evaluated before the loop runs
 *   E expr   evaluated when the loop waits
 *   A ms     the wait ends, that many milliseconds later
 * The end of SCRIPT ends the loop. At each wait the global `log` and what the loop asked to wait for are recorded. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/poll.h"
#include "core/eval.h"
static long long now = 1000000000LL;
static FILE *f, *out;
static int on;
static char *line;
static size_t cap;
int clock_gettime(clockid_t c, struct timespec *ts) {
    (void)c;
    ts->tv_sec = now / 1000;
    ts->tv_nsec = now % 1000 * 1000000;
    return 0;
}
static int next(void) {
    ssize_t n = getline(&line, &cap, f);
    while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
    return n > 0;
}
static void dump(void) {
    obj_p l = eval_str("log");
    fprintf(out, "{\"k\":\"log\",\"v\":[");
    if (l->type == TYPE_I64) for (i64_t i = 0; i < l->len; i++) fprintf(out, "%s%lld", i ? "," : "", (long long)AS_I64(l)[i]);
    fprintf(out, "]}\n");
    drop_obj(l);
    drop_obj(eval_str("(set log (take [0] 0))"));
}
int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout) {
    (void)fd; (void)ev; (void)max;
    if (!on) return 0;
    dump();
    fprintf(out, "{\"k\":\"wait\",\"timeout\":%d,\"now\":%lld}\n", timeout, now);
    fflush(out);
    while (next()) {
        if (line[0] == 'E') drop_obj(eval_str(line + 2));
        else if (line[0] == 'A') {
            dump();
            now += atoll(line + 2);
            fprintf(out, "{\"k\":\"adv\"}\n");
            return 0;
        }
    }
    dump();
    fprintf(out, "{\"k\":\"end\"}\n");
    fflush(out);
    runtime_get()->poll->code = 0;
    return 0;
}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    f = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    if (!f || !out) return 2;
    char *av[4] = {"rayforce", "-c", "1", NULL};
    if (runtime_create(3, av) == NULL) return 2;
    long at;
    for (at = 0; next() && line[0] == 'Q'; at = ftell(f)) drop_obj(eval_str(line + 2));
    fseek(f, at, SEEK_SET);
    on = 1;
    int rc = runtime_run();
    fclose(out);
    _exit(rc & 255);
}
