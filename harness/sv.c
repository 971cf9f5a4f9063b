/* sv: the engine serving a port, as `rayforce -p PORT` at a terminal does, without the terminal.
 * usage: sv PORT CORES [SCRIPT]   each line of SCRIPT is evaluated before serving */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "core/rayforce.h"
#include "core/runtime.h"
#include "core/eval.h"
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    char *av[6] = {"rayforce", "-p", argv[1], "-c", argv[2], NULL};
    if (runtime_create(5, av) == NULL) return 2;
    FILE *f = argc > 3 ? fopen(argv[3], "r") : NULL;
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    while (f && (n = getline(&line, &cap, f)) > 0) {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
        if (n) drop_obj(eval_str(line));
    }
    int rc = runtime_run();
    fflush(stdout);
    _exit(rc & 255);
}
