/* plx: pl with core/pool.c compiled on its own, switched at every load and store too (see build.py) */
#define PLX
#include "pl.c"
