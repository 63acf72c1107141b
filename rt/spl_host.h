/* the two library functions of SPL, for the reference compilation of an SPL program as C++ */
#include <stdio.h>
#include <stdlib.h>
static int spl_read_() { int x; if (scanf("%d", &x) != 1) exit(97); return x; }
static void spl_write_(int x) { printf("%d\n", x); }
#define read spl_read_
#define write spl_write_
