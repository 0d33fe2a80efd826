/* cflags: -I{V}/pstub -D__MINGW32__ */
/* The cache discovery as built for Windows. */
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_cache_size_roundup gc_win
#include "arch/jitterentropy-arch-cache.c"
int gc_win_ok(void) { return 1; }
#else
int gc_win_ok(void) { return 0; }
uint32_t gc_win(int all) { return 0; }
#endif
