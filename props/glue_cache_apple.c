/* cflags: -I{V}/pstub -U__linux__ -D__APPLE__ */
/* The cache discovery as built for macOS. */
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_cache_size_roundup gc_apple
#include "arch/jitterentropy-arch-cache.c"
int gc_apple_ok(void) { return 1; }
#else
int gc_apple_ok(void) { return 0; }
uint32_t gc_apple(int all) { return 0; }
#endif
