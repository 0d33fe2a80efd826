/* cflags: -I{V}/pstub -U__linux__ -D_AIX */
/* The cache discovery as built for AIX. */
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_cache_size_roundup gc_aix
#include "arch/jitterentropy-arch-cache.c"
int gc_aix_ok(void) { return 1; }
#else
int gc_aix_ok(void) { return 0; }
uint32_t gc_aix(int all) { return 0; }
#endif
