/* cflags: -I{V}/pstub -DJENT_BAREMETAL */
/* The cache discovery as built for x86 systems without an interface of their own. */
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_cache_size_roundup gc_bare
#include "arch/jitterentropy-arch-cache.c"
int gc_bare_ok(void) { return 1; }
#else
int gc_bare_ok(void) { return 0; }
uint32_t gc_bare(int all) { return 0; }
#endif
