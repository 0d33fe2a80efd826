/* cflags: -I{V}/kstub -DLINUX_KERNEL -DCONFIG_X86 */
/* The cache discovery as built for the Linux kernel on x86. */
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_cache_size_roundup gc_x86
#include "arch/jitterentropy-arch-cache.c"
int gc_x86_ok(void) { return 1; }
#else
int gc_x86_ok(void) { return 0; }
uint32_t gc_x86(int all) { return 0; }
#endif
