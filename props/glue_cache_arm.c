/* cflags: -I{V}/kstub -DLINUX_KERNEL -DCONFIG_ARM64 */
/* The cache discovery as built for the Linux kernel on arm64. */
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_cache_size_roundup gc_arm
#include "arch/jitterentropy-arch-cache.c"
int gc_arm_ok(void) { return 1; }
#else
int gc_arm_ok(void) { return 0; }
uint32_t gc_arm(int all) { return 0; }
#endif
