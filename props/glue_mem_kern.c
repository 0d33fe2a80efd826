/* cflags: -I{V}/kstub -DLINUX_KERNEL -DCONFIG_X86 */
/* The memory backend as built for the Linux kernel. */
#include <stddef.h>
#include <stdlib.h>
#ifndef GLUE_STUB
#define jent_zalloc gm_kern_zalloc
#define jent_zfree gm_kern_zfree
#define jent_memset_secure gm_kern_wipe
#define jent_memory_is_secure gm_kern_secure
#define jent_secure_memory_supported gm_kern_supported

#include "arch/jitterentropy-arch-memory.c"
int gm_kern_ok(void) { return 1; }
#else
int gm_kern_ok(void) { return 0; }
void *gm_kern_zalloc(size_t n, unsigned f) { return 0; }
void gm_kern_zfree(void *p, size_t n) {}
int gm_kern_secure(unsigned f) { return 0; }
int gm_kern_supported(void) { return 0; }
#endif
