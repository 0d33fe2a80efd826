/* cflags: -I{V}/kstub -DLINUX_KERNEL -DCONFIG_X86 -UJENT_CONF_ENABLE_INTERNAL_TIMER */
/* Questions to the system as built for the Linux kernel. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_kern_fips
#define jent_ncpu gy_kern_ncpu
#define jent_cpu_highest gy_kern_highest
#define jent_os_random_supported gy_kern_rndsup
#define jent_os_random_bytes gy_kern_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_kern_ok(void) { return 1; }
#else
int gy_kern_ok(void) { return 0; }
int gy_kern_fips(void) { return 0; }
long gy_kern_ncpu(void) { return 0; }
long gy_kern_highest(void) { return 0; }
int gy_kern_rndsup(void) { return 0; }
int gy_kern_random(uint8_t *b, size_t n) { return 0; }
#endif
