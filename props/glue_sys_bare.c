/* cflags: -I{V}/pstub -DJENT_BAREMETAL */
/* Questions to the system as built for targets without an operating system. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_bare_fips
#define jent_ncpu gy_bare_ncpu
#define jent_cpu_highest gy_bare_highest
#define jent_os_random_supported gy_bare_rndsup
#define jent_os_random_bytes gy_bare_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_bare_ok(void) { return 1; }
#else
int gy_bare_ok(void) { return 0; }
int gy_bare_fips(void) { return 0; }
long gy_bare_ncpu(void) { return 0; }
long gy_bare_highest(void) { return 0; }
int gy_bare_rndsup(void) { return 0; }
int gy_bare_random(uint8_t *b, size_t n) { return 0; }
#endif
