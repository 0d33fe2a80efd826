/* cflags: -I{V}/pstub -U__linux__ */
/* Questions to the system as built for other Unix systems. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_unix_fips
#define jent_ncpu gy_unix_ncpu
#define jent_cpu_highest gy_unix_highest
#define jent_os_random_supported gy_unix_rndsup
#define jent_os_random_bytes gy_unix_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_unix_ok(void) { return 1; }
#else
int gy_unix_ok(void) { return 0; }
int gy_unix_fips(void) { return 0; }
long gy_unix_ncpu(void) { return 0; }
long gy_unix_highest(void) { return 0; }
int gy_unix_rndsup(void) { return 0; }
int gy_unix_random(uint8_t *b, size_t n) { return 0; }
#endif
