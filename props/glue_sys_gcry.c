/* cflags: -I{V}/pstub -D_GNU_SOURCE -DLIBGCRYPT */
/* Questions to the system as built for libgcrypt. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_gcry_fips
#define jent_ncpu gy_gcry_ncpu
#define jent_cpu_highest gy_gcry_highest
#define jent_os_random_supported gy_gcry_rndsup
#define jent_os_random_bytes gy_gcry_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_gcry_ok(void) { return 1; }
#else
int gy_gcry_ok(void) { return 0; }
int gy_gcry_fips(void) { return 0; }
long gy_gcry_ncpu(void) { return 0; }
long gy_gcry_highest(void) { return 0; }
int gy_gcry_rndsup(void) { return 0; }
int gy_gcry_random(uint8_t *b, size_t n) { return 0; }
#endif
