/* cflags: -I{V}/pstub -D_GNU_SOURCE -DOPENSSL */
/* Questions to the system as built for OpenSSL. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_ossl_fips
#define jent_ncpu gy_ossl_ncpu
#define jent_cpu_highest gy_ossl_highest
#define jent_os_random_supported gy_ossl_rndsup
#define jent_os_random_bytes gy_ossl_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_ossl_ok(void) { return 1; }
#else
int gy_ossl_ok(void) { return 0; }
int gy_ossl_fips(void) { return 0; }
long gy_ossl_ncpu(void) { return 0; }
long gy_ossl_highest(void) { return 0; }
int gy_ossl_rndsup(void) { return 0; }
int gy_ossl_random(uint8_t *b, size_t n) { return 0; }
#endif
