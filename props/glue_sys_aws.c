/* cflags: -I{V}/pstub -D_GNU_SOURCE -DAWSLC */
/* Questions to the system as built for AWS-LC. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_aws_fips
#define jent_ncpu gy_aws_ncpu
#define jent_cpu_highest gy_aws_highest
#define jent_os_random_supported gy_aws_rndsup
#define jent_os_random_bytes gy_aws_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_aws_ok(void) { return 1; }
#else
int gy_aws_ok(void) { return 0; }
int gy_aws_fips(void) { return 0; }
long gy_aws_ncpu(void) { return 0; }
long gy_aws_highest(void) { return 0; }
int gy_aws_rndsup(void) { return 0; }
int gy_aws_random(uint8_t *b, size_t n) { return 0; }
#endif
