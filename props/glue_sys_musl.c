/* cflags: -D_GNU_SOURCE */
/* Questions to the system as built for Linux with another C library. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_musl_fips
#define jent_ncpu gy_musl_ncpu
#define jent_cpu_highest gy_musl_highest
#define jent_os_random_supported gy_musl_rndsup
#define jent_os_random_bytes gy_musl_random
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/random.h>
#undef __GLIBC__
#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_musl_ok(void) { return 1; }
#else
int gy_musl_ok(void) { return 0; }
int gy_musl_fips(void) { return 0; }
long gy_musl_ncpu(void) { return 0; }
long gy_musl_highest(void) { return 0; }
int gy_musl_rndsup(void) { return 0; }
int gy_musl_random(uint8_t *b, size_t n) { return 0; }
#endif
