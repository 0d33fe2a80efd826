/* cflags: -I{V}/pstub -U__linux__ -D__APPLE__ */
/* Questions to the system as built for macOS and the BSDs. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_apple_fips
#define jent_ncpu gy_apple_ncpu
#define jent_cpu_highest gy_apple_highest
#define jent_os_random_supported gy_apple_rndsup
#define jent_os_random_bytes gy_apple_random
void ps_arc4random_buf(void *, size_t);
#define arc4random_buf ps_arc4random_buf
#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_apple_ok(void) { return 1; }
#else
int gy_apple_ok(void) { return 0; }
int gy_apple_fips(void) { return 0; }
long gy_apple_ncpu(void) { return 0; }
long gy_apple_highest(void) { return 0; }
int gy_apple_rndsup(void) { return 0; }
int gy_apple_random(uint8_t *b, size_t n) { return 0; }
#endif
