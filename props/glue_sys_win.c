/* cflags: -I{V}/pstub -U__linux__ -D__MINGW32__ */
/* Questions to the system as built for Windows. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_fips_enabled gy_win_fips
#define jent_ncpu gy_win_ncpu
#define jent_cpu_highest gy_win_highest
#define jent_os_random_supported gy_win_rndsup
#define jent_os_random_bytes gy_win_random

#include "arch/jitterentropy-arch-fips.c"
#include "arch/jitterentropy-arch-ncpu.c"
#include "arch/jitterentropy-arch-random.c"
int gy_win_ok(void) { return 1; }
#else
int gy_win_ok(void) { return 0; }
int gy_win_fips(void) { return 0; }
long gy_win_ncpu(void) { return 0; }
long gy_win_highest(void) { return 0; }
int gy_win_rndsup(void) { return 0; }
int gy_win_random(uint8_t *b, size_t n) { return 0; }
#endif
