/* cflags: -I{V}/pstub/apple -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for old macOS. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#include <time.h>
#include <pthread.h>
#define jent_get_nstime gz_mach
#undef __x86_64__
#undef __linux__
#define __MACH__ 1
#include "arch/jitterentropy-arch-timer.c"
int gz_mach_ok(void) { return 1; }
#else
int gz_mach_ok(void) { return 0; }
void gz_mach(uint64_t *t) { *t = 0; }
#endif
