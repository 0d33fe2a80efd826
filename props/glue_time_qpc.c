/* cflags: -I{V}/pstub -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for Windows on ARM. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#include <pthread.h>
#define jent_get_nstime gz_qpc
#undef __x86_64__
#undef __linux__
#define __MINGW32__ 1
#define _M_ARM64 1
#include "arch/jitterentropy-arch-timer.c"
int gz_qpc_ok(void) { return 1; }
#else
int gz_qpc_ok(void) { return 0; }
void gz_qpc(uint64_t *t) { *t = 0; }
#endif
