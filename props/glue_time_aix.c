/* cflags: -I{V}/pstub/aix -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for AIX with its own compiler. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#include <pthread.h>
#include <sys/time.h>
#include <stdlib.h>
#define jent_get_nstime gz_aix
#undef __x86_64__
#undef __linux__
#undef __GNUC__
#undef __clang__
#define _AIX 1
#include "arch/jitterentropy-arch-timer.c"
int gz_aix_ok(void) { return 1; }
#else
int gz_aix_ok(void) { return 0; }
void gz_aix(uint64_t *t) { *t = 0; }
#endif
