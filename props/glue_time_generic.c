/* cflags:  -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for systems without a counter instruction. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#include <time.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
int gz_clock_gettime(clockid_t, struct timespec *);
#define clock_gettime gz_clock_gettime
#define jent_get_nstime gz_generic
#undef __x86_64__
#undef __linux__
#include "arch/jitterentropy-arch-timer.c"
int gz_generic_ok(void) { return 1; }
#else
int gz_generic_ok(void) { return 0; }
void gz_generic(uint64_t *t) { *t = 0; }
#endif
