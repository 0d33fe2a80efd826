/* cflags: -D_GNU_SOURCE -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for x86. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#define jent_get_nstime gz_x86
#include "arch/jitterentropy-arch-timer.c"
int gz_x86_ok(void) { return 1; }
#else
int gz_x86_ok(void) { return 0; }
void gz_x86(uint64_t *t) { *t = 0; }
#endif
