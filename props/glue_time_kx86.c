/* cflags: -I{V}/kstub -DLINUX_KERNEL -UJENT_CONF_ENABLE_INTERNAL_TIMER -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for the Linux kernel on x86. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#define jent_get_nstime gz_kx86
#include "arch/jitterentropy-arch-timer.c"
int gz_kx86_ok(void) { return 1; }
#else
int gz_kx86_ok(void) { return 0; }
void gz_kx86(uint64_t *t) { *t = 0; }
#endif
