/* cflags: -I{V}/kstub -DLINUX_KERNEL -UJENT_CONF_ENABLE_INTERNAL_TIMER -UJENT_CONF_ENABLE_MOCK_TIMER */
/* The time stamp as built for the Linux kernel on an architecture without counter instruction. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#ifndef GLUE_STUB
#include <linux/kernel.h>
uint64_t gz_entropy(void), gz_ktime(void);
#define random_get_entropy gz_entropy
#define ktime_get_ns gz_ktime
#define jent_get_nstime gz_kern
#undef __x86_64__
#include "arch/jitterentropy-arch-timer.c"
int gz_kern_ok(void) { return 1; }
#else
int gz_kern_ok(void) { return 0; }
void gz_kern(uint64_t *t) { *t = 0; }
#endif
