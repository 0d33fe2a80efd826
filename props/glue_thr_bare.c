/* cflags: -DJENT_BAREMETAL */
/* Thread handling as built for targets without an operating system. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_bare_pin
#define jent_notime_thread_create gt_bare_create
#define jent_notime_thread_join gt_bare_join
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static int routine(void *a) { return gt_routine(a); }
static struct jent_notime_ctx ctx[4];
int gt_bare_ok(void) { return 1; }
int gt_bare_start(int i, void *a) { return gt_bare_create(&ctx[i], routine, a); }
void gt_bare_stop(int i) { gt_bare_join(&ctx[i]); }
void gt_bare_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_bare_ok(void) { return 0; }
int gt_bare_pin(unsigned long c) { return 0; }
int gt_bare_start(int i, void *a) { return 0; }
void gt_bare_stop(int i) { }
void gt_bare_clear(int i) { }
#endif
