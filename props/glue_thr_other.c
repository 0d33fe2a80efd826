/* cflags: -U__linux__ */
/* Thread handling as built for other Unix systems. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_other_pin
#define jent_notime_thread_create gt_other_create
#define jent_notime_thread_join gt_other_join
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static void *routine(void *a) { gt_routine(a); return NULL; }
static struct jent_notime_ctx ctx[4];
int gt_other_ok(void) { return 1; }
int gt_other_start(int i, void *a) { return gt_other_create(&ctx[i], routine, a); }
void gt_other_stop(int i) { gt_other_join(&ctx[i]); }
void gt_other_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_other_ok(void) { return 0; }
int gt_other_pin(unsigned long c) { return 0; }
int gt_other_start(int i, void *a) { return 0; }
void gt_other_stop(int i) { }
void gt_other_clear(int i) { }
#endif
