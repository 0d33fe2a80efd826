/* cflags: -D_GNU_SOURCE */
/* Thread handling as built for Linux. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_linux_pin
#define jent_notime_thread_create gt_linux_create
#define jent_notime_thread_join gt_linux_join
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static void *routine(void *a) { gt_routine(a); return NULL; }
static struct jent_notime_ctx ctx[4];
int gt_linux_ok(void) { return 1; }
int gt_linux_start(int i, void *a) { return gt_linux_create(&ctx[i], routine, a); }
void gt_linux_stop(int i) { gt_linux_join(&ctx[i]); }
void gt_linux_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_linux_ok(void) { return 0; }
int gt_linux_pin(unsigned long c) { return 0; }
int gt_linux_start(int i, void *a) { return 0; }
void gt_linux_stop(int i) { }
void gt_linux_clear(int i) { }
#endif
