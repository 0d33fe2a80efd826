/* cflags: -U__linux__ -D__OpenBSD__ */
/* Thread handling as built for OpenBSD. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_obsd_pin
#define jent_notime_thread_create gt_obsd_create
#define jent_notime_thread_join gt_obsd_join
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static void *routine(void *a) { gt_routine(a); return NULL; }
static struct jent_notime_ctx ctx[4];
int gt_obsd_ok(void) { return 1; }
int gt_obsd_start(int i, void *a) { return gt_obsd_create(&ctx[i], routine, a); }
void gt_obsd_stop(int i) { gt_obsd_join(&ctx[i]); }
void gt_obsd_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_obsd_ok(void) { return 0; }
int gt_obsd_pin(unsigned long c) { return 0; }
int gt_obsd_start(int i, void *a) { return 0; }
void gt_obsd_stop(int i) { }
void gt_obsd_clear(int i) { }
#endif
