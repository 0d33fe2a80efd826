/* cflags: -I{V}/pstub/freebsd -U__linux__ -D__FreeBSD__ */
/* Thread handling as built for FreeBSD. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_fbsd_pin
#define jent_notime_thread_create gt_fbsd_create
#define jent_notime_thread_join gt_fbsd_join
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static void *routine(void *a) { gt_routine(a); return NULL; }
static struct jent_notime_ctx ctx[4];
int gt_fbsd_ok(void) { return 1; }
int gt_fbsd_start(int i, void *a) { return gt_fbsd_create(&ctx[i], routine, a); }
void gt_fbsd_stop(int i) { gt_fbsd_join(&ctx[i]); }
void gt_fbsd_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_fbsd_ok(void) { return 0; }
int gt_fbsd_pin(unsigned long c) { return 0; }
int gt_fbsd_start(int i, void *a) { return 0; }
void gt_fbsd_stop(int i) { }
void gt_fbsd_clear(int i) { }
#endif
