/* cflags: -I{V}/pstub/netbsd -U__linux__ -D__NetBSD__ */
/* Thread handling as built for NetBSD. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_nbsd_pin
#define jent_notime_thread_create gt_nbsd_create
#define jent_notime_thread_join gt_nbsd_join
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static void *routine(void *a) { gt_routine(a); return NULL; }
static struct jent_notime_ctx ctx[4];
int gt_nbsd_ok(void) { return 1; }
int gt_nbsd_start(int i, void *a) { return gt_nbsd_create(&ctx[i], routine, a); }
void gt_nbsd_stop(int i) { gt_nbsd_join(&ctx[i]); }
void gt_nbsd_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_nbsd_ok(void) { return 0; }
int gt_nbsd_pin(unsigned long c) { return 0; }
int gt_nbsd_start(int i, void *a) { return 0; }
void gt_nbsd_stop(int i) { }
void gt_nbsd_clear(int i) { }
#endif
