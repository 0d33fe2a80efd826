/* cflags: -I{V}/pstub -U__linux__ -D__MINGW32__ */
/* Thread handling as built for Windows. */
#include <stddef.h>
#include <stdint.h>
#ifndef GLUE_STUB
#define jent_thread_pin_to_cpu gt_win_pin
#define jent_notime_thread_create gt_win_create
#define jent_notime_thread_join gt_win_join
#include <stdlib.h>
void *gt_malloc(size_t);
void gt_release(void *);
#define malloc gt_malloc
#define free gt_release
#define calloc(a, b) gt_malloc((a) * (b))
#include "arch/jitterentropy-arch-thread.c"
int gt_routine(void *);
static int routine(void *a) { return gt_routine(a); }
static struct jent_notime_ctx ctx[4];
int gt_win_ok(void) { return 1; }
int gt_win_start(int i, void *a) { return gt_win_create(&ctx[i], routine, a); }
void gt_win_stop(int i) { gt_win_join(&ctx[i]); }
void gt_win_clear(int i) { memset(&ctx[i], 0, sizeof(ctx[i])); }
#else
int gt_win_ok(void) { return 0; }
int gt_win_pin(unsigned long c) { return 0; }
int gt_win_start(int i, void *a) { return 0; }
void gt_win_stop(int i) { }
void gt_win_clear(int i) { }
#endif
