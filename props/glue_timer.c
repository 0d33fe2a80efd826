/* The counting thread's counter, advanced by the harness instead of a thread. */
#include <stdint.h>
#ifndef GLUE_STUB
#include "jitterentropy-internal.h"
# ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
int gt_ok(void) { return 1; }
void gt_bump(void *ec, uint64_t d) { ((struct rand_data *)ec)->notime_timer += d; }
int gt_told_to_stop(void *ec) { return !!((struct rand_data *)ec)->notime_interrupt; }
# else
#  define GLUE_STUB
# endif
#endif
#ifdef GLUE_STUB
int gt_ok(void) { return 0; }
void gt_bump(void *ec, uint64_t d) {}
int gt_told_to_stop(void *ec) { return 1; }
#endif
