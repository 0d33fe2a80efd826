/* Lifetime counters of a collector, set to values no test can run up to.
 * A stub when the tree keeps them elsewhere. */
#include <stdint.h>
#ifndef GLUE_STUB
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
int gst_ok(void) { return sizeof(((struct rand_data *)0)->bytes_output) == 8 && sizeof(((struct rand_data *)0)->read_invocations) == 8; }
void gst_counters(void *e, uint64_t inv, uint64_t bytes, unsigned reinit)
{
	struct rand_data *ec = e;
	ec->read_invocations = inv;
	ec->bytes_output = bytes;
	ec->reinit_count = reinit;
}
void gst_health(void *e, unsigned bits) { ((struct rand_data *)e)->health_failure = bits; }
unsigned long gst_size(void) { return sizeof(struct rand_data); }
#else
int gst_ok(void) { return 0; }
void gst_counters(void *e, uint64_t inv, uint64_t bytes, unsigned reinit) {}
void gst_health(void *e, unsigned bits) {}
unsigned long gst_size(void) { return 0; }
#endif
