/* Access to the health tests through the entry points the repository's own
 * tests use. A stub when the tree does not offer them. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#ifndef GLUE_STUB
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#pragma weak jent_health_insert_timestamp
#pragma weak jent_stuck
#pragma weak jent_health_init
#pragma weak jent_health_failure
int gh_ok(void) { return jent_health_insert_timestamp && jent_stuck && jent_health_init && jent_health_failure; }
void *gh_new(unsigned osr, int ntg1, int fips, uint64_t gcd, unsigned nosr, int in_rec)
{
	struct rand_data *ec = calloc(1, sizeof(*ec));
	ec->osr = osr;
	if (fips) ec->is_fips_enabled = 1;
	if (ntg1) ec->flags |= JENT_NTG1;
	ec->jent_common_timer_gcd = gcd;
	jent_health_init(ec, ntg1 ? jent_health_init_type_ntg1 : jent_health_init_type_common);
	ec->rct_mem_nosr = nosr;
	if (in_rec) ec->in_recovery = 1;
	return ec;
}
void gh_block(void *e) { ((struct rand_data *)e)->rct_mem_ctr = 0; }
unsigned gh_stamp(void *e, uint64_t t) { return jent_health_insert_timestamp(e, t); }
unsigned gh_delta(void *e, uint64_t d) { return jent_stuck(e, d); }
unsigned gh_fail(void *e) { return jent_health_failure(e); }
void gh_free(void *e) { free(e); }
#else
int gh_ok(void) { return 0; }
void *gh_new(unsigned a, int b, int c, uint64_t d, unsigned e, int f) { return 0; }
void gh_block(void *e) {}
unsigned gh_stamp(void *e, uint64_t t) { return 0; }
unsigned gh_delta(void *e, uint64_t d) { return 0; }
unsigned gh_fail(void *e) { return 0; }
void gh_free(void *e) {}
#endif
