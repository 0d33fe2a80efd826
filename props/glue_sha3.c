/* The conditioning primitives through the entry points the repository's own
 * unit tests use. A stub when the tree does not offer them. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#ifndef GLUE_STUB
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"
#pragma weak jent_sha3_256_init
#pragma weak jent_shake256_init
#pragma weak jent_sha3_update
#pragma weak jent_sha3_final
#pragma weak jent_drbg_generate_block
#pragma weak jent_sha3_alloc
#pragma weak jent_sha3_dealloc
int gs_ok(void) { return jent_sha3_256_init && jent_shake256_init && jent_sha3_update && jent_sha3_final && jent_drbg_generate_block && jent_sha3_alloc && jent_sha3_dealloc; }
/* exact-size heap block (sanitizer red zones), arbitrary previous contents; or the library's own allocation */
void *gs_new(int fill, int own)
{
	void *p = NULL;

	if (own) {
		if (jent_sha3_alloc(&p, 0))
			return NULL;
		return p;
	}
	p = malloc(JENT_SHA_MAX_CTX_SIZE);
	memset(p, fill, JENT_SHA_MAX_CTX_SIZE);
	return p;
}
void gs_free(void *p, int own) { if (own) jent_sha3_dealloc(p); else free(p); }
void gs_sha3(void *p) { jent_sha3_256_init(p); }
void gs_shake(void *p) { jent_shake256_init(p); }
void gs_size(void *p, unsigned n) { jent_shake256_set_digestsize(p, n); }
void gs_update(void *p, const uint8_t *d, size_t n) { jent_sha3_update(p, d, n); }
void gs_final(void *p, uint8_t *d) { jent_sha3_final(p, d); }
void gs_gen(void *p, uint8_t *d, size_t n) { jent_drbg_generate_block(p, d, n); }
#else
int gs_ok(void) { return 0; }
void *gs_new(int f, int o) { return 0; }
void gs_free(void *p, int o) {}
void gs_sha3(void *p) {}
void gs_shake(void *p) {}
void gs_size(void *p, unsigned n) {}
void gs_update(void *p, const uint8_t *d, size_t n) {}
void gs_final(void *p, uint8_t *d) {}
void gs_gen(void *p, uint8_t *d, size_t n) {}
#endif
