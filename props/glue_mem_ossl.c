/* cflags: -I{V}/pstub -DOPENSSL */
/* The memory backend as built for OpenSSL. */
#include <stddef.h>
#include <stdlib.h>
#ifndef GLUE_STUB
#define jent_zalloc gm_ossl_zalloc
#define jent_zfree gm_ossl_zfree
#define jent_memset_secure gm_ossl_wipe
#define jent_memory_is_secure gm_ossl_secure
#define jent_secure_memory_supported gm_ossl_supported

#include "arch/jitterentropy-arch-memory.c"
int gm_ossl_ok(void) { return 1; }
#else
int gm_ossl_ok(void) { return 0; }
void *gm_ossl_zalloc(size_t n, unsigned f) { return 0; }
void gm_ossl_zfree(void *p, size_t n) {}
int gm_ossl_secure(unsigned f) { return 0; }
int gm_ossl_supported(void) { return 0; }
#endif
