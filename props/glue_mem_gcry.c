/* cflags: -I{V}/pstub -DLIBGCRYPT */
/* The memory backend as built for libgcrypt. */
#include <stddef.h>
#include <stdlib.h>
#ifndef GLUE_STUB
#define jent_zalloc gm_gcry_zalloc
#define jent_zfree gm_gcry_zfree
#define jent_memset_secure gm_gcry_wipe
#define jent_memory_is_secure gm_gcry_secure
#define jent_secure_memory_supported gm_gcry_supported

#include "arch/jitterentropy-arch-memory.c"
int gm_gcry_ok(void) { return 1; }
#else
int gm_gcry_ok(void) { return 0; }
void *gm_gcry_zalloc(size_t n, unsigned f) { return 0; }
void gm_gcry_zfree(void *p, size_t n) {}
int gm_gcry_secure(unsigned f) { return 0; }
int gm_gcry_supported(void) { return 0; }
#endif
