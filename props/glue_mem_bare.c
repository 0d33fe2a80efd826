/* cflags: -I{V}/pstub -DJENT_BAREMETAL */
/* The memory backend as built for targets without an operating system. */
#include <stddef.h>
#include <stdlib.h>
#ifndef GLUE_STUB
#define jent_zalloc gm_bare_zalloc
#define jent_zfree gm_bare_zfree
#define jent_memset_secure gm_bare_wipe
#define jent_memory_is_secure gm_bare_secure
#define jent_secure_memory_supported gm_bare_supported
void *pb_malloc(size_t); void *pb_calloc(size_t, size_t); void pb_free(void *);
#define malloc pb_malloc
#define calloc pb_calloc
#define free pb_free
#include "arch/jitterentropy-arch-memory.c"
int gm_bare_ok(void) { return 1; }
#else
int gm_bare_ok(void) { return 0; }
void *gm_bare_zalloc(size_t n, unsigned f) { return 0; }
void gm_bare_zfree(void *p, size_t n) {}
int gm_bare_secure(unsigned f) { return 0; }
int gm_bare_supported(void) { return 0; }
#endif
