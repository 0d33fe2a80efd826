/* cflags: -I{V}/pstub -DAWSLC */
/* The memory backend as built for AWS-LC. */
#include <stddef.h>
#include <stdlib.h>
#ifndef GLUE_STUB
#define jent_zalloc gm_aws_zalloc
#define jent_zfree gm_aws_zfree
#define jent_memset_secure gm_aws_wipe
#define jent_memory_is_secure gm_aws_secure
#define jent_secure_memory_supported gm_aws_supported

#include "arch/jitterentropy-arch-memory.c"
int gm_aws_ok(void) { return 1; }
#else
int gm_aws_ok(void) { return 0; }
void *gm_aws_zalloc(size_t n, unsigned f) { return 0; }
void gm_aws_zfree(void *p, size_t n) {}
int gm_aws_secure(unsigned f) { return 0; }
int gm_aws_supported(void) { return 0; }
#endif
