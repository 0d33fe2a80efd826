/* cflags: -I{V}/pstub -D__MINGW32__ */
/* The memory backend as built for Windows. */
#include <stddef.h>
#include <stdlib.h>
#ifndef GLUE_STUB
#define jent_zalloc gm_win_zalloc
#define jent_zfree gm_win_zfree
#define jent_memset_secure gm_win_wipe
#define jent_memory_is_secure gm_win_secure
#define jent_secure_memory_supported gm_win_supported

#include "arch/jitterentropy-arch-memory.c"
int gm_win_ok(void) { return 1; }
#else
int gm_win_ok(void) { return 0; }
void *gm_win_zalloc(size_t n, unsigned f) { return 0; }
void gm_win_zfree(void *p, size_t n) {}
int gm_win_secure(unsigned f) { return 0; }
int gm_win_supported(void) { return 0; }
#endif
