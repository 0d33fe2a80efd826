#pragma once
#include <stddef.h>
void *gcry_malloc_secure(size_t n);
void *gcry_malloc(size_t n);
void *gcry_calloc(size_t n, size_t m);
void *gcry_calloc_secure(size_t n, size_t m);
void *gcry_xmalloc_secure(size_t n);
void *gcry_xmalloc(size_t n);
int gcry_is_secure(const void *p);
void gcry_free(void *p);
int gcry_fips_mode_active(void);
