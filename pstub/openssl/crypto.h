#pragma once
#include <stddef.h>
#ifdef AWSLC
void *aws_malloc(size_t n);
void *aws_zalloc(size_t n);
void aws_free(void *p);
int aws_fips_mode(void);
#define OPENSSL_malloc aws_malloc
#define OPENSSL_zalloc aws_zalloc
#define OPENSSL_free aws_free
#define FIPS_mode aws_fips_mode
#else
int CRYPTO_secure_malloc_initialized(void);
int CRYPTO_secure_allocated(const void *p);
void *OPENSSL_secure_malloc(size_t n);
void *OPENSSL_secure_zalloc(size_t n);
void OPENSSL_secure_free(void *p);
void OPENSSL_secure_clear_free(void *p, size_t n);
void *OPENSSL_malloc(size_t n);
void *OPENSSL_zalloc(size_t n);
void OPENSSL_free(void *p);
void OPENSSL_clear_free(void *p, size_t n);
#endif
void OPENSSL_cleanse(void *p, size_t n);
