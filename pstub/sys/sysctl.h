#pragma once
#include <stddef.h>
#include <limits.h>
int sysctlbyname(const char *name, void *out, size_t *outlen, void *in, size_t inlen);
