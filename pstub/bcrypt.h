#pragma once
#include "windows.h"
typedef int32_t NTSTATUS;
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2u
NTSTATUS BCryptGenRandom(void *alg, uint8_t *buf, ULONG n, ULONG flags);
