#pragma once
#include <stdint.h>
int32_t _InterlockedOr(volatile int32_t *p, int32_t v);
int32_t _InterlockedExchange(volatile int32_t *p, int32_t v);
int32_t _InterlockedCompareExchange(volatile int32_t *p, int32_t v, int32_t was);
void *_InterlockedCompareExchangePointer(void *volatile *p, void *v, void *was);
void *_InterlockedExchangePointer(void *volatile *p, void *v);
int32_t _InterlockedAnd(volatile int32_t *p, int32_t v);
int32_t _InterlockedXor(volatile int32_t *p, int32_t v);
int32_t _InterlockedExchangeAdd(volatile int32_t *p, int32_t v);
