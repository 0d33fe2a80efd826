#pragma once
#include <stdint.h>
uintptr_t _beginthreadex(void *sec, unsigned stack, unsigned (*fn)(void *), void *arg, unsigned flags, unsigned *id);
