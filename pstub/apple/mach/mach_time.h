#pragma once
#include <stdint.h>
uint64_t mach_absolute_time(void);
