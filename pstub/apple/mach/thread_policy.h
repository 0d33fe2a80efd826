#pragma once
#include "mach.h"
typedef struct { integer_t affinity_tag; } thread_affinity_policy_data_t;
#define THREAD_AFFINITY_POLICY 4
#define THREAD_AFFINITY_POLICY_COUNT ((unsigned)(sizeof(thread_affinity_policy_data_t) / sizeof(integer_t)))
