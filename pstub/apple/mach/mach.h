#pragma once
#include <stdint.h>
typedef int kern_return_t;
typedef int32_t integer_t;
typedef unsigned thread_t;
typedef integer_t *thread_policy_t;
#define KERN_SUCCESS 0
#define KERN_INVALID_ARGUMENT 4
#define KERN_NOT_SUPPORTED 46
kern_return_t thread_policy_set(thread_t th, int flavor, thread_policy_t info, unsigned count);
#define pthread_mach_thread_np(x) ps_mach_thread(x)
thread_t ps_mach_thread(unsigned long);
