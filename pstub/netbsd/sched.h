#pragma once
#include_next <sched.h>
#include <stddef.h>
typedef unsigned long cpuid_t;
typedef struct ps_cpuset cpuset_t;
cpuset_t *cpuset_create(void);
void cpuset_destroy(cpuset_t *s);
void cpuset_zero(cpuset_t *s);
int cpuset_set(cpuid_t c, cpuset_t *s);
size_t cpuset_size(const cpuset_t *s);
int ps_setaffinity_np(unsigned long th, size_t n, cpuset_t *s);
#define pthread_setaffinity_np ps_setaffinity_np
