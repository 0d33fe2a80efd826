#pragma once
#include <stddef.h>
#undef CPU_SETSIZE
#undef CPU_ZERO
#undef CPU_SET
#define CPU_SETSIZE 1024
typedef struct { long __bits[CPU_SETSIZE / 64]; } cpuset_t;
#define CPU_ZERO(s) ps_bsd_zero(s)
#define CPU_SET(n, s) ps_bsd_set(n, s)
#define CPU_LEVEL_WHICH 3
#define CPU_WHICH_TID 1
#define CPU_WHICH_PID 2
void ps_bsd_zero(cpuset_t *s);
void ps_bsd_set(size_t n, cpuset_t *s);
int cpuset_setaffinity(int level, int which, int64_t id, size_t n, const cpuset_t *s);
