#pragma once
#include_next <sys/time.h>
typedef struct { int flag; unsigned int tb_high, tb_low; } timebasestruct_t;
#define TIMEBASE_SZ ((int)sizeof(timebasestruct_t))
int read_real_time(timebasestruct_t *t, int n);
int time_base_to_time(timebasestruct_t *t, int n);
