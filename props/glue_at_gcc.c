/* cflags: -D_GNU_SOURCE */
/* Shared words as built for GCC and clang. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_atomic_load_int ga_gcc_load_int
#define jent_atomic_store_int ga_gcc_store_int
#define jent_atomic_load_u32 ga_gcc_load_u32
#define jent_atomic_store_u32 ga_gcc_store_u32
#define jent_atomic_set_once_u32 ga_gcc_set_once_u32
#define jent_atomic_load_fnptr ga_gcc_load_fnptr
#define jent_atomic_store_fnptr ga_gcc_store_fnptr
#include "arch/jitterentropy-arch-atomic.c"
int ga_gcc_ok(void) { return 1; }
#else
typedef void (*fp)(void);
int ga_gcc_ok(void) { return 0; }
int ga_gcc_load_int(int *p) { return *p; }
void ga_gcc_store_int(int *p, int v) { *p = v; }
uint32_t ga_gcc_load_u32(uint32_t *p) { return *p; }
void ga_gcc_store_u32(uint32_t *p, uint32_t v) { *p = v; }
void ga_gcc_set_once_u32(uint32_t *p, uint32_t v) { *p = v; }
fp ga_gcc_load_fnptr(fp *p) { return *p; }
void ga_gcc_store_fnptr(fp *p, fp v) { *p = v; }
#endif
