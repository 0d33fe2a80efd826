/* cflags: -I{V}/kstub -DLINUX_KERNEL -UJENT_CONF_ENABLE_INTERNAL_TIMER */
/* Shared words as built for the Linux kernel. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifndef GLUE_STUB
#define jent_atomic_load_int ga_kern_load_int
#define jent_atomic_store_int ga_kern_store_int
#define jent_atomic_load_u32 ga_kern_load_u32
#define jent_atomic_store_u32 ga_kern_store_u32
#define jent_atomic_set_once_u32 ga_kern_set_once_u32
#define jent_atomic_load_fnptr ga_kern_load_fnptr
#define jent_atomic_store_fnptr ga_kern_store_fnptr
#include "arch/jitterentropy-arch-atomic.c"
int ga_kern_ok(void) { return 1; }
#else
typedef void (*fp)(void);
int ga_kern_ok(void) { return 0; }
int ga_kern_load_int(int *p) { return *p; }
void ga_kern_store_int(int *p, int v) { *p = v; }
uint32_t ga_kern_load_u32(uint32_t *p) { return *p; }
void ga_kern_store_u32(uint32_t *p, uint32_t v) { *p = v; }
void ga_kern_set_once_u32(uint32_t *p, uint32_t v) { *p = v; }
fp ga_kern_load_fnptr(fp *p) { return *p; }
void ga_kern_store_fnptr(fp *p, fp v) { *p = v; }
#endif
