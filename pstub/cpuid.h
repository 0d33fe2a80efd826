/* CPUID of a generated processor instead of the one we run on */
#pragma once
int pstub_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
unsigned pstub_cpuid_max(unsigned range);
void pstub_cpuid_raw(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
static inline int __get_cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { return pstub_cpuid(l, s, a, b, c, d); }
static inline int __get_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { return pstub_cpuid(l, 0, a, b, c, d); }
static inline unsigned __get_cpuid_max(unsigned r, unsigned *sig) { if (sig) *sig = 0; return pstub_cpuid_max(r); }
#define __cpuid_count(l, s, a, b, c, d) pstub_cpuid_raw(l, s, &(a), &(b), &(c), &(d))
#define __cpuid(l, a, b, c, d) pstub_cpuid_raw(l, 0, &(a), &(b), &(c), &(d))
