// Time stamps and shared words of every platform: the sources are compiled
// for each of them against generated clocks.
#include "pbt.hpp"
#include <cerrno>
#include <climits>
#include <cstring>
#include <string>
#include <vector>
#include <ctime>
#include <x86intrin.h>
extern "C" {
#include "../pstub/windows.h"
#define B(n) int gz_##n##_ok(void); void gz_##n(uint64_t *);
#define ALLT B(generic) B(mach) B(qpc) B(aix) B(kern) B(kx86) B(x86)
ALLT
#undef B
typedef void (*fp_t)(void);
#define B(n) int ga_##n##_ok(void); int ga_##n##_load_int(int *); void ga_##n##_store_int(int *, int); uint32_t ga_##n##_load_u32(uint32_t *); void ga_##n##_store_u32(uint32_t *, uint32_t); void ga_##n##_set_once_u32(uint32_t *, uint32_t); fp_t ga_##n##_load_fnptr(fp_t *); void ga_##n##_store_fnptr(fp_t *, fp_t);
#define ALLA B(gcc) B(msvc) B(plain) B(kern)
ALLA
#undef B
}
namespace {
enum { GENERIC, MACH, QPC, AIX, KERN, KX86, X86 };
struct TB { const char *name; int (*ok)(); void (*get)(uint64_t *); };
#define B(n) {#n, gz_##n##_ok, gz_##n},
const TB tbs[] = {ALLT};
#undef B
struct AB { const char *name; int (*ok)(); int (*li)(int *); void (*si)(int *, int); uint32_t (*lu)(uint32_t *); void (*su)(uint32_t *, uint32_t); void (*once)(uint32_t *, uint32_t); fp_t (*lf)(fp_t *); void (*sf)(fp_t *, fp_t); };
#define B(n) {#n, ga_##n##_ok, ga_##n##_load_int, ga_##n##_store_int, ga_##n##_load_u32, ga_##n##_store_u32, ga_##n##_set_once_u32, ga_##n##_load_fnptr, ga_##n##_store_fnptr},
const AB abs_[] = {ALLA};
#undef B
uint64_t ns_sec, ns_nsec, wall, ticks, cycles;
bool clock_fails, raw_base;
std::string trouble;
} // namespace
extern "C" {
int gz_clock_gettime(clockid_t c, struct timespec *ts) {
    if (clock_fails) { errno = EINVAL; return -1; }
    if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW) { ts->tv_sec = (time_t)ns_sec; ts->tv_nsec = (long)ns_nsec; }
    else { ts->tv_sec = (time_t)(wall >> 30); ts->tv_nsec = (long)(wall & 0x1fffffff); } // a clock that is being adjusted
    return 0;
}
uint64_t mach_absolute_time(void) { return ticks; }
BOOL QueryPerformanceCounter(LARGE_INTEGER *t) { t->QuadPart = (int64_t)ticks; return 1; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER *t) { t->QuadPart = 10000000; return 1; }
struct aix_tb { int flag; unsigned high, low; };
// the raw time base counts in units of 4 ns and has to be converted
int read_real_time(struct aix_tb *t, int n) {
    if (n != (int)sizeof *t) { trouble = "the size of the time base is wrong"; return -1; }
    if (!raw_base) { t->flag = 0; t->high = (unsigned)ns_sec; t->low = (unsigned)ns_nsec; return 0; }
    uint64_t v = (ns_sec * 1000000000ull + ns_nsec) / 4;
    t->flag = 1; t->high = (unsigned)(v >> 32); t->low = (unsigned)v;
    return 1;
}
int time_base_to_time(struct aix_tb *t, int) {
    if (!t->flag) return 0;
    uint64_t v = ((uint64_t)t->high << 32 | t->low) * 4;
    t->flag = 0; t->high = (unsigned)(v / 1000000000ull); t->low = (unsigned)(v % 1000000000ull);
    return 0;
}
uint64_t gz_entropy(void) { return cycles; }
uint64_t gz_ktime(void) { return ns_sec * 1000000000ull + ns_nsec; }
int32_t _InterlockedOr(volatile int32_t *p, int32_t v) { return __sync_fetch_and_or(p, v); }
int32_t _InterlockedAnd(volatile int32_t *p, int32_t v) { return __sync_fetch_and_and(p, v); }
int32_t _InterlockedXor(volatile int32_t *p, int32_t v) { return __sync_fetch_and_xor(p, v); }
int32_t _InterlockedExchangeAdd(volatile int32_t *p, int32_t v) { return __sync_fetch_and_add(p, v); }
int32_t _InterlockedExchange(volatile int32_t *p, int32_t v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
int32_t _InterlockedCompareExchange(volatile int32_t *p, int32_t v, int32_t was) { return __sync_val_compare_and_swap(p, was, v); }
void *_InterlockedCompareExchangePointer(void *volatile *p, void *v, void *was) { return __sync_val_compare_and_swap(p, was, v); }
void *_InterlockedExchangePointer(void *volatile *p, void *v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
}

PBT_PROP(X06, stamps, 1000, 2, 20, "the counter crossed a 32 bit boundary or a second, or the first source was absent") {
    const int k = t.pick({GENERIC, GENERIC, MACH, QPC, AIX, AIX, KERN, KERN, KX86, X86});
    const TB &b = tbs[k];
    if (!b.ok()) t.discard();
    trouble.clear();
    t.label(b.name);
    clock_fails = k == GENERIC && t.chance(1, 12);
    raw_base = t.chance(2, 3);
    int n = 2 + (int)t.size(12);
    bool odd = false;
    if (k == KX86 || k == X86) {
        uint64_t last = 0;
        bool moves = false;
        for (int i = 0; i < n; i++) {
            uint64_t a = __rdtsc(), v = 0x5555555555555555ull;
            b.get(&v);
            uint64_t c = __rdtsc();
            // generous: the counters of two processors may differ
            if (v + 4000000000ull < a || v > c + 4000000000ull) t.fail("%s: the stamp is %llx between %llx and %llx", b.name, (unsigned long long)v, (unsigned long long)a, (unsigned long long)c);
            if (i && v != last) moves = true;
            last = v;
        }
        if (!moves) t.fail("%s: the counter stands still", b.name);
        t.fp((uint64_t)k);
        return;
    }
    uint64_t unit = k == AIX ? 4 : 1, base = 0, now = t.pick({(uint64_t)0, (uint64_t)1 << 30, ((uint64_t)1 << 32) - 1000, (uint64_t)4294967295ull * 1000, (uint64_t)1 << 40, (uint64_t)1 << 52, (uint64_t)1 << 60}) + t.u(1u << 20);
    if ((k == QPC || k == MACH || k == KERN) && t.chance(1, 4)) now = UINT64_MAX - t.u(100000);
    if (k == GENERIC || k == AIX || k == KERN) now %= 4000000000ull * 1000000000ull;
    now = now / unit * unit;
    bool no_counter = k == KERN && t.chance(1, 2);
    uint64_t first = 0;
    for (int i = 0; i < n; i++) {
        ns_sec = now / 1000000000ull; ns_nsec = now % 1000000000ull;
        ticks = now;
        wall = t.u64();
        cycles = no_counter ? 0 : now == 0 ? 1 : now;
        if (k == KERN && !no_counter) ns_sec = t.u(1u << 30); // the clock runs differently
        uint64_t v = 0x5555555555555555ull;
        b.get(&v);
        if (clock_fails) { if (v) t.fail("%s: a stamp was given without a clock", b.name); continue; }
        uint64_t src = k == KERN ? (no_counter ? now : cycles) : now;
        if (i == 0) { base = v; first = src; }
        else if (v - base != src - first) t.fail("%s: %llu units passed, the stamps differ by %llu", b.name, (unsigned long long)(src - first), (unsigned long long)(v - base));
        t.note("%s: %llx -> %llx; ", b.name, (unsigned long long)src, (unsigned long long)v);
        t.fp(v ^ (uint64_t)k << 60);
        uint64_t step = t.pick({(uint64_t)unit, (uint64_t)40 * unit, (uint64_t)1000, (uint64_t)999999996, (uint64_t)1000000000, (uint64_t)4294967296ull, (uint64_t)5000000000ull}) + t.u(1000) * unit;
        // land exactly on the boundary
        if (t.chance(1, 6)) step = (1ull << 32) - (now & 0xffffffffull);
        else if (t.chance(1, 6)) step = 1000000000ull - now % 1000000000ull;
        if ((now >> 32) != ((now + step) >> 32) || now / 1000000000ull != (now + step) / 1000000000ull) odd = true;
        now += step;
    }
    if (!trouble.empty()) t.fail("%s: %s", b.name, trouble.c_str());
    if (odd || no_counter || clock_fails) t.nontrivial();
}

PBT_PROP(X06, words, 1000, 1, 20, "a word was set once while it had a value, or a pointer was replaced") {
    const AB &b = abs_[t.u(4)];
    if (!b.ok()) t.discard();
    t.label(b.name);
    // every word lies between two others, all have to stay as the model says
    int wi[5], mi[5];
    uint32_t wu[5], mu[5];
    fp_t wf[4], mf[4];
    bool odd = false;
    for (int i = 0; i < 5; i++) { wi[i] = mi[i] = t.chance(1, 3) ? 0 : (int)t.u64(); wu[i] = mu[i] = t.chance(1, 2) ? 0 : (uint32_t)t.u64(); }
    for (int i = 0; i < 4; i++) wf[i] = mf[i] = (fp_t)(t.chance(1, 3) ? 0 : t.u64());
    for (int n = 3 + (int)t.size(30); n > 0; n--) {
        int i = (int)t.u(5), j = (int)t.u(4);
        uint32_t v = t.chance(1, 4) ? 0 : t.chance(1, 3) ? t.pick({1u, 0x80000000u, 0xffffffffu, 0x100u}) : (uint32_t)t.u64();
        switch (t.u(7)) {
        case 0: if (b.li(&wi[i]) != mi[i]) t.fail("%s: a flag is read as %d, it is %d", b.name, b.li(&wi[i]), mi[i]); break;
        case 1: b.si(&wi[i], (int)v); mi[i] = (int)v; break;
        case 2: if (b.lu(&wu[i]) != mu[i]) t.fail("%s: a word is read as %x, it is %x", b.name, b.lu(&wu[i]), mu[i]); break;
        case 3: b.su(&wu[i], v); mu[i] = v; break;
        case 4: b.once(&wu[i], v); if (mu[i]) odd = true; else mu[i] = v; break;
        case 5: if (b.lf(&wf[j]) != mf[j]) t.fail("%s: a callback is read wrongly", b.name); break;
        default: { fp_t f = (fp_t)(t.chance(1, 4) ? 0 : t.u64()); b.sf(&wf[j], f); mf[j] = f; odd = true; }
        }
        if (memcmp(wi, mi, sizeof wi)) t.fail("%s: the flags are not what was stored", b.name);
        if (memcmp(wu, mu, sizeof wu)) t.fail("%s: the words are not what was stored", b.name);
        if (memcmp(wf, mf, sizeof wf)) t.fail("%s: the callbacks are not what was stored", b.name);
    }
    for (uint32_t x : mu) t.fp(x);
    if (odd) t.nontrivial();
}
