// Property-based testing engine: choice-sequence generators with integrated
// shrinking, one forked child per case (or per batch of independent cases),
// crash/hang/sanitizer detection, replay files and coverage accounting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

static const uint32_t MAX_CHOICES = 60000;
static const int MAX_LABELS = 24;

struct Slot {                    // shared between child and worker
    volatile int state;          // 0 running, 1 ok, 2 fail, 3 discard
    volatile uint32_t nchoices;
    uint64_t choices[MAX_CHOICES];
    volatile uint64_t fp;
    volatile int nontrivial;
    char msg[8192];
    char sample[1500];
    char labels[MAX_LABELS][40];
    volatile int nlabels;
    // batch accounting
    volatile uint64_t b_cases, b_nontrivial, b_discard;
    uint64_t b_fps[4096];
    volatile uint32_t b_nfps;
    volatile uint64_t b_index;   // index of the current case in the batch
    // coverage map of the library (edge guards)
    uint8_t cov[1 << 14];
};

struct Fail {};                  // thrown by fail()
struct Discard {};               // thrown by discard()

static inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t s = a * 0x9E3779B97F4A7C15ULL + b;
    return splitmix(s);
}

struct Ctx {
    Slot *slot;
    uint64_t rng;
    const std::vector<uint64_t> *replay = nullptr;
    const std::vector<uint64_t> *prefix = nullptr; // mutation base
    size_t pos = 0;
    bool thorough = false;
    bool san = false;
    std::string smp;

    // --- choices: shrink towards 0 ---
    uint64_t u(uint64_t n) {     // uniform in [0, n)
        if (n == 0) n = 1;
        uint64_t v;
        if (replay) v = pos < replay->size() ? (*replay)[pos] % n : 0;
        else if (prefix && pos < prefix->size() && (splitmix(rng) % 100) >= 4) v = (*prefix)[pos] % n;
        else v = splitmix(rng) % n;
        if (slot->nchoices < MAX_CHOICES) slot->choices[slot->nchoices++] = v;
        pos++;
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + u(hi - lo + 1); }
    int irange(int lo, int hi) { return lo + (int)u((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)u((uint64_t)den) >= den - num; } // shrinks to false
    uint64_t u64() { return chance(1, 4) ? (uint64_t)u(UINT64_MAX) : (u(UINT64_MAX) >> u(64)); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + u(l.size())); }
    template <class T> T pick(const std::vector<T> &l) { return l[u(l.size())]; }
    // log-uniform-ish size in [0, max]
    uint64_t size(uint64_t max) {
        int bits = 0;
        while (bits < 63 && (1ULL << bits) <= max) bits++;
        uint64_t b = u((uint64_t)bits + 1);
        uint64_t m = b >= 63 ? max : ((1ULL << b) - 1);
        if (m > max) m = max;
        return u(m + 1);
    }

    // --- verdicts ---
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(slot->msg, sizeof(slot->msg), fmt, ap);
        va_end(ap);
        slot->state = 2;
        throw Fail();
    }
    [[noreturn]] void discard() { throw Discard(); }
    void nontrivial() { slot->nontrivial = 1; }
    void fp(uint64_t v) { slot->fp = mix(slot->fp + 1, v); }
    void label(const char *l) {
        for (int i = 0; i < slot->nlabels; i++)
            if (!strcmp(slot->labels[i], l)) return;
        if (slot->nlabels < MAX_LABELS) {
            snprintf(slot->labels[slot->nlabels], 40, "%s", l);
            slot->nlabels++;
        }
    }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        size_t l = strlen(slot->sample);
        if (l + 2 >= sizeof(slot->sample)) return;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(slot->sample + l, sizeof(slot->sample) - l, fmt, ap);
        va_end(ap);
    }
};

struct Prop {
    const char *id;
    const char *name;            // sub-property name
    const char *rule;            // what makes a case non-trivial
    void (*fn)(Ctx &);
    int batch;                   // cases per child (1: fresh process per case)
    int weight;                  // share of the time budget
    int timeout_s;               // per child
    int racy = 0;                // depends on real thread timing: one reproduction in a number of tries counts
};
std::vector<Prop> &registry();
struct Reg { Reg(Prop p) { registry().push_back(p); } };

#define PBT_PROP(ID, NAME, BATCH, WEIGHT, TIMEOUT, RULE)                       \
    static void ID##_##NAME(pbt::Ctx &);                                       \
    static pbt::Reg reg_##ID##_##NAME({#ID, #NAME, RULE, ID##_##NAME, BATCH,   \
                                       WEIGHT, TIMEOUT});                      \
    static void ID##_##NAME(pbt::Ctx &t)

#define PBT_RACE(ID, NAME, BATCH, WEIGHT, TIMEOUT, RULE)                       \
    static void ID##_##NAME(pbt::Ctx &);                                       \
    static pbt::Reg reg_##ID##_##NAME({#ID, #NAME, RULE, ID##_##NAME, BATCH,   \
                                       WEIGHT, TIMEOUT, 1});                   \
    static void ID##_##NAME(pbt::Ctx &t)

// Called in each child before the property (fresh or batch) runs.
extern void (*child_setup)();
// Non-null in children while a case runs.
extern Ctx *cur;

} // namespace pbt
