// Stateful simulation: generate a history against the model, then execute it
// against the library with the recorded clock and compare every observation.
#pragma once
#include "model.hpp"
#include "shim.hpp"
#include "json.hpp"
#include "jitterentropy.h"
#include <unistd.h>
#include <cctype>
#include <functional>

extern "C" {
typedef void (*jent_mock_timer_cb_t)(void *arg, uint64_t *out);
int jent_set_mock_timer(jent_mock_timer_cb_t cb, void *arg);
}

namespace sim {
using namespace model;

enum OpKind { O_INIT, O_INITEX, O_ALLOC, O_READ, O_SAFE, O_FREE, O_SELFTEST, O_STATUS, O_KAT, O_GCDF };

struct Op {
    int kind;
    unsigned osr = 0, flags = 0;
    int slot = 0;
    size_t len = 0;
    bool nullec = false, on = false;
    size_t poison = SIZE_MAX;
    // expectation
    int ret = 0;
    std::vector<uint8_t> out;
    size_t trace_end = 0;
    size_t gens_end = 0, digs_end = 0;
    std::vector<std::array<uint8_t, 32>> pending; // hash loop results of the measurements that have not been used for output
    std::vector<std::pair<int, unsigned>> cb;
    bool alive = false;
    EC snap;
};

struct Opts {
    int max_ops = 6;
    int fips_pct = 60, ntg1_pct = 25;
    int attack_pct = 50;       // ops with a hostile delta program
    int init_attack_pct = 12;
    int max_osr = 6;
    size_t max_len = 130;
    int w_read = 4, w_safe = 3, w_free = 1, w_status = 1, w_alloc = 1, w_init = 1, w_selftest = 0, w_katf = 0;
    int max_slots = 2;
    int nomem_pct = 15;
    int sysfips_pct = 10;
    int hash_pct = 15;
    int cb_pct = 60;
    int timerflag_pct = 6;
    int skip_init_pct = 20;
    int badosr_pct = 2;
    uint64_t perm_budget = 400000;
    int force_template = -1;   // focus on one family of attacks
    bool unit_focus = false;
    int init_target_pct = 0;   // hostile programs for explicit init ops
    int poison_pct = 0;        // self test failing in the middle of a read
    int cbkat_pct = 0;         // failure callback that runs a failing self test
    int init_first_pct = 33;   // plain init() rather than init_ex() first
    int big_len_pct = 0;       // long requests
    size_t big_len = 1200;
    int ncpu_pct = 30;
    int min_ops = 1;
    bool fipsish = false;      // always FIPS and/or NTG.1
    int noise_osr = 0;         // fixed rate (0: generated)
    bool status_sizes = false; // status into buffers of any size
    int cache_pct = 25;
    bool verdict_focus = false;
    int notimer_pct = 0;
    int lead_pct = 66;         // good values before the attack
    size_t min_len = 0;
    bool unit_probe = false;   // power-on runs in which one delta is off the unit, or the variation is too low
    bool hammer_safe = false;  // also after a failed safe read
    bool hammer_mix = false;   // with ordinary reads of other collectors in between
    int bigmem_pct = 0;        // largest memory sizes
    int fixmem_pct = 0;        // memory of 8 kB to 4 MB
    int hash_top_pct = 0;      // the largest hash loop counts
    int hammer_pct = 0;        // after a failed read: many more reads while the clock stays bad
};

// ------------------------------------------------------------ generators ----
enum Tmpl { T_RCT, T_APT, T_LAG, T_MEM, T_CONT, T_MIX, T_INIT, T_LADDER, T_NTMPL };

static inline unsigned gen_phases(pbt::Ctx &t) {
    static const unsigned ph[] = {PH_ALL, PH_NORM, PH_MEM, PH_SHA, PH_NORM | PH_REC, PH_MEM | PH_SHA | PH_NORM | PH_REC, PH_INIT, PH_REC};
    return ph[t.u(8)];
}
static inline Seg seg(int mode, int lk, int64_t off, unsigned ph, uint64_t a = 0, uint64_t b = 0) {
    Seg s;
    s.mode = mode; s.lk = lk; s.off = off; s.phases = ph; s.a = a; s.b = b;
    return s;
}
static inline void gen_attack(pbt::Ctx &t, Prog &p, int tmpl, unsigned ph, int lead_pct = 66) {
    // lead-in of good values: somewhere inside the first few blocks
    if (t.chance(lead_pct, 100)) {
        if (t.chance(1, 2)) p.segs.push_back(seg(M_GOOD, L_ABS, (int64_t)t.size(1500) + 1, ph));
        else p.segs.push_back(seg(M_GOOD, L_NOSR, (int64_t)t.irange(-2, 3) + (int64_t)t.u(3) * 970, ph));
    }
    switch (tmpl) {
    case T_RCT:
        p.segs.push_back(seg(t.pick({(int)M_STUCK, (int)M_STUCK, (int)M_ARITH, (int)M_ZERO}), t.chance(2, 3) ? L_RCT : L_RCTP,
                             t.irange(-3, 2), ph));
        if (t.chance(1, 2)) {
            p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.u(3), ph));
            p.segs.push_back(seg(M_STUCK, L_RCT, t.irange(-2, 3), ph));
        }
        break;
    case T_APT:
        p.segs.push_back(seg(M_BASEHIT, t.chance(1, 2) ? L_WIN : L_APT, (int64_t)t.u(600), ph, t.chance(1, 2) ? 5000 : 5 + t.u(200)));
        break;
    case T_LAG:
        p.segs.push_back(seg(M_PERIOD, t.chance(2, 3) ? L_LAG : L_LAGP, 8 + t.irange(-4, 14), ph, t.u(7), t.u(1000)));
        break;
    case T_MEM:
        p.segs.push_back(seg(M_MEMSTUCK, L_NOSR, (int64_t)t.size(9000), ph, t.chance(1, 2) ? 100 : 20 + t.u(81), t.chance(1, 2) ? 0 : t.u(25)));
        if (t.chance(1, 2)) // recovery behaves differently
            p.segs.push_back(seg(M_MEMSTUCK, L_NOSR, (int64_t)t.size(9000), PH_REC, t.chance(1, 2) ? 100 : t.u(101), t.u(10)));
        else if (t.chance(2, 3)) { // another health test fails during the recovery
            int n = 1 + (int)t.u(2);
            for (int i = 0; i < n; i++) {
                p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.size(3000), PH_REC));
                switch (t.u(3)) {
                case 0: p.segs.push_back(seg(t.pick({(int)M_STUCK, (int)M_ARITH, (int)M_ARITH}), t.chance(3, 4) ? L_RCT : L_RCTP, t.irange(-1, 3), PH_REC)); break;
                case 1: p.segs.push_back(seg(M_BASEHIT, L_WIN, (int64_t)t.u(600), PH_REC, 5000)); break;
                default: p.segs.push_back(seg(M_PERIOD, L_LAG, 8 + t.irange(-2, 10), PH_REC, 1 + t.u(6), t.u(1000)));
                }
            }
        }
        break;
    case T_CONT:
        p.segs.push_back(seg(t.pick({(int)M_STUCK, (int)M_PERIOD, (int)M_BASEHIT, (int)M_MEMSTUCK, (int)M_STICKMIX}), L_ABS,
                             500 + (int64_t)t.u(8000), ph, t.u(100), t.u(100)));
        break;
    case T_LADDER: { // failures in several consecutive rungs
        int n = 1 + (int)t.u(3);
        for (int i = 0; i < n; i++) {
            p.segs.push_back(seg(t.pick({(int)M_STUCK, (int)M_STUCK, (int)M_PERIOD, (int)M_BASEHIT}), t.pick({(int)L_RCT, (int)L_RCT, (int)L_LAG, (int)L_WIN}),
                                 t.irange(0, 12),
                                 i == 0 ? (ph & PH_NORM ? (unsigned)PH_NORM : ph) : t.pick({(unsigned)PH_NORM, (unsigned)PH_NORM, (unsigned)PH_MEM, (unsigned)PH_SHA}), t.u(300), t.u(100)));
            if (t.chance(1, 3)) p.segs.push_back(seg(t.pick({(int)M_STUCK, (int)M_ZERO, (int)M_PERIOD}), L_RCT, t.irange(0, 3), PH_INIT, t.u(7)));
            if (t.chance(1, 2)) p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.size(2000), PH_NORM));
        }
        break;
    }
    case T_INIT: {
        int n = 1 + (int)t.u(3);
        for (int i = 0; i < n; i++) {
            int m = t.pick({(int)M_BACK, (int)M_BACK, (int)M_STAMP0, (int)M_ZERO, (int)M_STUCK, (int)M_CONST, (int)M_TINY, (int)M_HUGE, (int)M_STICKMIX,
                            (int)M_PERIOD, (int)M_BASEHIT, (int)M_RANGE, (int)M_ARITH});
            int64_t len = t.chance(1, 2) ? 1 + (int64_t)t.u(6) : 1 + (int64_t)t.size(1200);
            int lk = L_ABS;
            if (t.chance(1, 4)) { lk = t.pick({(int)L_RCT, (int)L_RCTP, (int)L_LAG, (int)L_LAGP}); len = t.irange(-2, 2); }
            uint64_t a = m == M_RANGE ? t.u(12) : m == M_STICKMIX ? 80 + t.u(21) : t.size(1u << 20);
            p.segs.push_back(seg(m, lk, len, PH_INIT, a, t.u(1000)));
            if (t.chance(1, 2)) p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.size(1100), PH_INIT));
        }
        break;
    }
    default: {
        int n = 1 + (int)t.u(5);
        for (int i = 0; i < n; i++) {
            int m = (int)t.u(M_NMODES);
            unsigned q = t.chance(1, 2) ? ph : gen_phases(t);
            p.segs.push_back(seg(m, t.chance(1, 2) ? L_ABS : (int)t.u(L_WIN + 1), (int64_t)t.size(600) - 2, q,
                                 m == M_RANGE ? 2 + t.u(30) : t.size(1u << 16), t.u(1000)));
        }
    }
    }
}
static inline Prog gen_prog(pbt::Ctx &t, const Opts &o, int kind, unsigned osr = 3) {
    Prog p;
    p.rng = t.u(1u << 30) * 2654435761u + 99;
    switch (t.u(5)) {
    case 0: p.good_base = 100; p.good_range = 900; break;
    case 1: p.good_base = 1; p.good_range = 20 + t.u(40); break;
    case 2: p.good_base = 1 + t.size(100000); p.good_range = 30 + t.size(5000); break;
    case 3: p.good_base = 1ULL << (20 + t.u(20)); p.good_range = 1000000; break;
    default: p.good_base = 40; p.good_range = 200;
    }
    bool isinit = kind == O_INIT || kind == O_INITEX;
    if (o.unit_probe && isinit && t.chance(1, 2)) {
        if (t.chance(2, 3)) { // which of the 1024 deltas of the divisor is off
            p.segs.push_back(seg(M_GOOD, L_ABS, 101 + (int64_t)(t.chance(1, 2) ? t.pick({0, 1, 1022, 1023}) : (int)t.u(1024)), PH_INIT));
            p.segs.push_back(seg(M_ODD, L_ABS, 1, PH_INIT, t.u(1u << 20)));
        } else p.segs.push_back(seg(M_FEWCH, L_ABS, 1200, PH_INIT, t.u(6), t.u(100)));
        return p;
    }
    if (o.verdict_focus && (isinit || t.chance(1, 3)) && t.chance(1, 3)) { // one verdict at its boundary
        switch (t.u(5)) {
        case 0: p.segs.push_back(seg(M_CHANGES, L_ABS, 1200, PH_INIT, (uint64_t)((int)(1024 / (t.chance(3, 4) && osr > 3 && osr <= 20 ? osr : 3 + t.u(t.chance(1, 2) ? 1 : 10))) + t.irange(-2, 2)), t.u(100))); break;
        case 1: p.segs.push_back(seg(M_NSTUCK, L_ABS, 1200, PH_INIT, (uint64_t)(103 + t.irange(-4, 4)))); break;
        case 2: {
            int n = 2 + (int)t.u(4);
            for (int i = 0; i < n; i++) {
                p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.u(i ? 230 : 300), PH_INIT));
                p.segs.push_back(seg(M_BACK, L_ABS, 1, PH_INIT, t.size(1000), 1));
            }
            break;
        }
        case 3: p.segs.push_back(seg(M_GOOD, L_ABS, 95 + (int64_t)t.u(12) + (t.chance(1, 2) ? 1015 : 0), PH_INIT));
                p.segs.push_back(seg(t.pick({(int)M_ZERO, (int)M_STAMP0, (int)M_BACK}), L_ABS, 1 + (int64_t)t.u(4), PH_INIT, 5, 1)); break;
        default: p.segs.push_back(seg(M_GOOD, L_ABS, (int64_t)t.u(1024), PH_INIT));
                 p.segs.push_back(seg(t.pick({(int)M_STUCK, (int)M_PERIOD, (int)M_BASEHIT, (int)M_ARITH}), t.pick({(int)L_RCT, (int)L_RCTP, (int)L_LAG, (int)L_LAGP, (int)L_WIN}),
                                      t.irange(-2, 12), PH_INIT, t.u(300), t.u(100)));
        }
        return p;
    }
    int pct = isinit ? (o.init_target_pct ? o.init_target_pct : o.init_attack_pct) : o.attack_pct;
    if (!t.chance(pct, 100)) return p;
    int tm = o.force_template >= 0 ? o.force_template : (int)t.u(T_NTMPL);
    if (isinit) tm = T_INIT;
    unsigned ph;
    if (isinit) ph = PH_INIT;
    else if (kind == O_ALLOC) ph = t.pick({(unsigned)PH_MEM, (unsigned)PH_SHA, (unsigned)(PH_MEM | PH_SHA | PH_NORM | PH_REC), (unsigned)PH_NORM, (unsigned)PH_REC});
    else ph = t.pick({(unsigned)PH_NORM, (unsigned)PH_NORM, (unsigned)(PH_NORM | PH_REC), (unsigned)(PH_MEM | PH_SHA | PH_NORM | PH_REC)});
    gen_attack(t, p, tm, ph, o.lead_pct);
    if (!isinit && t.chance(1, 8)) gen_attack(t, p, (int)t.u(T_NTMPL), gen_phases(t));
    return p;
}
static inline unsigned gen_flags(pbt::Ctx &t, const Opts &o) {
    unsigned f = 0;
    if (t.chance(o.fips_pct, 100)) f |= F_FIPS;
    if (t.chance(o.ntg1_pct, 100)) f |= F_NTG1;
    if (o.fipsish && !(f & (F_FIPS | F_NTG1))) f |= t.chance(o.ntg1_pct, 100) ? F_NTG1 : F_FIPS;
    if (t.chance(o.nomem_pct, 100) && (!(f & (F_FIPS | F_NTG1)) || t.chance(1, 6))) f |= F_NOMEM;
    if (t.chance(1, 10)) f |= F_CACHE_ALL;
    if (t.chance(1, 12)) f |= F_SECMEM;
    if (t.chance(o.timerflag_pct, 100)) f |= t.pick({(unsigned)F_FORCE_TIMER, (unsigned)F_NO_TIMER, (unsigned)F_NO_TIMER, (unsigned)(F_NO_TIMER | F_FORCE_TIMER)});
    if (t.chance(o.notimer_pct, 100)) f |= F_NO_TIMER;
    if (o.fixmem_pct && t.chance(o.fixmem_pct, 100)) f |= (unsigned)(4 + (t.chance(1, 8) ? t.u(10) : t.u(6))) << 27;
    else if (t.chance(1, 2)) f |= (unsigned)(t.chance(o.bigmem_pct, 100) ? 17 + t.u(15) : t.chance(1, 10) ? 1 + t.u(t.thorough ? 31 : 16) : 1 + t.u(8)) << 27;
    if (o.hash_top_pct && t.chance(o.hash_top_pct, 100)) f |= (unsigned)(5 + t.u(3)) << 24;
    else if (t.chance(o.hash_pct, 100)) f |= (unsigned)(t.chance(1, 5) ? t.u(8) : t.u(4)) << 24;
    if (t.chance(1, 25)) f |= (unsigned)t.u(4) | (unsigned)(t.u(1u << 15) << 9); // unused bits
    return f;
}
static inline unsigned gen_osr(pbt::Ctx &t, const Opts &o) {
    if (o.noise_osr) return (unsigned)o.noise_osr;
    if (t.chance(o.badosr_pct, 100)) return t.pick({21u, 22u, 100u, 0xffffffffu, 0x80000000u});
    if (t.chance(1, 2)) return (unsigned)t.u(4);
    if (t.chance(1, 12)) return 3 + (unsigned)t.u(18);
    if (o.verdict_focus && t.chance(1, 4)) return t.pick({4u, 8u, 16u}); // divisors of the number of samples
    return 3 + (unsigned)t.u((uint64_t)o.max_osr - 2);
}
static inline size_t gen_len(pbt::Ctx &t, const Opts &o) {
    if (t.chance(o.big_len_pct, 100)) return t.size(o.big_len);
    switch (t.u(6)) {
    case 0: return 32;
    case 1: return std::max(o.min_len, (size_t)t.u(34));
    case 2: return std::max(o.min_len, t.pick({(size_t)0, (size_t)1, (size_t)31, (size_t)33, (size_t)63, (size_t)64, (size_t)65, (size_t)96}));
    default: return std::max(o.min_len, (size_t)t.u(o.max_len + 1));
    }
}

struct Env {
    long l1 = 0, l2 = 0, l3 = 0;
    int ncpu = 0;               // 0: the real machine
};
static inline unsigned roundup(uint64_t v) {
    if (!v) return 0;
    uint64_t r = 1;
    while (r <= v) r <<= 1;
    return (unsigned)r;
}

struct History {
    World w;
    Env env;
    std::vector<Op> ops;
    std::vector<ECp> slots;
    bool cb = false, sysfips = false, status_sizes = false;
};

static inline const char *opname(int k) {
    static const char *n[] = {"init", "init_ex", "alloc", "read", "safe", "free", "selftest", "status", "kat", "gcdfault"};
    return n[k];
}

static inline void describe(pbt::Ctx &t, const Op &op, const Prog &p) {
    t.note("%s", opname(op.kind));
    if (op.kind == O_INITEX || op.kind == O_ALLOC) t.note("(osr=%u,flags=0x%x)", op.osr, op.flags);
    else if (op.kind == O_READ || op.kind == O_SAFE) t.note("(#%d,%zu)", op.slot, op.len);
    else t.note("(#%d)", op.slot);
    if (!p.segs.empty()) {
        t.note("[");
        for (auto &s : p.segs) t.note("m%d:%s%lld/p%x ", s.mode, s.lk ? "c" : "", (long long)s.off, s.phases);
        t.note("]");
    }
    t.note("=%d; ", op.ret);
}

// Generates one op and applies it to the model.
static inline void apply_model(pbt::Ctx &t, History &H, Op &op, Prog &prog, bool quiet = false) {
    World &w = H.w;
    w.prog = &prog;
    w.cblog.clear();
    switch (op.kind) {
    case O_INIT: op.ret = w.init(); break;
    case O_INITEX: op.ret = w.init_ex(op.osr, op.flags); break;
    case O_ALLOC: {
        ECp e = w.alloc_outer(op.osr, op.flags);
        op.slot = (int)H.slots.size();
        H.slots.push_back(e);
        op.ret = e ? 1 : 0;
        break;
    }
    case O_READ:
        w.poison_at = op.poison;
        op.ret = w.read(H.slots[op.slot], op.out, op.len);
        w.poison(*H.slots[op.slot]);
        w.poison_at = SIZE_MAX;
        break;
    case O_SAFE: op.ret = w.safe(H.slots[op.slot], op.out, op.len); break;
    case O_FREE: H.slots[op.slot] = nullptr; break;
    case O_SELFTEST:
        op.ret = w.kat_fail ? I_HASH : 0;
        if (w.kat_fail && !op.nullec) H.slots[op.slot]->selftest_failed = true;
        break;
    case O_KAT: w.kat_fail = op.on; break;
    case O_GCDF: w.gcd_fail = op.on; break;
    case O_STATUS: break;
    }
    op.trace_end = w.trace.size();
    op.gens_end = w.gens.size();
    op.digs_end = w.digs.size();
    op.cb = w.cblog;
    if (op.kind != O_FREE && op.slot < (int)H.slots.size() && H.slots[op.slot]) {
        std::vector<Rec> log;
        if (w.keep_gens) {
            auto &l = H.slots[op.slot]->log;
            for (size_t k = l.size() > 4 ? l.size() - 4 : 0; k < l.size(); k++)
                if (l[k].cnt) { op.pending.emplace_back(); World::hash_loop(l[k], op.pending.back().data()); }
        }
        log.swap(H.slots[op.slot]->log); // the snapshot needs the state, not the pending measurements
        op.snap = *H.slots[op.slot];
        log.swap(H.slots[op.slot]->log);
        op.alive = true;
    }
    w.prog = nullptr;
    if (!quiet) describe(t, op, prog);
    H.ops.push_back(op);
}

static inline std::vector<int> alive(History &H) {
    std::vector<int> v;
    for (size_t i = 0; i < H.slots.size(); i++) if (H.slots[i]) v.push_back((int)i);
    return v;
}

static inline void gen_env(pbt::Ctx &t, const Opts &o, History &H) {
    World &w = H.w;
    H.sysfips = w.sysfips = t.chance(o.sysfips_pct, 100);
    H.cb = w.has_cb = t.chance(o.cb_pct, 100);
    w.cb_kat = t.chance(o.cbkat_pct, 100);
    H.status_sizes = o.status_sizes;
    if (t.chance(o.ncpu_pct, 100)) H.env.ncpu = 1 + (int)t.size(70);
    if (t.chance(o.cache_pct, 100)) {
        H.env.l1 = t.pick({16384L, 32768L, 49152L, 65536L, 1024L, 200L});
        H.env.l2 = t.pick({0L, 262144L, 131072L});
        H.env.l3 = t.pick({0L, 524288L});
    }
    w.cache_l1 = roundup((uint64_t)H.env.l1);
    w.cache_all = roundup((uint64_t)(H.env.l1 + H.env.l2 + H.env.l3));
    w.start = t.chance(1, 2) ? 1000000 + t.u(1u << 30) : t.pick({(uint64_t)1000, (uint64_t)1 << 40, (uint64_t)0 - 3000000, (uint64_t)0 - 100000000, (uint64_t)1 << 63});
    if (o.unit_focus ? t.chance(4, 5) : t.chance(1, 4))
        w.unit = !o.unit_focus ? t.pick({(uint64_t)2, (uint64_t)3, (uint64_t)24, (uint64_t)100, (uint64_t)1000, (uint64_t)1000000})
                 : t.pick({(uint64_t)2, (uint64_t)3, (uint64_t)10, (uint64_t)24, (uint64_t)41, (uint64_t)100, (uint64_t)1000, (uint64_t)4096, (uint64_t)1000000,
                         (uint64_t)2147483646, (uint64_t)2147483647, (uint64_t)2147483648u, (uint64_t)5000000000ULL});
    w.wrng = t.u(1u << 30) + 7;
    w.perm_budget = o.perm_budget * (t.thorough ? 4 : 1);
}

// A caller that keeps reading from a collector whose read failed, while the clock
// stays bad: every further read takes one measurement, so that further health
// tests join the failure mask and intermittent failures become permanent ones.
static inline void gen_hammer(pbt::Ctx &t, const Opts &o, History &H, int slot) {
    Prog p;
    p.rng = t.u(1u << 30) + 5;
    int parts = 1 + (int)t.u(3);
    int last = H.ops.back().ret;
    if (t.chance(1, 2)) { // the same test until its permanent cutoff
        int m = last == R_LAG ? (int)M_FOLLOW : last == R_APT ? (int)M_BASEHIT : (int)M_STUCK;
        p.segs.push_back(seg(m, last == R_LAG ? (int)L_LAGP : last == R_APT ? (int)L_WIN : (int)L_RCTP, t.irange(-2, 4), PH_ALL, 5000));
    } else for (int i = 0; i < parts; i++) {
        int m = t.pick({(int)M_STUCK, (int)M_FOLLOW, (int)M_BASEHIT, (int)M_ARITH, (int)M_LAGHIT, (int)M_STICKMIX, (int)M_ZERO});
        p.segs.push_back(seg(m, t.pick({(int)L_ABS, (int)L_RCT, (int)L_RCTP, (int)L_LAG, (int)L_LAGP, (int)L_APT}), t.chance(1, 2) ? t.irange(-3, 3) : (int64_t)t.u(40),
                             PH_ALL, m == M_LAGHIT || m == M_BASEHIT ? (t.chance(1, 2) ? 5000 : t.u(100)) : t.u(100), t.u(1000)));
        if (t.chance(1, 4)) p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.u(5), PH_ALL));
    }
    int n = t.chance(1, 4) ? 1 + (int)t.u(4) : 8 + (int)t.u(t.chance(1, 3) ? 260 : 110);
    size_t len = 1 + t.u(40);
    if (t.chance(1, 6)) len = 0;
    bool mix = o.hammer_mix && alive(H).size() > 1 && t.chance(2, 3);
    int every = 5 + (int)t.u(40);
    for (int i = 0; i < n && p.i < p.segs.size(); i++) {
        Op op;
        op.kind = O_READ;
        op.slot = slot;
        op.len = len;
        apply_model(t, H, op, p, i != 0);
        if (op.ret >= 0) break;
        if (mix && (i % every) == every - 1) { // another collector is used in between
            std::vector<int> al = alive(H);
            int other = al[t.u(al.size())];
            if (other == slot) continue;
            Op r;
            r.kind = O_READ;
            r.slot = other;
            r.len = 1 + t.u(33);
            Prog g;
            g.rng = t.u(1u << 30) + 11;
            apply_model(t, H, r, g, true);
            if (r.ret < 0) mix = false;
        }
    }
    t.note("(reads again, %d times at most, last %d) ", n, H.ops.back().ret);
    if (t.chance(1, 2)) {
        Op op;
        op.kind = O_SAFE;
        op.slot = slot;
        op.len = 1 + t.u(40);
        apply_model(t, H, op, p);
    }
}

static inline void gen_history(pbt::Ctx &t, const Opts &o, History &H) {
    gen_env(t, o, H);
    int n = o.min_ops + (int)t.u((uint64_t)(o.max_ops - o.min_ops + 1));
    if (!t.chance(o.skip_init_pct, 100)) {
        Op op;
        op.kind = t.chance(o.init_first_pct, 100) ? O_INIT : O_INITEX;
        op.osr = gen_osr(t, o);
        op.flags = gen_flags(t, o);
        Prog p = gen_prog(t, o, op.kind, op.osr);
        apply_model(t, H, op, p);
    }
    for (int i = 0; i < n; i++) {
        std::vector<int> al = alive(H);
        Op op;
        int wsum = o.w_read + o.w_safe + o.w_free + o.w_status + o.w_alloc + o.w_init + o.w_selftest + o.w_katf;
        int r = (int)t.u((uint64_t)wsum);
        int kind;
        if (al.empty()) kind = t.chance(1, 12) ? O_INITEX : O_ALLOC;
        else if ((r -= o.w_read) < 0) kind = O_READ;
        else if ((r -= o.w_safe) < 0) kind = O_SAFE;
        else if ((r -= o.w_status) < 0) kind = O_STATUS;
        else if ((r -= o.w_alloc) < 0) kind = O_ALLOC;
        else if ((r -= o.w_init) < 0) kind = t.chance(1, 3) ? O_INIT : O_INITEX;
        else if ((r -= o.w_free) < 0) kind = O_FREE;
        else if ((r -= o.w_selftest) < 0) kind = O_SELFTEST;
        else kind = t.chance(2, 3) ? O_KAT : O_GCDF;
        if (kind == O_ALLOC && (int)al.size() >= o.max_slots) kind = O_READ;
        op.kind = kind;
        if (!al.empty()) op.slot = al[t.u(al.size())];
        if (kind == O_ALLOC || kind == O_INITEX) { op.osr = gen_osr(t, o); op.flags = gen_flags(t, o); }
        if (kind == O_READ || kind == O_SAFE) op.len = gen_len(t, o);
        if (kind == O_READ && t.chance(o.poison_pct, 100)) op.poison = H.w.trace.size() + (t.chance(1, 3) ? t.size(60000) : t.u(1500 * (op.len / 32 + 1)));
        if (kind == O_STATUS) op.len = t.u(1u << 30);
        if (kind == O_SELFTEST) op.nullec = t.chance(1, 3);
        if (kind == O_KAT) op.on = !H.w.kat_fail;
        if (kind == O_GCDF) op.on = !H.w.gcd_fail;
        if (o.unit_probe && t.chance(1, 4)) H.w.unit = t.pick({(uint64_t)1, (uint64_t)2, (uint64_t)3, (uint64_t)4, (uint64_t)6, (uint64_t)8});
        Prog p;
        if (kind != O_FREE && kind != O_STATUS && kind != O_SELFTEST && kind != O_KAT && kind != O_GCDF) p = gen_prog(t, o, kind, op.osr);
        apply_model(t, H, op, p);
        if ((kind == O_READ || (o.hammer_safe && kind == O_SAFE)) && op.ret < -1 && op.ret != R_SELFTEST && t.chance(o.hammer_pct, 100)) gen_hammer(t, o, H, op.slot);
    }
}

// --------------------------------------------------------------- execute ----
struct Run {
    const std::vector<uint64_t> *trace = nullptr;
    size_t idx = 0;
    uint64_t tail = 0, tk = 0, last = 0;
    std::vector<std::pair<void *, unsigned>> cb;
    uint64_t cbcalls = 0;
    bool cb_kat = false;
    size_t poison = SIZE_MAX;
    struct rand_data *poison_ec = nullptr;
};
static Run R;

static void hard_fail(const char *msg) {
    if (pbt::cur) {
        snprintf(pbt::cur->slot->msg, sizeof(pbt::cur->slot->msg), "%s", msg);
        pbt::cur->slot->state = 2;
    }
    _exit(0);
}
static void failing_selftest(struct rand_data *ec) {
    bool old = shim::S.kat_fail;
    shim::S.kat_fail = true;
    int r = jent_selftest(ec);
    shim::S.kat_fail = old;
    if (!r) hard_fail("a failing known-answer test was reported as passed");
}
static void mock(void *, uint64_t *out) {
    if (R.idx == R.poison && R.poison_ec) failing_selftest(R.poison_ec);
    if (R.idx < R.trace->size()) { *out = R.last = (*R.trace)[R.idx++]; return; }
    R.idx++;
    if (R.idx > R.trace->size() + 4000000) hard_fail("library keeps reading the clock long past what the operation needs");
    R.tk++;
    R.tail += 1000 + (R.tk * R.tk * 2654435761u >> 7) % 5000;
    *out = R.last + R.tail;
}
static void fail_cb(struct rand_data *ec, unsigned int mask) {
    R.cbcalls++;
    if (R.cb_kat) failing_selftest(ec);
    std::pair<void *, unsigned> r(ec, mask);
    if (R.cb.empty() || R.cb.back().second != r.second) R.cb.push_back(r);
}
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
static int nt_init(void **ctx) { *ctx = nullptr; return -1; }
static void nt_fini(void *) {}
static int nt_start(void *, jent_notime_start_routine, void *) { return -1; }
static void nt_stop(void *) {}
static struct jent_notime_thread nt_fail = {nt_init, nt_fini, nt_start, nt_stop};
#endif

struct Checks { // which observations are compared (all by default)
    bool output = true, consumed = true, cb = true, status = true, wipe = true;
};

static inline std::string hex(const uint8_t *p, size_t n) {
    std::string s;
    char b[3];
    for (size_t i = 0; i < n && i < 40; i++) { snprintf(b, 3, "%02x", p[i]); s += b; }
    return s;
}

// expected status document fields
static inline void check_status(pbt::Ctx &t, const EC &e, const Env &env, const std::string &doc, const char *uuid) {
    Json j;
    if (!j.parse(doc)) t.fail("status is not valid JSON: %s\n%s", j.err.c_str(), doc.c_str());
    auto eq = [&](const char *k, const std::string &v) {
        if (j.get(k) != v) t.fail("status field %s is %s, expected %s", k, j.get(k).c_str(), v.c_str());
    };
    auto b = [](bool x) { return std::string(x ? "true" : "false"); };
    auto n = [](uint64_t x) { return std::to_string(x); };
    char ver[40];
    snprintf(ver, sizeof(ver), "%d.%d.%d", JENT_MAJVERSION, JENT_MINVERSION, JENT_PATCHLEVEL);
    eq("version", ver);
    if (uuid) eq("uuid", uuid);
    eq("reinitializations", n(e.reinit));
    eq("output.invocations", n(e.inv));
    eq("output.bytes", n(e.bytes));
    eq("output.bits", n(e.bytes * 8));
    unsigned f = e.h.failure;
    eq("healthFailure.rct.intermittent", b(f & B_RCT));
    eq("healthFailure.rct.permanent", b(f & (B_RCT << PERM)));
    eq("healthFailure.apt.intermittent", b(f & B_APT));
    eq("healthFailure.apt.permanent", b(f & (B_APT << PERM)));
    eq("healthFailure.lag.intermittent", b(f & B_LAG));
    eq("healthFailure.lag.permanent", b(f & (B_LAG << PERM)));
    eq("healthFailure.rctMemory.intermittent", b(f & B_RCTMEM));
    eq("healthFailure.rctMemory.permanent", b(f & (B_RCTMEM << PERM)));
    eq("runtimeEnvironment.cpuCache.l1Bytes", n(roundup((uint64_t)env.l1)));
    eq("runtimeEnvironment.cpuCache.allBytes", n(roundup((uint64_t)(env.l1 + env.l2 + env.l3))));
    if (env.ncpu) eq("runtimeEnvironment.cpuCores", n((uint64_t)env.ncpu));
    eq("configuration.osr", n(e.osr));
    unsigned mf = mem_field(e.flags) > 20 ? 20 : mem_field(e.flags);
    eq("configuration.memoryBlockSizeBytes", n(mf ? 1u << (mf + 9) : 1u << 18));
    eq("configuration.hashLoopCount.runtime", n(1u << hash_field(e.flags)));
    eq("configuration.hashLoopCount.initialization", n(3u << hash_field(e.flags)));
    eq("configuration.memoryLoopCount.runtime", n(e.mem ? 128 : 0));
    eq("configuration.memoryLoopCount.initialization", n(e.mem ? 384 : 0));
    eq("configuration.secureMemory", b(e.flags & F_SECMEM));
    eq("configuration.internalTimer", "false");
    eq("configuration.mockedTimerBuild", "true");
    eq("configuration.mockedTimerActive", "true");
    eq("configuration.fipsMode", b(e.fips));
    eq("configuration.ntg1Mode", b(e.flags & F_NTG1));
    eq("configuration.flags.JENT_DISABLE_MEMORY_ACCESS", b(e.flags & F_NOMEM));
    eq("configuration.flags.JENT_FORCE_INTERNAL_TIMER", b(e.flags & F_FORCE_TIMER));
    eq("configuration.flags.JENT_DISABLE_INTERNAL_TIMER", b(e.flags & F_NO_TIMER));
    eq("configuration.flags.JENT_FORCE_FIPS", b(e.flags & F_FIPS));
    eq("configuration.flags.JENT_NTG1", b(e.flags & F_NTG1));
    eq("configuration.flags.JENT_CACHE_ALL", b(e.flags & F_CACHE_ALL));
    eq("configuration.flags.JENT_FORCE_SECURE_MEM", b(e.flags & F_SECMEM));
}

// the same document into buffers of other sizes; rng only selects sizes
static inline void check_status_sizes(pbt::Ctx &t, const struct rand_data *e, const std::string &doc, uint64_t rng) {
    size_t need = doc.size() + 1;
    std::vector<size_t> sz = {0, 1, 2, 3, need - 2, need - 1, need, need + 1, need + 2, need * 2};
    for (int k = 0; k < 25; k++) sz.push_back((size_t)(pbt::splitmix(rng) % (need + 3)));
    if (jent_status(e, nullptr, 0) == 0) t.fail("status into no buffer succeeded");
    if (jent_status(e, nullptr, 100) == 0) t.fail("status into no buffer succeeded");
    for (size_t n : sz) {
        char *raw = (char *)malloc(n + 64);
        memset(raw, 0x5c, n + 64);
        char *b = raw + 32;
        int r = jent_status(e, b, n);
        for (int k = 0; k < 32; k++)
            if (raw[k] != 0x5c || b[n + k] != 0x5c) t.fail("status wrote outside its buffer of %zu bytes", n);
        if (n == 0) { if (!r) t.fail("status into an empty buffer succeeded"); free(raw); continue; }
        size_t l = strnlen(b, n);
        if (l == n) t.fail("status into %zu bytes is not terminated", n);
        if (!r && doc != b) t.fail("status into %zu bytes reported success for an incomplete document (%zu of %zu bytes)", n, l, doc.size());
        if (r && n > need) t.fail("status into %zu bytes failed although the document needs %zu", n, need);
        if (r && doc.compare(0, l, b)) t.fail("truncated status into %zu bytes is not a prefix of the document", n);
        free(raw);
    }
}

static inline void env_setup(const Env &env, bool sysfips) {
    shim::S.track = true;
    shim::S.vsysfs = true;
    shim::S.sysconf_over[_SC_LEVEL1_DCACHE_SIZE] = env.l1;
    shim::S.sysconf_over[_SC_LEVEL2_CACHE_SIZE] = env.l2;
    shim::S.sysconf_over[_SC_LEVEL3_CACHE_SIZE] = env.l3;
    shim::S.sysconf_over[_SC_NPROCESSORS_CONF] = 1;
    if (env.ncpu) {
        shim::S.vcpus = true;
        shim::S.cpu_kernel_bits = 128;
        for (int i = 0; i < env.ncpu; i++) shim::S.cpus.push_back(i);
    }
    if (sysfips) { shim::VFile f; f.data = "1\n"; shim::S.files["/proc/sys/crypto/fips_enabled"] = f; }
}

// where the library is called (a dedicated stack, for instance) and what to look at afterwards
static void (*call_on)(const std::function<void()> &) = nullptr;
static void (*post_op)(pbt::Ctx &, History &, size_t) = nullptr;
static inline void lib(const std::function<void()> &f) { if (call_on) call_on(f); else f(); }

static inline void execute(pbt::Ctx &t, History &H, const Checks &c = Checks()) {
    env_setup(H.env, H.sysfips);
    R = Run();
    R.trace = &H.w.trace;
    R.cb_kat = H.w.cb_kat;
    jent_set_mock_timer(mock, nullptr);
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
    if (jent_entropy_switch_notime_impl(&nt_fail)) t.fail("registering a complete timer handler before initialization was refused");
#endif
    if (H.cb && jent_set_fips_failure_callback(fail_cb)) t.fail("registering the failure callback before initialization was refused");
    std::vector<struct rand_data *> ec(H.slots.size(), nullptr);
    std::vector<std::string> uuid(H.slots.size());
    for (size_t i = 0; i < H.ops.size(); i++) {
        Op &op = H.ops[i];
        R.cb.clear();
        R.cbcalls = 0;
        int ret = op.ret;
        struct rand_data *target = op.slot < (int)ec.size() ? ec[op.slot] : nullptr;
        switch (op.kind) {
        case O_INIT: lib([&] { ret = jent_entropy_init(); }); break;
        case O_INITEX: lib([&] { ret = jent_entropy_init_ex(op.osr, op.flags); }); break;
        case O_ALLOC: {
            struct rand_data *e = nullptr;
            lib([&] { e = jent_entropy_collector_alloc(op.osr, op.flags); });
            ec[op.slot] = target = e;
            ret = e ? 1 : 0;
            if (e) {
                char u[64];
                if (jent_uuid(e, u, sizeof(u))) t.fail("op %zu: no identifier after allocation", i);
                uuid[op.slot] = u;
                for (size_t k = 0; k < uuid.size(); k++)
                    if ((int)k != op.slot && uuid[k] == u) t.fail("op %zu: two collectors share the identifier %s", i, u);
            }
            break;
        }
        case O_READ:
        case O_SAFE: {
            const size_t G = 48;
            std::vector<uint8_t> buf(op.len + 2 * G), orig;
            for (size_t k = 0; k < buf.size(); k++) buf[k] = (uint8_t)(0x5a + k * 37 + i);
            orig = buf;
            struct rand_data *e = ec[op.slot];
            R.poison = op.poison;
            R.poison_ec = op.kind == O_READ ? e : nullptr;
            if (op.kind == O_READ) lib([&] { ret = (int)jent_read_entropy(e, (char *)buf.data() + G, op.len); });
            else {
                lib([&] { ret = (int)jent_read_entropy_safe(&ec[op.slot], (char *)buf.data() + G, op.len); });
                if (!ec[op.slot]) t.fail("op %zu: safe read lost the collector", i);
            }
            R.poison = SIZE_MAX;
            for (size_t k = 0; k < G; k++)
                if (buf[k] != orig[k] || buf[G + op.len + k] != orig[G + op.len + k])
                    t.fail("op %zu: %s wrote outside the caller's buffer of %zu bytes", i, opname(op.kind), op.len);
            if (ret == op.ret && c.output) {
                if (ret >= 0) {
                    if (op.out.size() != op.len || (op.len && memcmp(buf.data() + G, op.out.data(), op.len)))
                        t.fail("op %zu: %s of %zu bytes differs from the reference: got %s expected %s", i, opname(op.kind), op.len,
                               hex(buf.data() + G, op.len).c_str(), hex(op.out.data(), op.out.size()).c_str());
                } else
                    for (size_t k = 0; k < op.len; k++)
                        if (buf[G + k] != orig[G + k] && buf[G + k] != 0)
                            t.fail("op %zu: %s failed with %d but left generated data in the buffer (byte %zu of %zu)", i, opname(op.kind), ret, k, op.len);
            } else if (ret < 0) {
                for (size_t k = 0; k < op.len; k++)
                    if (buf[G + k] != orig[G + k] && buf[G + k] != 0)
                        t.fail("op %zu: %s failed with %d but left generated data in the buffer", i, opname(op.kind), ret);
            }
            if (op.kind == O_SAFE) {
                char u[64];
                if (jent_uuid(ec[op.slot], u, sizeof(u)) || uuid[op.slot] != u) t.fail("op %zu: safe read changed the identifier", i);
            }
            break;
        }
        case O_FREE:
            jent_entropy_collector_free(ec[op.slot]);
            ec[op.slot] = nullptr;
            break;
        case O_SELFTEST: ret = jent_selftest(op.nullec ? nullptr : ec[op.slot]); break;
        case O_KAT: shim::S.kat_fail = op.on; break;
        case O_GCDF: shim::S.gcd_fail = op.on; break;
        case O_STATUS: {
            std::vector<char> b(8192, 'x');
            if (jent_status(ec[op.slot], b.data(), b.size())) t.fail("op %zu: status failed", i);
            if (c.status) check_status(t, op.snap, H.env, b.data(), uuid[op.slot].c_str());
            if (H.status_sizes) check_status_sizes(t, ec[op.slot], std::string(b.data()), op.len);
            break;
        }
        }
        if (ret != op.ret)
            t.fail("op %zu: %s(osr=%u flags=0x%x len=%zu) returned %d, expected %d (clock readings used %zu, expected %zu)", i,
                   opname(op.kind), op.osr, op.flags, op.len, ret, op.ret, R.idx, op.trace_end);
        if (c.consumed && R.idx != op.trace_end)
            t.fail("op %zu: %s consumed %zu clock readings in total, expected %zu", i, opname(op.kind), R.idx, op.trace_end);
        if (c.cb && H.cb) {
            if (R.cb.size() != op.cb.size()) t.fail("op %zu: %s: %zu distinct failure callbacks, expected %zu", i, opname(op.kind), R.cb.size(), op.cb.size());
            for (size_t k = 0; k < R.cb.size(); k++)
                if (R.cb[k].second != op.cb[k].second)
                    t.fail("op %zu: %s: failure callback with mask 0x%x, expected 0x%x", i, opname(op.kind), R.cb[k].second, op.cb[k].second);
            if (op.kind == O_READ)
                for (auto &x : R.cb)
                    if (x.first != (void *)target) t.fail("op %zu: failure callback names another collector", i);
        }
        if (post_op) post_op(t, H, i);
        // status after every operation on a live collector
        if (c.status && op.alive && op.kind != O_STATUS && op.slot < (int)ec.size() && ec[op.slot]) {
            std::vector<char> b(6000, 'x');
            if (jent_status(ec[op.slot], b.data(), b.size())) t.fail("op %zu: status failed", i);
            check_status(t, op.snap, H.env, b.data(), uuid[op.slot].c_str());
        }
    }
    for (auto e : ec) jent_entropy_collector_free(e);
    if (c.wipe) {
        if (shim::live_maps()) t.fail("%zu mappings still allocated after every collector was freed", shim::live_maps());
        if (shim::S.dirty_unmap) t.fail("released memory was not wiped: %s", shim::S.dirty_msg.c_str());
        if (shim::S.bad_unmap) t.fail("unmapped something that is not one whole mapping");
    }
    jent_set_mock_timer(nullptr, nullptr);
}

// labels + fingerprint of a generated history
static inline void account(pbt::Ctx &t, History &H) {
    World &w = H.w;
    t.fp(w.trace.size());
    for (auto &o : H.ops) { t.fp((uint64_t)o.kind * 1000 + (uint64_t)(o.ret + 50)); t.fp(o.flags ^ ((uint64_t)o.osr << 32)); t.fp(o.trace_end); }
    if (!w.trace.empty()) t.fp(w.trace.back());
    if (w.seen_fail & B_RCT) t.label("rct");
    if (w.seen_fail & B_APT) t.label("apt");
    if (w.seen_fail & B_LAG) t.label("lag");
    if (w.seen_fail & B_RCTMEM) t.label("rctmem");
    if (w.seen_fail & (B_RCT << PERM)) t.label("rct-permanent");
    if (w.seen_fail & (B_APT << PERM)) t.label("apt-permanent");
    if (w.seen_fail & (B_LAG << PERM)) t.label("lag-permanent");
    if (w.seen_fail & (B_RCTMEM << PERM)) t.label("rctmem-permanent");
    if (w.n_recover) t.label("rctmem-recovery");
    if (w.n_ladder) t.label("ladder");
    if (w.n_ladder > 1) t.label("ladder>=2");
    if (w.n_startup_reset) t.label("startup-reset");
    for (auto &o : H.ops) {
        if ((o.kind == O_READ || o.kind == O_SAFE) && o.ret < 0) { char b[40]; snprintf(b, 40, "%s=%d", opname(o.kind), o.ret); t.label(b); }
        if ((o.kind == O_INIT || o.kind == O_INITEX) && o.ret) { char b[40]; snprintf(b, 40, "init=%d", o.ret); t.label(b); }
        if (o.kind == O_ALLOC && !o.ret) t.label("alloc-refused");
    }
}

static inline void run_history(pbt::Ctx &t, const Opts &o, bool (*interesting)(History &), const Checks &c = Checks()) {
    History H;
    try {
        gen_history(t, o, H);
    } catch (Budget &) {
        t.discard();
    }
    account(t, H);
    execute(t, H, c);
    if (!interesting || interesting(H)) t.nontrivial();
}

} // namespace sim
