// Reference model of the library: written from the documented behaviour
// (doc/, README, SP800-90B, XDRBG paper), used as the oracle of every
// simulation based property. The model runs first: it draws each time delta
// from a model-aware "delta program" and records the clock readings the
// library is then given through the mock timer.
#pragma once
#include <array>
#include "pbt.hpp"
#include "keccak.hpp"
#include "cutoffs.hpp"
#include <memory>
#include <string>
#include <vector>

namespace model {

// public interface constants, restated
enum {
    F_NOMEM = 1 << 2, F_FORCE_TIMER = 1 << 3, F_NO_TIMER = 1 << 4, F_FIPS = 1 << 5, F_NTG1 = 1 << 6,
    F_CACHE_ALL = 1 << 7, F_SECMEM = 1 << 8
};
enum {
    R_EINVAL = -1, R_RCT = -2, R_APT = -3, R_NOTIME = -4, R_LAG = -5, R_RCT_P = -6, R_APT_P = -7, R_LAG_P = -8,
    R_RCTMEM = -9, R_RCTMEM_P = -10, R_SELFTEST = -11
};
enum {
    I_NOTIME = 1, I_COARSE = 2, I_NOMONO = 3, I_MINVAR = 6, I_STUCK = 8, I_HEALTH = 9, I_RCT = 10, I_HASH = 11,
    I_MEM = 12, I_GCD = 13
};
enum { B_RCT = 1, B_APT = 2, B_LAG = 4, B_RCTMEM = 8, PERM = 16 };

static inline unsigned mem_field(unsigned flags) { return flags >> 27; }
static inline unsigned hash_field(unsigned flags) { return (flags >> 24) & 7; }

// --------------------------------------------------------------- health ----
struct Health {
    unsigned osr = 3;
    bool ntg1 = false;
    unsigned failure = 0;
    // cutoffs
    unsigned rct_cut = 0, rct_cut_p = 0, apt_cut = 0, apt_cut_p = 0, rm_cut = 0, rm_cut_p = 0;
    unsigned lag_l = 0, lag_lp = 0, lag_g = 0, lag_gp = 0;
    // RCT
    unsigned rct_count = 0;
    // APT
    bool apt_set = false;
    unsigned apt_obs = 0, apt_count = 0;
    uint64_t apt_base = 0;
    // lag
    unsigned run = 0, succ = 0, best = 0, obs = 0;
    unsigned score[8] = {0};
    uint64_t hist[8] = {0};
    // RCT with memory
    unsigned rm_ctr = 0, rm_nosr = 0, rm_count = 0;

    void init_cutoffs() {
        rct_count = 0;
        lag_l = cut_lag_local[osr - 1]; lag_lp = cut_lag_local_perm[osr - 1];
        lag_g = cut_lag_global[osr - 1]; lag_gp = cut_lag_global_perm[osr - 1];
        if (ntg1) {
            apt_cut = cut_apt_ntg1[osr - 1]; apt_cut_p = cut_apt_perm_ntg1[osr - 1];
            rm_cut = cut_rctmem_ntg1[osr - 1]; rm_cut_p = cut_rctmem_perm_ntg1[osr - 1];
            rct_cut = (30 * osr + 7) / 8; rct_cut_p = (60 * osr + 7) / 8;
        } else {
            apt_cut = cut_apt_common[osr - 1]; apt_cut_p = cut_apt_perm_common[osr - 1];
            rm_cut = cut_rctmem_common[osr - 1]; rm_cut_p = cut_rctmem_perm_common[osr - 1];
            rct_cut = 30 * osr; rct_cut_p = 60 * osr;
        }
    }
    uint64_t h(unsigned back) const { return hist[(obs - back - 1) & 7]; } // back 0: previous delta
    uint64_t prediction() const { return h(best); }
    bool would_stick(uint64_t d) const {
        uint64_t d2 = d - h(0), p2 = h(0) - h(1);
        return !d || !d2 || !(d2 - p2);
    }
    void apt(uint64_t d) {
        if (!apt_set) { apt_set = true; apt_base = d; apt_count = 1; apt_obs = 1; return; }
        if (d == apt_base) {
            apt_count++;
            if (apt_count >= apt_cut_p) failure |= B_APT << PERM;
            else if (apt_count == apt_cut) failure |= B_APT;
        }
        if (++apt_obs >= 512) apt_set = false;
    }
    void lag(uint64_t d) {
        if (obs < 8) { hist[obs++] = d; return; }
        if (prediction() == d) {
            succ++; run++;
            if (run >= lag_lp || succ >= lag_gp) failure |= B_LAG << PERM;
            else if (run >= lag_l || succ >= lag_g) failure |= B_LAG;
        } else run = 0;
        for (unsigned i = 0; i < 8; i++)
            if (h(i) == d) { score[i]++; if (score[i] > score[best]) best = i; }
        hist[obs & 7] = d;
        if (++obs >= (1u << 17)) {
            run = succ = best = obs = 0;
            for (int i = 0; i < 8; i++) score[i] = 0, hist[i] = 0;
        }
    }
    void rct(bool stuck) {
        if (!stuck) { rct_count = 0; return; }
        rct_count++;
        if (rct_count >= rct_cut_p) failure |= B_RCT << PERM;
        else if (rct_count == rct_cut) failure |= B_RCT;
    }
    // everything but the RCT with memory
    bool insert(uint64_t d) {
        bool s = would_stick(d);
        apt(d); lag(d); rct(s);
        return s;
    }
};

// -------------------------------------------------------- delta programs ----
enum Phase { PH_INIT = 1, PH_MEM = 2, PH_SHA = 4, PH_NORM = 8, PH_REC = 16, PH_ALL = 31 };
enum Mode { M_GOOD, M_STUCK, M_ZERO, M_ARITH, M_RANGE, M_BASEHIT, M_PERIOD, M_MEMSTUCK, M_BACK, M_STAMP0, M_HUGE,
            M_STICKMIX, M_CONST, M_TINY, M_CHANGES, M_NSTUCK, M_LAGHIT, M_FOLLOW, M_NMODES,
            M_ODD, M_FEWCH };
enum LenKind { L_ABS, L_RCT, L_RCTP, L_LAG, L_LAGP, L_APT, L_APTP, L_NOSR, L_WIN };

struct Seg {
    int mode = M_GOOD;
    int lk = L_ABS;
    int64_t off = 1;
    uint64_t a = 0, b = 0;
    unsigned phases = PH_ALL;
    bool resolved = false;
    uint64_t left = 0;
    uint64_t pos = 0;
};

struct EC;

struct Prog {
    std::vector<Seg> segs;
    size_t i = 0;
    uint64_t rng = 1;
    uint64_t good_base = 100, good_range = 900;
};

struct Budget {};

// one measurement to be mixed in; evaluated only when output is generated
struct Rec {
    uint64_t delta, cnt, apt_base;
    uint32_t rct_count, apt_cut, apt_obs, apt_count;
    uint16_t rm_count;
    uint8_t sep;
};

struct EC {
    int id = 0;
    std::vector<Rec> log;
    unsigned osr = 3, flags = 0;
    bool max_mem_set = false, mem = false, fips = false, in_rec = false, notime = false;
    int startup = 0;            // 2 memory, 1 sha3, 0 completed
    unsigned hashloop = 1;
    Health h;
    uint64_t prev = 0, gcd = 1;
    ref::Sponge pool;
    bool seeded = false;
    unsigned reinit = 0;
    uint64_t inv = 0, bytes = 0;
    bool selftest_failed = false;
    void *real = nullptr;
    uint64_t cb_seen = 0;
    uint64_t acc = 0, acc_walk = 0; // updates of the memory so far, and those by the walk of the memory stage
};
typedef std::shared_ptr<EC> ECp;

struct World {
    // environment
    bool sysfips = false;
    unsigned cache_l1 = 0, cache_all = 0;   // what the cache query rounds to
    bool kat_fail = false, gcd_fail = false;
    bool has_cb = false;
    bool cb_kat = false;            // the callback runs a failing bound self test
    size_t poison_at = SIZE_MAX;    // clock reading during which a bound self test fails
    uint64_t unit = 1;
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
    static const bool itimer = true;
#else
    static const bool itimer = false;
#endif
    uint64_t perm_budget = 1500000, cost = 0;
    // process state
    bool selftest_run = false, forced = false, gcd_set = false, blocked = false;
    uint64_t gcd = 0;
    int next_id = 1;
    // clock
    Prog *prog = nullptr;
    std::vector<uint64_t> trace;
    uint64_t now = 0, start = 0;
    uint64_t wrng = 12345;
    uint64_t measures = 0;
    // callback log, consecutive duplicates removed
    std::vector<std::pair<int, unsigned>> cblog;
    // statistics for non-triviality rules
    unsigned seen_fail = 0;        // union of failure bits raised
    unsigned n_recover = 0, n_ladder = 0, n_stuck = 0, n_startup_reset = 0;
    unsigned last_init = 0, n_cbkat = 0, n_poison = 0;

    uint64_t rnd() { return pbt::splitmix(wrng); }

    void read(uint64_t v) { trace.push_back(v); now = v; }

    uint64_t good(EC &e, uint64_t scale, Prog &p) {
        for (int k = 0;; k++) {
            uint64_t d = (p.good_base + pbt::splitmix(p.rng) % (p.good_range + 1) + (k > 20 ? k * 7 : 0)) * scale;
            if (d == 0) continue;
            if (e.h.would_stick(d)) continue;
            if (e.h.apt_set && d == e.h.apt_base) continue;
            if (e.h.obs >= 8 && d == e.h.prediction()) continue;
            return d;
        }
    }
    uint64_t resolve(EC &e, Seg &s) {
        int64_t base = 0;
        switch (s.lk) {
        case L_RCT: base = e.h.rct_cut; break;
        case L_RCTP: base = e.h.rct_cut_p; break;
        case L_LAG: base = e.h.lag_l; break;
        case L_LAGP: base = e.h.lag_lp; break;
        case L_APT: base = e.h.apt_cut; break;
        case L_APTP: base = e.h.apt_cut_p; break;
        case L_NOSR: base = ((e.fips ? 321 : 256) * (int)e.osr + 2) / 3 * 3; break;
        case L_WIN: base = 512; break;
        default: base = 0;
        }
        base += s.off;
        return base < 1 ? 1 : (uint64_t)base;
    }
    // raw clock difference of the next measurement, counted from stamp `from`
    uint64_t next_raw(EC &e, Phase ph, uint64_t from) {
        Prog &p = *prog;
        uint64_t scale = (e.gcd == 1 && !gcd_set) ? unit : 1;
        Seg *s = nullptr;
        while (p.i < p.segs.size()) {
            Seg &c = p.segs[p.i];
            if (!(c.phases & ph)) break;     // waits for its phase
            if (!c.resolved) { c.resolved = true; c.left = resolve(e, c); }
            if (c.left) { s = &c; break; }
            p.i++;
        }
        uint64_t D = 0;
        int mode = M_GOOD;
        if (s) { s->left--; mode = s->mode; }
        switch (mode) {
        case M_STUCK: D = e.h.h(0) ? e.h.h(0) : good(e, scale, p); break;
        case M_ZERO: D = 0; break;
        case M_ARITH: D = e.h.h(0) + (e.h.h(0) - e.h.h(1)); break;
        case M_RANGE: D = (1 + pbt::splitmix(p.rng) % (s->a + 1)) * scale; break;
        case M_BASEHIT: { // runs of the APT reference below the repetition cutoff, then one good value
            uint64_t runlen = s->a >= e.h.rct_cut ? e.h.rct_cut - 1 : s->a;
            if (runlen < 1) runlen = 1;
            if (e.h.apt_set && (s->pos % (runlen + 1)) != runlen) D = e.h.apt_base;
            else D = good(e, scale, p);
            s->pos++;
            break;
        }
        case M_PERIOD: {
            uint64_t per = 2 + s->a % 7, k = s->pos++ % per;
            D = (s->b % 1000 + 17 + k * k * 3 + (k & 1) * 41) * scale;
            break;
        }
        case M_MEMSTUCK: {
            bool third = e.h.rm_ctr % 3 == 0 && e.h.rm_ctr < e.h.rm_nosr;
            bool st = third ? (pbt::splitmix(p.rng) % 100) < s->a : (pbt::splitmix(p.rng) % 100) < s->b;
            D = st && e.h.h(0) ? e.h.h(0) : good(e, scale, p);
            break;
        }
        case M_STICKMIX: D = (pbt::splitmix(p.rng) % 100) < s->a && e.h.h(0) ? e.h.h(0) : good(e, scale, p); break;
        case M_BACK: return (uint64_t)0 - (1 + s->a) * (s->b % 3 ? 1 : e.gcd);
        case M_STAMP0: return (uint64_t)0 - from;
        case M_HUGE: return pbt::splitmix(p.rng) >> (s->a % 64);
        case M_CONST: D = (s->a + 1) * scale; break;
        case M_CHANGES: { // exactly a changes by one in any 1024 consecutive deltas
            uint64_t i = s->pos++;
            bool step = (i + 1) * s->a / 1024 != i * s->a / 1024;
            D = (e.h.h(0) && e.h.h(0) % scale == 0 && e.h.h(0) < (1ULL << 40) ? e.h.h(0) : (1000 + s->b) * scale) + (step ? scale : 0);
            break;
        }
        case M_NSTUCK: { // exactly a non-stuck in any 1024 consecutive deltas
            uint64_t i = s->pos++;
            bool step = (i + 1) * s->a / 1024 != i * s->a / 1024;
            D = step || !e.h.h(0) ? good(e, scale, p) : e.h.h(0);
            break;
        }
        case M_LAGHIT: { // predictable values in runs just below the local cutoff (or of a given length)
            uint64_t lim = s->a ? s->a : e.h.lag_l - 1, i = s->pos++;
            if (i < 40) { uint64_t per = 2 + s->b % 7, k = i % per; D = (17 + k * k * 3 + (k & 1) * 41) * scale; break; }
            if (lim >= e.h.lag_l && !s->a) lim = e.h.lag_l - 1;
            if (e.h.obs >= 8 && e.h.run < lim && e.h.prediction()) D = e.h.prediction();
            else D = good(e, scale, p);
            break;
        }
        case M_FOLLOW: D = e.h.obs >= 8 && e.h.prediction() ? e.h.prediction() : good(e, scale, p); break; // whatever is predicted
        case M_ODD: D = good(e, scale, p) + (scale > 1 ? 1 + s->a % (scale - 1) : 0); break; // not a multiple of the unit of the clock
        case M_FEWCH: { // as many changes by one unit as leave the variation just below (or at) the minimum
            uint64_t i = s->pos++, want = 1024 / (e.osr * scale), n = want > s->a ? want - s->a : 1;
            bool step = (i + 1) * n / 1024 != i * n / 1024;
            D = (e.h.h(0) && e.h.h(0) % scale == 0 && e.h.h(0) < (1ULL << 40) ? e.h.h(0) : (1000 + s->b) * scale) + (step ? scale : 0);
            break;
        }
        case M_TINY: D = (1 + (s->pos++ & 1)) * scale; break;
        default: D = good(e, scale, p);
        }
        uint64_t raw = D * e.gcd;
        if (e.gcd > 1 && D && raw / e.gcd == D) { // any remainder below the divisor
            uint64_t rem = pbt::splitmix(p.rng) % e.gcd;
            if ((raw + rem) / e.gcd == D && raw + rem >= raw) raw += rem;
        }
        if (from == 0 && mode == M_GOOD && raw < 100000) raw += start; // power-up offset of the clock
        return raw;
    }

    // ------------------------------------------------------ measurements ----
    static void absorb_record(EC &e, uint64_t delta, uint8_t sep, const uint8_t dig[32]) {
        uint8_t rec[136];
        memset(rec, 0, sizeof(rec));
        for (int i = 0; i < 8; i++) rec[i] = (uint8_t)(delta >> (8 * i));
        rec[8] = sep;
        memcpy(rec + 9, dig, 32);
        e.pool.absorb(rec, sizeof(rec));
    }
    static void le(uint8_t *&p, uint64_t v, int n) { for (int i = 0; i < n; i++) *p++ = (uint8_t)(v >> (8 * i)); }
    static void hash_loop(const Rec &r, uint8_t dig[32]) {
        memset(dig, 0, 32);
        for (uint64_t j = 0; j < r.cnt; j++) {
            uint8_t b[80], *p = b;
            memcpy(p, dig, 32); p += 32;
            le(p, r.rct_count, 4); le(p, r.apt_cut, 4); le(p, r.apt_obs, 4); le(p, r.apt_count, 4);
            le(p, r.apt_base, 8); le(p, r.rm_count, 2); le(p, j, 8);
            ref::Sponge s;
            s.sha3_256();
            s.absorb(b, (size_t)(p - b));
            s.squeeze(dig, 32);
        }
    }
    // captures the health values the hash loop consumes, at the time it runs
    Rec capture(EC &e, uint8_t sep, uint64_t cnt) {
        cost += cnt + 1;
        if (cost > perm_budget || trace.size() > 6000000) throw Budget();
        Rec r;
        r.delta = 0; r.sep = sep; r.cnt = cnt;
        r.rct_count = e.h.rct_count; r.apt_cut = e.h.apt_cut; r.apt_obs = e.h.apt_obs; r.apt_count = e.h.apt_count;
        r.apt_base = e.h.apt_base; r.rm_count = (uint16_t)e.h.rm_count;
        return r;
    }
    void flush(EC &e) {
        for (auto &r : e.log) {
            uint8_t dig[32];
            hash_loop(r, dig);
            if (keep_gens && r.cnt) { std::array<uint8_t, 32> a; memcpy(a.data(), dig, 32); digs.push_back(a); }
            absorb_record(e, r.delta, r.sep, dig);
        }
        e.log.clear();
    }
    bool stuck(EC &e, uint64_t d) {
        measures++;
        bool s = e.h.insert(d);
        if (s) n_stuck++;
        rct_mem(e, s);
        seen_fail |= e.h.failure;
        return s;
    }
    void rct_mem(EC &e, bool s) {
        Health &h = e.h;
        if (h.rm_ctr == 0) h.rm_count = 0;
        if (s && h.rm_ctr < h.rm_nosr && h.rm_ctr % 3 == 0) h.rm_count++;
        if (h.rm_count >= h.rm_cut_p) {
            if (h.rm_ctr < h.rm_nosr) h.failure |= B_RCTMEM << PERM;
        } else if (h.rm_count == h.rm_cut) {
            if (!e.in_rec) {
                n_recover++;
                h.rm_count = 0;
                e.in_rec = true;
                int st = e.startup;
                e.startup = 0;
                for (int i = 0; i < 10; i++) random_data(e);
                e.startup = st;
                e.in_rec = false;
            } else if (h.rm_ctr < h.rm_nosr) h.failure |= B_RCTMEM;
        }
        if (h.rm_ctr < h.rm_nosr) h.rm_ctr++;
    }
    bool m_mem(EC &e) {
        if (e.mem) { e.acc += 384; e.acc_walk += 384; }
        uint64_t S = now + 1 + rnd() % 5000;
        read(S);
        uint64_t raw = next_raw(e, PH_MEM, S);
        read(S + raw);
        uint64_t d = raw / e.gcd;
        bool st = stuck(e, d);
        Rec r = capture(e, 1, 0);
        r.delta = d;
        e.log.push_back(r);
        return st;
    }
    bool m_sha(EC &e) {
        uint64_t S = now + 1 + rnd() % 5000;
        read(S);
        e.prev = S;
        Rec r = capture(e, 2, (uint64_t)e.hashloop * 3);
        uint64_t raw = next_raw(e, PH_SHA, S);
        read(S + raw);
        uint64_t d = raw / e.gcd;
        bool st = stuck(e, d);
        r.delta = d;
        e.log.push_back(r);
        return st;
    }
    bool m_norm(EC &e, Phase ph, uint64_t *delta) {
        if (e.mem) e.acc += 128;
        if (e.mem) for (int i = 0; i < 16; i++) trace.push_back(rnd() >> (i & 15));
        if (e.in_rec) ph = PH_REC;
        uint64_t raw = next_raw(e, ph, e.prev);
        read(e.prev + raw);
        e.prev = e.prev + raw;
        uint64_t d = raw / e.gcd;
        bool st = stuck(e, d);
        Rec r = capture(e, 3, e.hashloop);
        r.delta = d;
        e.log.push_back(r);
        if (delta) *delta = d;
        return st;
    }
    unsigned health_failure(EC &e) {
        if (!e.fips) return 0;
        if (e.h.failure && has_cb && cb_kat) { e.selftest_failed = true; n_cbkat++; }
        if (e.h.failure && has_cb) {
            std::pair<int, unsigned> r(e.id, e.h.failure);
            if (cblog.empty() || cblog.back().second != r.second) cblog.push_back(r);
        }
        return e.h.failure;
    }
    void data_one(EC &e, int stage) {
        e.h.rm_ctr = 0;
        unsigned n = ((256 + (e.fips ? 65 : 0)) * e.osr + 2) / 3 * 3;
        e.h.rm_nosr = n;
        unsigned c = 0;
        while (!health_failure(e)) {
            bool st = stage == 2 ? m_mem(e) : stage == 1 ? m_sha(e) : m_norm(e, PH_NORM, nullptr);
            if (st) continue;
            if (++c >= e.h.rm_nosr) break;
        }
    }
    void random_data(EC &e) {
        if (e.startup == 2) {
            data_one(e, 2);
            e.startup = 1;
            e.h.init_cutoffs();
        }
        if (e.startup == 1) {
            data_one(e, 1);
            e.startup = 0;
            e.h.init_cutoffs();
            return;
        }
        m_norm(e, PH_NORM, nullptr);
        data_one(e, 0);
    }
    // what a block was generated from, kept on request
    struct Gen { uint8_t v[64], out[32], next[64]; int id; };
    bool keep_gens = false;
    std::vector<Gen> gens;
    std::vector<std::array<uint8_t, 32>> digs; // hash loop results mixed in
    void generate(EC &e, uint8_t *out, size_t n) {
        flush(e);
        uint8_t b = e.seeded ? 85 : 0;
        e.pool.absorb(&b, 1);
        uint8_t V[64], x[96];
        e.pool.squeeze(V, 64);
        ref::Sponge s;
        s.shake256();
        s.absorb(V, 64);
        uint8_t c = 170;
        s.absorb(&c, 1);
        s.squeeze(x, 96);
        memcpy(out, x + 64, n);
        if (keep_gens) { Gen g; memcpy(g.v, V, 64); memcpy(g.out, x + 64, 32); memcpy(g.next, x, 64); g.id = e.id; gens.push_back(g); }
        e.pool.shake256();
        e.pool.absorb(x, 64);
        e.seeded = true;
    }

    // --------------------------------------------------------- lifecycle ----
    static unsigned log2u(unsigned v) { unsigned r = 0; while (v >>= 1) r++; return r; }
    unsigned upd_mem(unsigned flags, unsigned inc) {
        unsigned f = mem_field(flags);
        if (!f) {
            unsigned l = log2u(flags & F_CACHE_ALL ? cache_all : cache_l1);
            unsigned m = l ? l + (flags & F_CACHE_ALL ? 0 : 2) : 18;
            f = m > 9 ? m - 9 : 0;
        } else f += inc;
        if (f > 20) f = 20;
        return (flags & 0x07ffffffu) | (f << 27);
    }
    static unsigned upd_hash(unsigned flags, unsigned inc) {
        unsigned f = hash_field(flags) + inc;
        if (f > 7) f = 7;
        return (flags & ~(7u << 24)) | (f << 24);
    }
    ECp alloc_internal(unsigned osr, unsigned flags) {
        if ((flags & F_NO_TIMER) && (flags & F_FORCE_TIMER)) return nullptr;
        if (osr < 3) osr = 3;
        if (osr > 20) return nullptr;
        if (!selftest_run && init_ex(osr, flags)) return nullptr;
        if (flags & F_NTG1) flags |= F_NO_TIMER;
        if (forced && (flags & F_NO_TIMER)) return nullptr;
        ECp e = std::make_shared<EC>();
        e->id = next_id++;
        e->max_mem_set = mem_field(flags) != 0;
        if (!(flags & F_NOMEM)) { flags = upd_mem(flags, 0); e->mem = true; }
        flags = upd_hash(flags, 0);
        e->hashloop = 1u << hash_field(flags);
        e->pool.shake256();
        if ((flags & (F_FIPS | F_NTG1)) || sysfips) { e->startup = 2; e->fips = true; }
        e->osr = osr;
        e->flags = flags;
        e->h.osr = osr;
        e->h.ntg1 = flags & F_NTG1;
        e->h.init_cutoffs();
        e->gcd = gcd_set ? gcd : 1;
        if (!(flags & F_NO_TIMER)) {
            // internal timer: the registered handler of the simulations always
            // fails to initialize, which keeps the clock the only time source
            if (forced || (flags & F_FORCE_TIMER)) {
                if (itimer && !forced && time_init(osr, flags | F_FORCE_TIMER)) return nullptr;
                return nullptr;
            }
        }
        return e;
    }
    int time_init(unsigned osr, unsigned flags) {
        if (flags & F_FORCE_TIMER) forced = true;
        else flags |= F_NO_TIMER;
        if (forced && (flags & F_NO_TIMER)) return I_NOTIME;
        flags |= F_FIPS;
        ECp e = alloc_internal(osr, flags);
        if (!e) return I_MEM;
        int back = 0, stuckc = 0;
        std::vector<uint64_t> hist;
        m_norm(*e, PH_INIT, nullptr);
        for (int i = -100; i < 1024; i++) {
            uint64_t a = e->prev, d;
            bool st = m_norm(*e, PH_INIT, &d);
            uint64_t b = e->prev;
            if (!a || !b) return I_NOTIME;
            if (!d) return I_COARSE;
            if (i < 0) continue;
            if (st) stuckc++;
            if (!(b > a)) back++;
            hist.push_back(d);
        }
        if (back > 3) return I_NOMONO;
        unsigned f = health_failure(*e);
        if (f) return f & (B_RCT | (B_RCT << PERM)) ? I_RCT : I_HEALTH;
        uint64_t g = hist[0], sum = 0;
        for (size_t i = 1; i < hist.size(); i++) {
            sum += hist[i] > hist[i - 1] ? hist[i] - hist[i - 1] : hist[i - 1] - hist[i];
            uint64_t x = g, y = hist[i];
            while (y) { uint64_t r = x % y; x = y; y = r; }
            g = x;
        }
        if (sum * e->osr < 1024) return I_MINVAR;
        if (g >= 0xffffffffu / 2) return I_COARSE;
        if (g && !gcd_set) { gcd = g; gcd_set = true; }
        if (stuckc > 921) return I_STUCK;
        return 0;
    }
    int pre() {
        blocked = true;
        if (kat_fail) { selftest_run = false; return I_HASH; }
        if (gcd_fail) { selftest_run = false; return I_GCD; }
        selftest_run = true;
        return 0;
    }
    int post(int r) { if (r) selftest_run = false; last_init = (unsigned)r; return r; }
    int init() {
        int r = pre();
        if (r) return r;
        r = time_init(0, F_NO_TIMER);
        if (r && r != I_MEM && itimer) r = time_init(0, F_FORCE_TIMER);
        return post(r);
    }
    static unsigned secmem(unsigned flags) { return flags & (F_NTG1 | F_FIPS) ? flags | F_SECMEM : flags; }
    int init_ex(unsigned osr, unsigned flags) {
        flags = secmem(flags);
        int r = pre();
        if (r) return r;
        if ((flags & F_NTG1) && (flags & F_FORCE_TIMER)) return post(I_NOTIME);
        r = I_NOTIME;
        if (!(flags & F_FORCE_TIMER)) r = time_init(osr, flags | F_NO_TIMER);
        if (r && r != I_MEM && itimer && !(flags & (F_NO_TIMER | F_NTG1))) r = time_init(osr, flags | F_FORCE_TIMER);
        return post(r);
    }
    bool reset(ECp &e, bool outer) {
        unsigned osr = e->osr + 1, flags = e->flags;
        if (osr > 20) return false;
        if (!e->max_mem_set) flags = upd_mem(flags, 1);
        flags = upd_hash(flags, 1);
        while (init_ex(osr, flags)) if (++osr > 20) return false;
        ECp n = outer ? alloc_outer(osr, flags) : alloc_internal(osr, flags);
        if (!n) return false;
        n->max_mem_set = e->max_mem_set;
        if (e->h.apt_obs) {
            n->h.apt_set = true;
            n->h.apt_base = e->h.apt_base;
            n->h.apt_count = n->h.apt_cut;
            n->h.apt_obs = e->h.apt_obs;
        }
        n->h.rct_count = n->h.rct_cut;
        n->h.run = e->h.run; n->h.succ = e->h.succ; n->h.best = e->h.best; n->h.obs = e->h.obs;
        memcpy(n->h.score, e->h.score, sizeof(n->h.score));
        memcpy(n->h.hist, e->h.hist, sizeof(n->h.hist));
        n->h.rm_count = e->h.rm_cut;
        n->reinit = e->reinit + 1;
        n->inv = e->inv; n->bytes = e->bytes;
        n->selftest_failed = e->selftest_failed;
        if (outer) n_ladder++; else n_startup_reset++;
        e = n;
        return true;
    }
    ECp alloc_outer(unsigned osr, unsigned flags) {
        if ((flags & F_NOMEM) && ((flags & (F_NTG1 | F_FIPS)) || sysfips)) return nullptr;
        flags = secmem(flags);
        ECp e = alloc_internal(osr, flags);
        if (!e) return e;
        do {
            random_data(*e);
            if (health_failure(*e)) {
                if (!reset(e, false)) return nullptr;
                continue;
            }
        } while (e->startup != 0);
        return e;
    }
    int read(ECp &e, std::vector<uint8_t> &out, size_t len) {
        out.clear();
        size_t left = len;
        while (left) {
            poison(*e);
            if (e->selftest_failed) return R_SELFTEST;
            random_data(*e);
            unsigned f = health_failure(*e);
            if (f) {
                if (f & (B_RCT << PERM)) return R_RCT_P;
                if (f & (B_APT << PERM)) return R_APT_P;
                if (f & (B_LAG << PERM)) return R_LAG_P;
                if (f & (B_RCTMEM << PERM)) return R_RCTMEM_P;
                if (f & B_RCT) return R_RCT;
                if (f & B_APT) return R_APT;
                if (f & B_RCTMEM) return R_RCTMEM;
                return R_LAG;
            }
            size_t n = left < 32 ? left : 32;
            uint8_t b[32];
            generate(*e, b, n);
            out.insert(out.end(), b, b + n);
            left -= n;
        }
        e->inv++;
        e->bytes += len;
        return (int)len;
    }
    void poison(EC &e) {
        if (trace.size() > poison_at) { e.selftest_failed = true; poison_at = SIZE_MAX; n_poison++; }
    }
    int safe(ECp &e, std::vector<uint8_t> &out, size_t len) {
        if (len == 0) return 0;
        for (;;) {
            int r = read(e, out, len);
            if (r >= 0) return r;
            if (r != R_RCT && r != R_APT && r != R_LAG && r != R_RCTMEM) return r;
            if (!reset(e, true)) return r;
        }
    }
};

} // namespace model
