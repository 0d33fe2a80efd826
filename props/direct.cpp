// The health tests fed directly with generated time stamps (tens of millions
// per run), against the reference implementation with computed cutoffs.
#include "sim.hpp"
using namespace sim;
extern "C" {
int gh_ok(void);
void *gh_new(unsigned osr, int ntg1, int fips, uint64_t gcd, unsigned nosr, int in_rec);
void gh_block(void *);
unsigned gh_stamp(void *, uint64_t);
unsigned gh_delta(void *, uint64_t);
unsigned gh_fail(void *);
void gh_free(void *);
}

static void direct(pbt::Ctx &t, bool mem) {
    if (!gh_ok()) t.discard();
    World w;
    EC e;
    e.osr = 3 + (unsigned)t.u(18);
    bool ntg1 = t.chance(1, 2);
    bool fips = !t.chance(1, 20);
    e.h.osr = e.osr;
    e.h.ntg1 = ntg1;
    e.h.init_cutoffs();
    e.fips = fips;
    e.gcd = t.chance(2, 3) ? 1 : 1 + t.size(1u << 20);
    w.gcd_set = true;
    e.in_rec = mem;
    unsigned nosr = mem ? ((fips ? 321 : 256) * e.osr + 2) / 3 * 3 : 0;
    if (mem && t.chance(1, 4)) nosr = 3 + (unsigned)t.u(60) * 3;
    e.h.rm_nosr = nosr;
    void *g = gh_new(e.osr, ntg1, fips, e.gcd, nosr, mem);
    Prog p;
    p.rng = t.u(1u << 30) * 77 + 5;
    p.good_base = 1 + t.size(1000);
    p.good_range = 20 + t.size(3000);
    bool lng = !mem && t.chance(1, 40);
    int n = 1 + (int)t.u(lng ? 8 : 3);
    uint64_t total = 0;
    for (int i = 0; i < n; i++) {
        size_t b = p.segs.size();
        int tm = mem ? (t.chance(2, 3) ? (int)T_MEM : (int)T_MIX) : (t.chance(1, 6) ? (int)T_MIX : (int)t.u(3));
        if (lng && t.chance(3, 4)) {
            // success counts close to the global cutoffs: good lead, then mostly predictable values
            Seg s = seg(M_LAGHIT, L_ABS, 1000 + (int64_t)t.size(1u << 18), PH_ALL, t.chance(1, 2) ? 0 : t.u(300), t.u(7));
            p.segs.push_back(s);
            if (t.chance(1, 2)) p.segs.push_back(seg(M_GOOD, L_ABS, 1 + (int64_t)t.size(1u << 17), PH_ALL));
        } else gen_attack(t, p, tm, PH_ALL);
        for (size_t k = b; k < p.segs.size(); k++) { p.segs[k].phases = PH_ALL; }
    }
    w.prog = &p;
    w.start = 0;
    // half of the cases drive the stamp entry point, half the delta entry point
    bool stamps = t.chance(1, 2);
    // values that agree in their low bits only: equal to a test that narrows them
    unsigned alias = t.chance(1, 3) ? t.pick({8u, 16u, 24u, 31u, 32u, 40u, 48u, 52u, 56u, 60u, 62u, 63u}) : 0;
    unsigned alias_in = 2 + (unsigned)t.u(12);
    uint64_t alias_rng = p.rng ^ 0x5bd1e995;
    uint64_t prev = 0, limit = lng ? 300000 : 12000;
    unsigned seen = 0, left = nosr;
    uint64_t first_fail = 0;
    for (total = 0; total < limit && p.i < p.segs.size(); total++) {
        if (mem && e.h.rm_ctr >= nosr && (left++ & 7) == 7) { e.h.rm_ctr = 0; gh_block(g); } // a few beyond the window, then a new block
        uint64_t raw = w.next_raw(e, PH_NORM, prev);
        if (alias && pbt::splitmix(alias_rng) % alias_in == 0) raw += (1 + pbt::splitmix(alias_rng) % 3) << alias;
        prev += raw;
        uint64_t d = raw / e.gcd;
        bool s = e.h.insert(d);
        if (mem) w.rct_mem(e, s);
        unsigned gs = stamps ? gh_stamp(g, prev) : gh_delta(g, d);
        unsigned f = gh_fail(g);
        unsigned want = fips ? e.h.failure : 0;
        if (gs != (s ? 1u : 0u)) t.fail("osr %u ntg1 %d: measurement %llu (delta %llu) judged %s, expected %s", e.osr, ntg1, (unsigned long long)total,
                                        (unsigned long long)d, gs ? "stuck" : "not stuck", s ? "stuck" : "not stuck");
        if (f != want) t.fail("osr %u ntg1 %d fips %d: after measurement %llu the failure mask is 0x%x, expected 0x%x (rct %u/%u/%u apt %u/%u/%u lag run %u/%u/%u count %u/%u/%u mem %u/%u/%u)",
                              e.osr, ntg1, fips, (unsigned long long)total, f, want, e.h.rct_count, e.h.rct_cut, e.h.rct_cut_p, e.h.apt_count, e.h.apt_cut, e.h.apt_cut_p,
                              e.h.run, e.h.lag_l, e.h.lag_lp, e.h.succ, e.h.lag_g, e.h.lag_gp, e.h.rm_count, e.h.rm_cut, e.h.rm_cut_p);
        if (e.h.failure && !seen) first_fail = total;
        seen = e.h.failure;
        // continue a little beyond a failure: it has to stay, others may join
        if (seen && !lng && total > first_fail + 1500) break;
    }
    gh_free(g);
    t.fp(total); t.fp(prev); t.fp(seen + e.osr * 1000);
    t.note("osr=%u ntg1=%d measurements=%llu mask=0x%x", e.osr, ntg1, (unsigned long long)total, seen);
    if (seen & B_RCT) t.label("rct");
    if (seen & B_APT) t.label("apt");
    if (seen & B_LAG) t.label("lag");
    if (seen & B_RCTMEM) t.label("rctmem");
    if (seen & (B_RCT << PERM)) t.label("rct-permanent");
    if (seen & (B_APT << PERM)) t.label("apt-permanent");
    if (seen & (B_LAG << PERM)) t.label("lag-permanent");
    if (seen & (B_RCTMEM << PERM)) t.label("rctmem-permanent");
    if (e.h.succ >= e.h.lag_g) t.label("lag-global");
    if (e.h.succ >= e.h.lag_gp) t.label("lag-global-permanent");
    if (total > (1u << 17)) t.label("lag-window-wrap");
    if (seen) t.nontrivial();
}

PBT_PROP(H01, direct, 40, 3, 30, "a health test failed in the sequence") { direct(t, false); }
PBT_PROP(H02, direct, 40, 1, 30, "a health test failed in the sequence") { direct(t, true); }
