// Properties decided by simulated histories: the model generates a history of
// calls and clock readings, the library executes it, every observation is
// compared (return codes, output bytes, clock readings used, callbacks, status,
// memory released).
#include "sim.hpp"
#include <cmath>
using namespace sim;

static bool any_fail(History &H) { return H.w.seen_fail != 0; }
static bool any_op(History &H, int k, int lo, int hi) {
    for (auto &o : H.ops) if (o.kind == k && o.ret >= lo && o.ret <= hi) return true;
    return false;
}
static bool good_read(History &H) { return any_op(H, O_READ, 1, 1 << 30) || any_op(H, O_SAFE, 1, 1 << 30); }
static bool read_err(History &H) { return any_op(H, O_READ, -99, -2) || any_op(H, O_SAFE, -99, -2); }

// ---------------------------------------------------------------- H01 ----
PBT_PROP(H01, reads, 1, 2, 20, "a health test failed in the history") {
    Opts o;
    o.fipsish = true;
    o.attack_pct = 80;
    o.init_attack_pct = 4;
    o.nomem_pct = 3;
    o.timerflag_pct = 1;
    o.max_slots = 1;
    o.ntg1_pct = 35;
    o.force_template = (int)t.u(4) < 3 ? (int)t.u(3) : (int)T_MIX;
    o.w_safe = 1;
    run_history(t, o, any_fail);
}

// ---------------------------------------------------------------- H02 ----
static bool h02(History &H) { return H.w.n_recover != 0; }
PBT_PROP(H02, recovery, 1, 3, 25, "the recovery loop of the RCT with memory ran") {
    Opts o;
    o.fipsish = true;
    o.fips_pct = 30;
    o.ntg1_pct = 75;
    o.attack_pct = 85;
    o.init_attack_pct = 2;
    o.nomem_pct = 3;
    o.timerflag_pct = 0;
    o.badosr_pct = 0;
    o.max_osr = 5;
    o.max_ops = 4;
    o.max_len = 70;
    o.hash_pct = 5;
    o.force_template = t.chance(9, 10) ? (int)T_MEM : (int)T_CONT;
    o.max_slots = 1;
    run_history(t, o, h02);
}

// ---------------------------------------------------------------- H03 ----
PBT_PROP(H03, histories, 1, 3, 20, "a read failed because of a health test, or one failed outside FIPS/NTG.1 mode") {
    Opts o;
    o.attack_pct = 65;
    o.init_attack_pct = 6;
    o.timerflag_pct = 2;
    o.nomem_pct = 8;
    o.w_read = 6;
    o.max_slots = 2;
    o.cb_pct = 75;
    o.hammer_pct = 35;
    run_history(t, o, any_fail);
}

// ---------------------------------------------------------------- H04 ----
static bool h04(History &H) { return H.w.n_ladder != 0 || any_op(H, O_SAFE, -99, -2); }
PBT_PROP(H04, ladder, 1, 3, 25, "a safe read replaced the collector or failed") {
    Opts o;
    o.fipsish = true;
    o.attack_pct = 80;
    o.init_attack_pct = 3;
    o.w_safe = 8;
    o.w_read = 3;
    o.w_status = 0;
    o.w_init = 0;
    o.lead_pct = 35;
    o.min_len = 1;
    o.timerflag_pct = 1;
    o.nomem_pct = 2;
    o.max_slots = 1;
    o.badosr_pct = 1;
    o.ntg1_pct = 30;
    o.hash_pct = 25;
    o.max_osr = t.chance(1, 5) ? 20 : 6;
    o.cache_pct = 40;
    switch (t.u(4)) {
    case 0: o.force_template = T_LADDER; break;
    case 1: o.force_template = (int)t.u(4); break;
    case 2: o.force_template = T_LADDER; o.noise_osr = 18 + (int)t.u(3); o.hash_pct = 0; o.max_ops = 3; break;
    default: break;
    }
    o.hammer_pct = 50;
    o.hammer_safe = true;
    o.big_len_pct = 3;
    o.big_len = 6000;
    if (t.chance(1, 20)) { // replacement of a collector that has the largest loop count already
        o.hash_top_pct = 100;
        o.perm_budget = 3000000;
        o.max_ops = 2;
        o.max_len = 40;
        o.big_len_pct = 0;
        o.max_osr = 3;
        o.noise_osr = 0;
        o.skip_init_pct = 100;
        o.hammer_pct = 0;
        o.force_template = t.chance(1, 2) ? (int)T_LADDER : (int)t.u(4);
    }
    run_history(t, o, h04);
}

// ---------------------------------------------------------------- H05 ----
static bool h05(History &H) {
    return H.w.n_ladder && (H.w.seen_fail >> PERM || H.w.n_ladder > 1);
}
PBT_PROP(H05, escalation, 1, 3, 25, "after a replacement the degradation continued: permanent failure or another replacement") {
    Opts o;
    o.fipsish = true;
    o.attack_pct = 92;
    o.init_attack_pct = 1;
    o.w_safe = 8;
    o.w_read = 3;
    o.w_status = 0;
    o.w_init = 0;
    o.lead_pct = 35;
    o.min_len = 1;
    o.timerflag_pct = 0;
    o.nomem_pct = 1;
    o.badosr_pct = 0;
    o.max_slots = 1;
    o.hash_pct = 5;
    o.skip_init_pct = 5;
    switch (t.u(3)) {
    case 0: o.force_template = T_CONT; break;
    case 1: o.force_template = T_LADDER; break;
    default: o.force_template = (int)t.u(3); break;
    }
    o.hammer_pct = 25;
    run_history(t, o, h05);
}

// The lag predictor counts correct predictions over 2^17 measurements. The count
// survives a replacement: predictions before and after it add up to the cutoff.
PBT_PROP(H05, global, 1, 1, 30, "the global prediction cutoff was reached with predictions from before and after a replacement") {
    History H;
    Opts o;
    unsigned osr = t.pick({3u, 3u, 4u, 5u, 6u});
    bool hit = false;
    try {
        gen_env(t, o, H);
        H.w.unit = 1;
        H.w.perm_budget = 900000;
        Op a;
        a.kind = O_ALLOC; a.osr = osr; a.flags = t.chance(1, 5) ? F_FIPS | F_NTG1 : F_FIPS;
        a.flags |= 1u << 27;
        Prog good;
        apply_model(t, H, a, good);
        if (!a.ret) t.discard();
        uint64_t want = cut_lag_global[osr];          // of the replacement, one rate higher
        uint64_t n1 = 2000 + t.u(want - 4000), n2 = want + 4000 - n1 + t.u(3000);
        Prog p;
        p.rng = t.u(1u << 30) + 5;
        uint64_t per = a.flags & F_NTG1 ? 6 : t.u(7);
        p.segs.push_back(seg(M_LAGHIT, L_ABS, (int64_t)n1, PH_NORM | PH_REC, 0, per));
        p.segs.push_back(seg(M_STUCK, L_RCT, 1, PH_NORM | PH_REC));
        p.segs.push_back(seg(M_GOOD, L_ABS, 520, PH_NORM | PH_REC)); // to the end of the APT window
        p.segs.push_back(seg(M_LAGHIT, L_ABS, (int64_t)n2, PH_NORM | PH_REC, 0, per));
        for (int i = 0; i < 40 && p.i < p.segs.size(); i++) {
            Op r;
            r.kind = O_SAFE;
            r.slot = 0;
            r.len = 32 * (1 + t.u(20));
            apply_model(t, H, r, p, i > 2);
            if (H.w.n_ladder > 1 && (H.w.seen_fail & B_LAG)) hit = true;
            if (r.ret < 0) break;
        }
        t.note("n1=%llu n2=%llu replaced %u times", (unsigned long long)n1, (unsigned long long)n2, H.w.n_ladder);
    } catch (Budget &) {
        t.discard();
    }
    account(t, H);
    execute(t, H);
    if (hit) t.nontrivial();
}

// ---------------------------------------------------------------- S01 ----
static bool s01(History &H) {
    for (auto &o : H.ops) if ((o.kind == O_INIT || o.kind == O_INITEX) && o.ret) return true;
    return any_op(H, O_ALLOC, 0, 0);
}
PBT_PROP(S01, verdicts, 1, 3, 15, "a power-on test was refused") {
    Opts o;
    o.init_target_pct = 75;
    o.attack_pct = 30;
    o.init_attack_pct = 50;
    o.w_init = 8;
    o.w_alloc = 3;
    o.w_read = 1;
    o.w_safe = 0;
    o.skip_init_pct = 15;
    o.hash_pct = 4;
    o.timerflag_pct = 2;
    o.notimer_pct = World::itimer ? 85 : 5; // mostly without the fallback, which hides the first verdict
    o.verdict_focus = true;
    o.fips_pct = 25;
    o.ntg1_pct = 15;
    o.max_osr = 20;
    o.init_first_pct = World::itimer ? 10 : 50;
    o.unit_focus = t.chance(1, 3);
    if (t.chance(1, 3)) o.force_template = T_INIT;
    run_history(t, o, s01);
}

// ---------------------------------------------------------------- S02 ----
static bool s02(History &H) {
    // an allocation was attempted after a failed start-up run
    bool bad = false;
    for (auto &o : H.ops) {
        if ((o.kind == O_INIT || o.kind == O_INITEX)) bad = o.ret != 0;
        if (o.kind == O_ALLOC && bad) return true;
    }
    return false;
}
static bool kat_works() {
    shim::S.kat_fail = true;
    int r = jent_selftest(nullptr);
    shim::S.kat_fail = false;
    return r != 0;
}
PBT_PROP(S02, histories, 1, 3, 15, "an allocation followed a failed start-up run") {
    Opts o;
    o.init_target_pct = 30;
    o.attack_pct = 15;
    o.w_init = 6;
    o.w_alloc = 8;
    o.w_read = 1;
    o.w_safe = 1;
    o.w_free = 2;
    o.w_katf = kat_works() ? 6 : 0;
    o.fips_pct = 20;
    o.ntg1_pct = 10;
    o.timerflag_pct = 6;
    o.hash_pct = 3;
    o.max_slots = 4;
    o.max_ops = 9;
    o.skip_init_pct = 50;
    o.force_template = t.chance(1, 2) ? (int)T_INIT : -1;
    run_history(t, o, s02);
}

// ---------------------------------------------------------------- S03 ----
static bool s03(History &H) { return any_op(H, O_ALLOC, 1, 1) && H.w.n_stuck > 0; }
PBT_PROP(S03, staged, 1, 3, 20, "a collector was handed out and at least one measurement was stuck on the way") {
    Opts o;
    o.fips_pct = 60;
    o.ntg1_pct = 40;
    o.attack_pct = 75;
    o.init_attack_pct = 3;
    o.w_alloc = 6;
    o.w_free = 3;
    o.w_read = 2;
    o.w_safe = 0;
    o.w_init = 0;
    o.max_slots = 3;
    o.timerflag_pct = 1;
    o.nomem_pct = 5;
    o.badosr_pct = 0;
    if (t.chance(1, 2)) o.force_template = t.pick({(int)T_RCT, (int)T_LAG, (int)T_APT, (int)T_CONT});
    run_history(t, o, s03);
}

// ---------------------------------------------------------------- E01 ----
static bool e01(History &H) { return good_read(H) && H.w.n_stuck > 0; }
PBT_PROP(E01, fresh, 1, 3, 20, "a read succeeded although measurements were stuck") {
    Opts o;
    o.fips_pct = 40;
    o.ntg1_pct = 20;
    o.attack_pct = 60;
    o.init_attack_pct = 1;
    o.timerflag_pct = 0;
    o.badosr_pct = 0;
    o.nomem_pct = 15;
    o.max_osr = 10;
    o.max_len = 200;
    o.force_template = t.pick({(int)T_RCT, (int)T_MEM, (int)T_MIX, (int)T_CONT});
    run_history(t, o, e01);
}

// ---------------------------------------------------------------- E02 ----
PBT_PROP(E02, bytes, 1, 3, 20, "a read delivered at least one byte") {
    Opts o;
    o.fips_pct = 45;
    o.ntg1_pct = 20;
    o.attack_pct = 40;
    o.init_attack_pct = 1;
    o.timerflag_pct = 0;
    o.badosr_pct = 0;
    o.hash_pct = 40;
    o.max_len = 260;
    o.big_len_pct = 8;
    if (t.chance(1, 10)) { // the largest loop counts, which take a while
        o.hash_top_pct = 100;
        o.perm_budget = 1600000;
        o.fipsish = t.chance(2, 3);
        o.attack_pct = 10;
        o.w_alloc = 0;
        o.w_init = 0;
        o.min_ops = 2;
        o.max_ops = 3;
        o.max_len = 40;
        o.big_len_pct = 0;
        o.max_osr = 3;
        o.skip_init_pct = 100;
    }
    o.unit_focus = t.chance(1, 2);
    run_history(t, o, good_read);
}

// ---------------------------------------------------------------- A02 ----
static bool a02(History &H) {
    int n = 0;
    for (auto &o : H.ops) if (o.kind == O_ALLOC) n++;
    return n >= 1;
}
PBT_PROP(A02, config, 1, 3, 25, "at least one allocation with generated rate and flags") {
    Opts o;
    o.fips_pct = 25;
    o.ntg1_pct = 20;
    o.nomem_pct = 25;
    o.attack_pct = t.chance(1, 5) ? 40 : 0;
    o.init_attack_pct = 0;
    o.timerflag_pct = 12;
    o.badosr_pct = 10;
    o.hash_pct = 50;
    o.sysfips_pct = 30;
    o.max_osr = 20;
    o.cache_pct = 70;
    o.w_alloc = 10;
    o.w_free = 3;
    o.w_read = 1;
    o.w_safe = 1;
    o.w_init = 1;
    o.max_slots = 4;
    o.perm_budget = 1200000;
    o.max_len = 40;
    o.bigmem_pct = 5;
    run_history(t, o, a02);
}

// ---------------------------------------------------------------- A03 ----
static bool a03(History &H) {
    int n = 0, users = 0;
    std::map<int, int> use;
    for (auto &o : H.ops) if (o.kind == O_ALLOC && o.ret) n++;
    for (auto &o : H.ops) if (o.kind == O_READ || o.kind == O_SAFE) use[o.slot]++;
    for (auto &u : use) if (u.second) users++;
    return n >= 2 && users >= 2;
}
PBT_PROP(A03, interleave, 1, 3, 25, "two or more collectors were used alternately") {
    Opts o;
    o.fips_pct = 55;
    o.attack_pct = 35;
    o.init_attack_pct = 1;
    o.timerflag_pct = 0;
    o.badosr_pct = 0;
    o.nomem_pct = 8;
    o.hash_pct = 8;
    o.max_slots = 4;
    o.min_ops = 4;
    o.max_ops = 14;
    o.w_alloc = 5;
    o.w_free = 1;
    o.w_selftest = kat_works() ? 1 : 0;
    o.w_katf = o.w_selftest;
    o.w_init = 1;
    o.init_target_pct = 5;
    o.max_len = 70;
    o.hammer_pct = 25;
    o.hammer_mix = true;
    run_history(t, o, a03);
}

// ---------------------------------------------------------------- J01 ----
static bool j01(History &H) { return any_op(H, O_STATUS, 0, 0); }
PBT_PROP(J01, states, 1, 3, 20, "status was queried on a collector with history, into buffers of many sizes") {
    Opts o;
    o.attack_pct = 45;
    o.init_attack_pct = 1;
    o.timerflag_pct = 2;
    o.w_status = 6;
    o.hash_pct = 30;
    o.sysfips_pct = 20;
    o.cache_pct = 60;
    o.ncpu_pct = 80;
    o.status_sizes = true;
    o.max_slots = 2;
    o.badosr_pct = 1;
    o.hammer_pct = 20;
    o.big_len_pct = 4;
    o.big_len = 9000;
    run_history(t, o, j01);
}

// ---------------------------------------------------------------- K01 ----
static bool k01(History &H) {
    for (auto &o : H.ops) if ((o.kind == O_READ || o.kind == O_SAFE) && o.ret == R_SELFTEST) return true;
    return false;
}
PBT_PROP(K01, bound, 1, 3, 20, "a read was refused because of a failed self test") {
    if (!kat_works()) t.discard();
    Opts o;
    o.fips_pct = 45;
    o.attack_pct = 35;
    o.init_attack_pct = 1;
    o.timerflag_pct = 0;
    o.badosr_pct = 0;
    o.nomem_pct = 8;
    o.hash_pct = 5;
    o.w_selftest = 5;
    o.w_katf = 4;
    o.w_read = 5;
    o.w_safe = 4;
    o.w_init = 0;
    o.poison_pct = 25;
    o.cb_pct = 80;
    o.cbkat_pct = 35;
    o.max_slots = 2;
    o.min_ops = 3;
    o.max_ops = 10;
    o.max_len = 140;
    o.hammer_pct = 8;
    run_history(t, o, k01);
}

// ---------------------------------------------------------------- T02 ----
static bool t02(History &H) { return H.w.gcd_set && H.w.gcd > 1; }
PBT_PROP(T02, divisor, 1, 3, 20, "a divisor above one was established") {
    Opts o;
    o.unit_focus = true;
    o.fips_pct = 35;
    o.attack_pct = 20;
    o.init_target_pct = 25;
    o.init_attack_pct = 10;
    o.w_init = 4;
    o.w_alloc = 3;
    o.timerflag_pct = 1;
    o.badosr_pct = 1;
    o.hash_pct = 3;
    o.max_slots = 3;
    o.unit_probe = true;
    o.notimer_pct = World::itimer ? 60 : 5;
    run_history(t, o, t02);
}

// ---------------------------------------------------------------- N01 ----
// The region a collector works on is the one live mapping whose writable part has the size the status reports. Every update
// adds one to a byte, so the sum over the region counts the updates, and their places show how they are spread.
static unsigned n01_big, n01_seen;
static void n01_look(pbt::Ctx &t, History &H, size_t i) {
    const Op &op = H.ops[i];
    if (!op.alive || op.slot < 0) return;
    const EC &e = op.snap;
    unsigned mf = mem_field(e.flags) > 20 ? 20 : mem_field(e.flags);
    size_t size = mf ? (size_t)1 << (mf + 9) : (size_t)1 << 18;
    if (size < 8192) return;
    const uint8_t *m = nullptr;
    unsigned n = 0;
    for (auto &mp : shim::S.maps) {
        if (!mp.live) continue;
        size_t pages = 0, first = 0, ps = mp.prot.empty() ? 4096 : mp.len / mp.prot.size();
        for (size_t k = 0; k < mp.prot.size(); k++) if ((mp.prot[k] & 3) == 3) { if (!pages) first = k; pages++; }
        if (pages * ps == size) { m = mp.base + first * ps; n++; }
    }
    if (!e.mem) return;
    if (n != 1) return;
    n01_seen++;
    uint64_t sum = 0, touched = 0, bit[32] = {0};
    unsigned bits = 0;
    while (((size_t)1 << bits) < size) bits++;
    for (size_t k = 0; k < size; k++) {
        if (!m[k]) continue;
        sum += m[k];
        touched++;
        for (size_t x = k, b = 0; x; x >>= 1, b++) if (x & 1) bit[b] += m[k];
    }
    double lam = (double)e.acc / (double)size;
    if ((sum & 255) != (e.acc & 255) || (lam < 60 && sum != e.acc))
        t.fail("op %zu: %llu updates of the %zu bytes of memory were due, %llu were made", i, (unsigned long long)e.acc, size, (unsigned long long)sum);
    if (lam >= 60 || e.acc < 100000) return;
    n01_big++;
    for (unsigned b = 0; b < bits; b++)
        if (bit[b] * 100 < sum * 35 || bit[b] * 100 > sum * 65)
            t.fail("op %zu: of %llu updates of %zu bytes %llu have bit %u of the address set", i, (unsigned long long)sum, size, (unsigned long long)bit[b], b);
    double want = (double)size * (1 - exp(-(double)(e.acc - e.acc_walk) / (double)size)) * 0.85;
    if (e.acc_walk) want = std::max(want, (double)std::min<uint64_t>(e.acc_walk, size) * 0.95);
    if ((double)touched < want) t.fail("op %zu: %llu updates reach %llu of %zu bytes, at least %.0f expected", i, (unsigned long long)sum, (unsigned long long)touched, size, want);
}
static bool n01(History &) { return n01_big != 0; }
PBT_PROP(N01, memory, 1, 3, 25, "at least 100000 updates of an identified memory region were counted") {
    Opts o;
    o.fips_pct = 40;
    o.ntg1_pct = 40;
    o.nomem_pct = 3;
    o.attack_pct = 30;
    o.init_attack_pct = 0;
    o.timerflag_pct = 0;
    o.badosr_pct = 0;
    o.hash_pct = 10;
    o.max_slots = 1;
    o.max_osr = 6;
    o.fixmem_pct = 85;
    o.w_safe = 4;
    o.w_read = 6;
    n01_big = n01_seen = 0;
    post_op = n01_look;
    run_history(t, o, n01);
    post_op = nullptr;
}
