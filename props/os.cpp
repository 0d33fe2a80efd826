// Properties about operating system failures, memory and the internal timer.
#include "runner.hpp"

PBT_PROP(F01, histories, 1, 3, 20, "at least one injected failure was delivered during a call") {
    HO o;
    o.kinds = {1, 1, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 4};
    o.fault_pct = 60;
    Runner r(t, o);
    r.run();
    if (r.st.faults) t.nontrivial();
}
PBT_PROP(F01, replace, 1, 2, 20, "a replacement was refused for lack of resources and the read repeated with them") {
    HO o;
    o.kinds = {1, 2, 3, 5, 6, 7};
    Runner r(t, o);
    r.run_replace();
    if (r.st.refused) t.nontrivial();
}
PBT_PROP(M01, histories, 1, 3, 20, "an injected failure was delivered or a collector was replaced or refused") {
    HO o;
    o.kinds = {1, 1, 2, 3, 3, 5, 6, 7, 8, 9, 4};
    o.fault_pct = 45;
    o.degrade_pct = 20;
    Runner r(t, o);
    r.run();
    if (r.st.faults || r.st.bad) t.nontrivial();
}
PBT_PROP(M02, histories, 1, 3, 20, "a lock was refused during init or allocation") {
    HO o;
    o.kinds = {5, 5, 6, 7};
    o.fault_pct = 65;
    o.sec_pct = 40;
    o.force_pct = 20;
    o.degrade_pct = 5;
    Runner r(t, o);
    r.run();
    if (r.st.locked) t.nontrivial();
}
PBT_PROP(T01, lifecycle, 1, 3, 20, "a counting thread was started") {
    if (!gt_ok()) t.discard();
    HO o;
    o.kinds = {8, 8, 8, 9, 1, 5, 12};
    o.fault_pct = 40;
    o.force_pct = 45;
    o.custom_pct = 60;
    o.ntg1_pct = 4;
    o.degrade_pct = 20;
    Runner r(t, o);
    r.run();
    if (r.st.starts) t.nontrivial();
}

// ---------------------------------------------------------------- H04 ----
PBT_PROP(H04, refused, 1, 1, 20, "a replacement was refused for lack of resources and the read repeated with them") {
    HO o;
    o.kinds = {1, 2, 3, 5, 6, 7};
    Runner r(t, o);
    r.run_replace();
    if (r.st.refused) t.nontrivial();
}

// ---------------------------------------------------------------- H03 ----
// a failure deep inside a long request: nothing of what was generated before may stay
PBT_PROP(H03, bulk, 1, 1, 30, "a request failed after at least one delivered block") {
    setup(t);
    C.scale = 1;
    unsigned flags = F_FIPS | F_NO_TIMER | 1u << 27;
    struct rand_data *e = jent_entropy_collector_alloc(0, flags);
    if (!e) t.fail("allocation refused");
    bool deep = !t.san && t.chance(1, 3);
    const size_t max = deep ? 70000 : 9000;
    std::vector<uint8_t> buf(max + 64, 0xc3);
    size_t len = deep ? 66000 + t.u(4000) : 100 + t.size(max - 100);
    // how many readings a block takes is learned from one
    uint64_t n0 = C.n;
    if (jent_read_entropy(e, (char *)buf.data(), 32) != 32) t.fail("read failed");
    uint64_t per = C.n - n0;
    memset(buf.data(), 0xc3, buf.size());
    uint64_t blocks = (len + 31) / 32;
    uint64_t good = deep ? 2049 + t.u(blocks - 2049) : t.u(blocks);
    Win w;
    w.from = C.n + per * good + t.u(per / 2);
    w.to = ~0ull;
    w.kind = 1;
    C.win.push_back(w);
    long r = jent_read_entropy(e, (char *)buf.data(), len);
    if (r >= 0) t.fail("a read of %zu bytes during which the clock lost all variation returned %ld", len, r);
    for (size_t i = 0; i < len; i++)
        if (buf[i] && buf[i] != 0xc3) t.fail("a read of %zu bytes failed with %ld after about %llu blocks but left generated data at offset %zu", len, r, (unsigned long long)good, i);
    for (size_t i = len; i < buf.size(); i++) if (buf[i] != 0xc3) t.fail("the failing read wrote beyond the buffer");
    if (field(status(e), "output.bytes") != "32" || field(status(e), "output.invocations") != "1") t.fail("the failing read counts as output");
    C.win.clear();
    if (jent_read_entropy(e, (char *)buf.data(), 32) != r) t.fail("the next read does not keep failing");
    jent_entropy_collector_free(e);
    t.note("%zu bytes, clock fails after block %llu: %ld", len, (unsigned long long)good, r);
    t.fp(len);
    t.fp(good);
    if (good) t.nontrivial();
}

// ---------------------------------------------------------------- S02 ----
// histories in which the internal timer is or may be in use
PBT_PROP(S02, forced, 1, 2, 20, "an allocation followed a failed start-up run") {
    if (!gt_ok()) t.discard();
    setup(t);
    hc.clear();
    hc_err.clear();
    shim::State &S = shim::S;
    int n0 = S.n_kat, g0 = S.n_gcd;
    S.kat_fail = true;
    bool kat = jent_selftest(nullptr) != 0 && S.n_kat == n0 + 1;
    S.kat_fail = false;
    bool gcd = jent_entropy_init_ex(0, F_NO_TIMER) == 0 && S.n_gcd == g0 + 1;
    if (!kat || !gcd) t.discard(); // the tests are not reached through the functions this case steers
    int passed = 1; // verdict of the last complete run: 0 failed, 1 passed, -1 not known
    bool forced = false;
    std::vector<struct rand_data *> cols;
    int n = 3 + (int)t.u(8), hit = 0;
    for (int i = 0; i < n; i++) {
        int kind = t.pick({0, 1, 1, 2, 2, 2, 3});
        unsigned osr = (unsigned)t.u(5);
        unsigned fl = os::gen_flags(t, 25, 5, 10, 40);
        Fault f;
        int trouble = (int)t.u(8); // 0 known answer, 1 divisor, 2 memory, 3 clock, 4 thread
        S.kat_fail = trouble == 0;
        S.gcd_fail = trouble == 1;
        if (trouble == 2) { f.kind = t.pick({1, 2, 5}); f.n = (int)t.u(6); f.err = EINVAL; }
        if (trouble == 4) { f.kind = 9; }
        arm(f);
        C.win.clear();
        C.bad_used = false;
        if (trouble == 3) {
            Win w;
            w.from = C.n + t.size(20000);
            w.to = w.from + 500 + t.size(30000);
            w.kind = 1 + (int)t.u(2);
            if (kind == 2 && passed != 0) w.from = w.to; // a dead clock at a collector that need not be tested is another matter
            C.win.push_back(w);
        }
        int k0 = S.n_kat, d0 = S.n_gcd, fired0 = S.fired;
        bool steer = S.kat_fail || S.gcd_fail;
        if (kind <= 1) {
            int r = kind == 0 ? jent_entropy_init() : jent_entropy_init_ex(osr, fl);
            t.note("%s(%u,0x%x)/%d=%d; ", kind ? "init_ex" : "init", osr, fl, trouble, r);
            if (S.n_kat == k0) t.fail("init ran no known-answer test");
            if (steer && !r) t.fail("init succeeded although its %s failed", S.kat_fail ? "known-answer test" : "divisor self test");
            passed = r == 0;
            if (fl & F_FORCE_TIMER || r || C.bad_used) forced = true;
        } else if (kind == 2) {
            struct rand_data *e = jent_entropy_collector_alloc(osr, fl);
            t.note("alloc(%u,0x%x)/%d=%s; ", osr, fl, trouble, e ? "ok" : "none");
            bool ran = S.n_kat != k0;
            if (e && passed == 0 && !ran) t.fail("a collector was handed out without start-up tests although the last run had failed (internal timer %s)", forced ? "in use" : "not in use");
            if (e && passed == 0 && S.n_gcd == d0) t.fail("a collector was handed out after a failed run without the divisor self test");
            if (e && ran && steer && !C.bad_used) t.fail("a collector was handed out although the %s failed", S.kat_fail ? "known-answer test" : "divisor self test");
            if (passed == 1 && ran && !C.bad_used && S.fired == fired0) t.fail("an allocation after a successful run repeats the start-up tests");
            if (passed == 0 && !e) hit++;
            if (passed == 0 && e) { hit++; t.label("retested"); }
            if (ran) passed = e ? 1 : steer ? 0 : -1;
            if (e) cols.push_back(e);
        } else if (!cols.empty()) {
            jent_entropy_collector_free(cols.back());
            cols.pop_back();
        }
        S.kat_fail = S.gcd_fail = false;
        clear_faults();
        C.win.clear();
        if (cols.size() > 3) { jent_entropy_collector_free(cols.back()); cols.pop_back(); }
    }
    for (auto *e : cols) jent_entropy_collector_free(e);
    t.fp(C.n);
    t.fp((uint64_t)S.n_kat);
    if (hit) t.nontrivial();
    jent_set_mock_timer(nullptr, nullptr);
}
