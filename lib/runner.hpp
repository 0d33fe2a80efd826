// Generated API histories with injected failures, judged by invariants.
#pragma once
#include "os.hpp"
using namespace os;

// ------------------------------------------------ recording thread handler ----
struct HCtx { bool live, started; uint8_t *raw; void *(*fn)(void *); void *arg; int starts; };
static std::vector<HCtx> hc;
static std::string hc_err;
static int h_fail_sign = -1; // any value but zero is a failure, as with pthread_create
static int h_init_fail = -1, h_start_fail = -1, h_inits, h_starts, h_calls;
static bool h_started_now() { for (auto &c : hc) if (c.started) return true; return false; }
static HCtx *h_find(void *p) { for (auto &c : hc) if (c.raw == p) return &c; return nullptr; }
static void h_bad(const char *m) { if (hc_err.empty()) hc_err = m; }
static int h_init(void **ctx) {
    h_calls++;
    if (h_inits++ == h_init_fail || h_init_fail == -2) { shim::S.fired++; return 12 * h_fail_sign; }
    uint8_t *p = (uint8_t *)malloc(1); // the context belongs to the handler: any size will do
    *p = 0x77;
    hc.push_back({true, false, p, nullptr, nullptr, 0});
    *ctx = p;
    return 0;
}
static void h_fini(void *ctx) {
    h_calls++;
    if (!ctx) return;
    HCtx *c = h_find(ctx);
    if (!c) return h_bad("handler context unknown to the handler passed to fini");
    if (!c->live) return h_bad("handler context disposed of twice");
    if (c->started) h_bad("handler context disposed of while its thread is running");
    c->live = false;
    if (*c->raw != 0x77) h_bad("the library modified the handler's context");
}
static void h_unrun(void *arg) {
    for (size_t i = 0; i < running.size(); i++) if (running[i] == arg) { running.erase(running.begin() + (long)i); return; }
}
static int h_start(void *ctx, jent_notime_start_routine fn, void *arg) {
    h_calls++;
    if (h_starts++ == h_start_fail || h_start_fail == -2) { shim::S.fired++; return 11 * h_fail_sign; }
    HCtx *c = h_find(ctx);
    if (!c) { h_bad("start with a context the handler did not create"); return -1; }
    if (!c->live) { h_bad("start with a disposed context"); return -1; }
    if (c->started) h_bad("thread started twice without a stop");
    c->started = true;
    c->fn = fn;
    c->arg = arg;
    c->starts++;
    running.push_back(arg);
    return 0;
}
static void h_stop(void *ctx) {
    h_calls++;
    if (!ctx) return;
    HCtx *c = h_find(ctx);
    if (!c) return h_bad("stop with a context the handler did not create");
    if (!c->live) return h_bad("stop with a disposed context");
    if (!c->started) return; // surplus stop: harmless
    c->started = false;
    h_unrun(c->arg);
    if (!gt_told_to_stop(c->arg)) return h_bad("stop requested while the counting thread was not told to end: it would never end");
    c->fn(c->arg); // what the thread does once told to stop
}
static struct jent_notime_thread custom = {h_init, h_fini, h_start, h_stop};

// ------------------------------------------------------------- histories ----
struct HO {
    int max_ops = 7;
    int fault_pct = 50, degrade_pct = 12;
    int force_pct = 15;
    int custom_pct = 30;
    int fips_pct = 30, ntg1_pct = 12, sec_pct = 20;
    std::vector<int> kinds;
    bool m02 = false;
    int max_osr = 5;
};
struct Col { struct rand_data *ec; unsigned osr, flags; bool suspect; std::string uuid; };
enum { K_INIT, K_INITEX, K_ALLOC, K_READ, K_SAFE, K_FREE, K_STATUS, K_N };
static const char *kn[] = {"init", "init_ex", "alloc", "read", "safe", "free", "status"};
struct Stat { int faults = 0, bad = 0, survivors = 0, locked = 0, starts = 0, refused = 0; };

struct Runner {
    pbt::Ctx &t;
    HO o;
    std::vector<Col> cols;
    bool forced = false;   // the internal timer may have been forced
    long last_ret = 0;
    bool any_madvise = false, is_custom = false;
    Stat st;
    Runner(pbt::Ctx &c, const HO &h) : t(c), o(h) {}

    bool required(unsigned f) { return f & (F_SECMEM | F_FIPS | F_NTG1); }
    // 1: has to succeed, 0: unknown, -1: has to be refused
    int legit(int kind, unsigned osr, unsigned f) {
        if (kind == K_INIT) return 1;
        if (osr > 20) return -1;
        if ((f & F_NO_TIMER) && (f & F_FORCE_TIMER)) return -1;
        if ((f & F_NTG1) && (f & F_FORCE_TIMER)) return -1;
        if (kind == K_ALLOC && (f & F_NOMEM) && (f & (F_FIPS | F_NTG1))) return -1;
        if (forced && (f & (F_NO_TIMER | F_NTG1))) return 0;
        return 1;
    }
    void common(const char *what, int fds) {
        if (!hc_err.empty()) t.fail("%s: %s", what, hc_err.c_str());
        if (h_started_now()) t.fail("%s returned with the counting thread still running", what);
        for (auto &v : shim::S.vts) if (!v.joined) t.fail("%s returned with the counting thread still running", what);
        if (shim::S.bad_join) t.fail("%s joined a thread that is not running", what);
        if (shim::S.fds_open != fds) t.fail("%s left a file descriptor open", what);
        if (shim::S.dirty_unmap) t.fail("%s: released memory was not wiped: %s", what, shim::S.dirty_msg.c_str());
        if (shim::S.bad_unmap) t.fail("%s unmapped something that is not one whole region", what);
        std::string l = layout(0, !any_madvise, false);
        if (!l.empty()) t.fail("%s: %s", what, l.c_str());
    }
    void probe(Col &c, const char *after) {
        uint8_t b[40];
        memset(b, 0, sizeof(b));
        if (c.suspect) return;
        long r = jent_read_entropy(c.ec, (char *)b, 33);
        if (r != 33) t.fail("collector is unusable after %s: read returned %ld", after, r);
        int z = 0;
        for (int i = 0; i < 33; i++) z += !b[i];
        if (z > 12) t.fail("read after %s delivered no data", after);
        common("read", 0);
    }
    // one call; ok is set when it delivered what was asked for
    bool call(int kind, unsigned osr, unsigned flags, size_t ci, size_t len, const Fault &f, const Win *w) {
        shim::State &S = shim::S;
        C.bad_used = false;
        C.win.clear();
        if (w) { Win x = *w; x.from += C.n; x.to += C.n; C.win.push_back(x); }
        arm(f);
        h_init_fail = h_start_fail = -1;
        h_fail_sign = f.n % 3 == 2 ? 1 : -1;
        if (is_custom && f.kind == 8) { if (f.n & 1) h_init_fail = h_inits + (f.n >> 1) % 3; else h_start_fail = h_starts + (f.n >> 1) % 4; }
        if (is_custom && f.kind == 9) { if (f.n & 1) h_init_fail = -2; else h_start_fail = -2; }
        if (f.kind == 4) any_madvise = true;
        int fired0 = S.fired, fds0 = S.fds_open;
        size_t live0 = shim::live_maps(), map0 = S.maps.size();
        int lg = legit(kind, osr, flags);
        if (kind != K_READ && kind != K_STATUS && (flags & F_FORCE_TIMER)) forced = true;
        bool ok = false;
        char what[120];
        snprintf(what, sizeof(what), "%s(osr=%u,flags=0x%x,len=%zu) with %s fault %d", kn[kind], osr, flags, len, kindname(f.kind), f.n);
        t.note("%s; ", what);
        switch (kind) {
        case K_INIT:
        case K_INITEX: {
            int r = kind == K_INIT ? jent_entropy_init() : jent_entropy_init_ex(osr, flags);
            int fired = S.fired - fired0;
            if (C.bad_used) forced = true; // may have fallen back to the internal timer
            if (!documented_init(r)) t.fail("%s returned undocumented %d", what, r);
            if (!fired && !C.bad_used && lg > 0 && r) t.fail("%s failed with %d without any fault", what, r);
            if (lg < 0 && !r) t.fail("%s accepted a contradictory request", what);
            if (shim::live_maps() != live0) t.fail("%s left %zd regions allocated", what, (ssize_t)(shim::live_maps() - live0));
            lockcheck(what, kind, flags, f, fired, r == 0, map0, lg);
            ok = !r;
            break;
        }
        case K_ALLOC: {
            struct rand_data *e = jent_entropy_collector_alloc(osr, flags);
            int fired = S.fired - fired0;
            if (C.bad_used) forced = true;
            if (!e && !fired && !C.bad_used && lg > 0) t.fail("%s was refused without any fault", what);
            if (e && lg < 0) { jent_entropy_collector_free(e); t.fail("%s accepted a contradictory request", what); }
            if (!e && shim::live_maps() != live0) t.fail("%s failed but left %zd regions allocated", what, (ssize_t)(shim::live_maps() - live0));
            lockcheck(what, kind, flags, f, fired, e != nullptr, map0, lg);
            if (e) {
                Col c = {e, osr, flags, false, ""};
                char u[64] = "";
                if (jent_uuid(e, u, sizeof(u)) || strlen(u) != 36) t.fail("%s: collector has no identifier", what);
                c.uuid = u;
                if (fired) { st.survivors++; }
                std::string sm = field(status(e), "configuration.secureMemory");
                if (sm != (required(flags) ? "true" : "false")) t.fail("%s: status reports secureMemory %s", what, sm.c_str());
                cols.push_back(c);
                clear_faults();
                h_init_fail = h_start_fail = -1;
                C.win.clear();
                probe(cols.back(), what);
            }
            ok = e != nullptr;
            break;
        }
        case K_READ:
        case K_SAFE: {
            Col &c = cols[ci];
            const size_t G = 64;
            std::vector<uint8_t> buf(len + 2 * G, 0xc3);
            struct rand_data *before = c.ec;
            long r = kind == K_READ ? jent_read_entropy(c.ec, (char *)buf.data() + G, len) : jent_read_entropy_safe(&c.ec, (char *)buf.data() + G, len);
            int fired = S.fired - fired0;
            last_ret = r;
            if (C.bad_used && kind == K_SAFE && !(c.flags & (F_NO_TIMER | F_NTG1))) forced = true;
            if (!c.ec) t.fail("%s lost the collector", what);
            if (!documented_read(r) || (r >= 0 && r != (long)len)) t.fail("%s returned %ld", what, r);
            for (size_t k = 0; k < G; k++) if (buf[k] != 0xc3 || buf[len + G + k] != 0xc3) t.fail("%s wrote outside the buffer", what);
            if (r < 0)
                for (size_t k = 0; k < len; k++) if (buf[G + k] != 0xc3 && buf[G + k]) t.fail("%s failed with %ld but left data in the buffer", what, r);
            if (!c.suspect && !fired && !C.bad_used && r != (long)len) t.fail("%s failed with %ld without any fault", what, r);
            if (!c.suspect && fired && !C.bad_used && r < 0 && r != -4) t.fail("%s: refused thread reported as %ld instead of the timer error", what, r);
            char u[64] = "";
            if (jent_uuid(c.ec, u, sizeof(u)) || c.uuid != u) t.fail("%s changed the identifier", what);
            // a replacement made under the requirement is locked as well
            if (c.ec != before && required(c.flags)) {
                std::string l = layout(map0, false, true);
                if (!l.empty()) t.fail("%s: replacement collector: %s", what, l.c_str());
            }
            if (C.bad_used) c.suspect = true;
            ok = r == (long)len;
            break;
        }
        case K_FREE:
            jent_entropy_collector_free(cols[ci].ec);
            cols.erase(cols.begin() + (long)ci);
            ok = true;
            break;
        default:
            status(cols[ci].ec);
            ok = true;
        }
        if (S.fired != fired0) { st.faults++; char b[40]; snprintf(b, 40, "fault-%s", kindname(f.kind)); t.label(b); }
        if (C.bad_used) st.bad++;
        st.starts = h_starts + S.n_pthread_create;
        clear_faults();
        h_init_fail = h_start_fail = -1;
        C.win.clear();
        common(what, fds0);
        return ok;
    }
    void lockcheck(const char *what, int kind, unsigned flags, const Fault &f, int fired, bool ok, size_t map0, int lg) {
        bool req = kind != K_INIT && required(flags);
        if (ok && req) {
            std::string l = layout(map0, false, true);
            if (!l.empty()) t.fail("%s succeeded but %s", what, l.c_str());
        }
        if (f.kind < 5 || f.kind > 7 || !fired || C.bad_used) return;
        st.locked++;
        bool tolerated = f.err == EPERM || f.err == ENOMEM || f.err == EAGAIN;
        if (ok && (req || !tolerated)) t.fail("%s succeeded although locking was refused (errno %d)", what, f.err);
        if (!ok && !req && tolerated && lg > 0) t.fail("%s failed although a refused lock (errno %d) is to be tolerated", what, f.err);
    }
    void retry_replaced(size_t ci, unsigned osr, unsigned flags, size_t len) {
        if (!(last_ret == -2 || last_ret == -3 || last_ret == -5 || last_ret == -9) || forced || !(cols[ci].flags & (F_NO_TIMER | F_NTG1))) return;
        if (atoi(field(status(cols[ci].ec), "configuration.osr").c_str()) >= 20) return;
        Fault none;
        t.label("replacement-refused");
        st.refused++;
        if (!call(K_SAFE, osr, flags, ci, len, none, nullptr))
            t.fail("safe read still fails with %ld although the resources for the replacement are back", last_ret);
    }
    // safe reads on failing collectors while the operating system refuses resources
    void run_replace() {
        setup(t);
        is_custom = false;
        unsigned flags = (t.chance(3, 4) ? F_FIPS : F_NTG1) | F_NO_TIMER | (1u + (unsigned)t.u(6)) << 27, osr = (unsigned)t.u(6);
        Fault none;
        if (!call(K_ALLOC, osr, flags, 0, 0, none, nullptr)) t.fail("allocation failed");
        int n = 1 + (int)t.u(3);
        for (int i = 0; i < n; i++) {
            Fault f;
            f.kind = o.kinds[t.u(o.kinds.size())];
            f.n = (int)t.u(8);
            f.err = t.pick({EPERM, ENOMEM, EAGAIN});
            Win w;
            w.from = t.size(6000);
            w.to = w.from + 1200 + t.size(9000);
            w.kind = t.chance(4, 5) ? 1 : 2;
            size_t len = 1 + t.u(80);
            int fired0 = shim::S.fired;
            bool ok = call(K_SAFE, osr, flags, 0, len, f, &w);
            if (!ok && shim::S.fired != fired0) retry_replaced(0, osr, flags, len);
            if (!ok) break;
        }
        while (!cols.empty()) { jent_entropy_collector_free(cols.back().ec); cols.pop_back(); }
        common("final free", 0);
        if (shim::live_maps()) t.fail("%zu regions still allocated after everything was freed", shim::live_maps());
        t.fp(C.n);
        t.fp((uint64_t)shim::S.n_mmap);
        jent_set_mock_timer(nullptr, nullptr);
    }
    void run() {
        setup(t);
        hc.clear();
        hc_err.clear();
        h_inits = h_starts = h_calls = 0;
        is_custom = t.chance(o.custom_pct, 100);
        if (is_custom && jent_entropy_switch_notime_impl(&custom)) t.fail("registering a complete handler was refused");
        bool usetimer = gt_ok() && o.force_pct && t.chance(1, 2);
        int n = 2 + (int)t.u((uint64_t)o.max_ops - 1);
        for (int i = 0; i < n; i++) {
            int kind;
            if (cols.empty()) kind = t.pick({K_ALLOC, K_INITEX, K_ALLOC, K_INIT});
            else kind = t.pick({K_READ, K_SAFE, K_ALLOC, K_SAFE, K_FREE, K_INITEX, K_READ, K_STATUS, K_INIT, K_ALLOC});
            if (kind == K_ALLOC && cols.size() >= 3) kind = K_FREE;
            size_t ci = cols.empty() ? 0 : t.u(cols.size());
            unsigned osr = t.chance(1, 2) ? 0 : (unsigned)t.u((uint64_t)o.max_osr + 1);
            if (t.chance(1, 30)) osr = t.pick({21u, 0xffffffffu});
            unsigned flags = os::gen_flags(t, o.fips_pct, o.ntg1_pct, o.sec_pct, usetimer ? o.force_pct * 2 : 0);
            if (t.chance(1, 40)) flags |= F_FORCE_TIMER | F_NO_TIMER;
            if (!gt_ok()) flags |= F_NO_TIMER;
            size_t len = t.chance(1, 4) ? t.u(200) : t.u(40);
            Fault f;
            if (t.chance(o.fault_pct, 100)) {
                f.kind = o.kinds[t.u(o.kinds.size())];
                f.n = (int)t.u(t.chance(1, 3) ? 30 : 7);
                f.err = t.chance(2, 3) ? t.pick({EPERM, ENOMEM, EAGAIN}) : t.pick({EINVAL, ENOSYS, EIO});
            }
            Win w, *wp = nullptr;
            if ((kind == K_SAFE || kind == K_ALLOC || kind == K_READ) && t.chance(o.degrade_pct * (kind == K_SAFE ? 3 : 1), 100)) {
                w.from = t.size(40000);
                w.to = w.from + 200 + t.size(9000);
                w.kind = t.chance(4, 5) ? 1 : 2;
                wp = &w;
            }
            if (kind == K_SAFE && wp && len == 0) len = 1;
            bool timer_fault = f.kind == 8 || f.kind == 9;
            (void)timer_fault;
            int fired0 = shim::S.fired;
            bool ok = call(kind, osr, flags, ci, len, f, wp);
            bool fired = shim::S.fired != fired0;
            // a collector that could not be replaced for lack of resources is still there, and is replaced once they are back
            if (kind == K_SAFE && fired && !ok) retry_replaced(ci, osr, flags, len);
            // whatever happened, the others keep working ...
            if (fired && !cols.empty() && t.chance(1, 2)) { size_t k = t.u(cols.size()); probe(cols[k], "a fault elsewhere"); }
            // ... and without the failure the same call works
            if (fired && !ok && !C.bad_used && !wp && (kind == K_INIT || kind == K_INITEX || kind == K_ALLOC || (kind <= K_SAFE && ci < cols.size() && !cols[ci].suspect))) {
                Fault none;
                if (!call(kind, osr, flags, ci, len, none, nullptr) && (kind >= K_READ || legit(kind, osr, flags) > 0))
                    t.fail("%s still fails after the fault is gone", kn[kind]);
            }
        }
        while (!cols.empty()) { jent_entropy_collector_free(cols.back().ec); cols.pop_back(); }
        common("final free", 0);
        for (auto &c : hc) if (c.live) t.fail("handler context never disposed of");
        if (shim::live_maps()) t.fail("%zu regions still allocated after everything was freed", shim::live_maps());
        if (shim::S.n_cpualloc - 0 != shim::S.n_cpufree + 0 && shim::S.fired == 0) t.fail("CPU set leaked");
        t.fp(C.n);
        t.fp((uint64_t)shim::S.n_mmap);
        t.fp((uint64_t)h_calls);
        jent_set_mock_timer(nullptr, nullptr);
    }
};

