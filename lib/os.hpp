// Histories without a full model: generated API calls under a generated clock
// and injected operating system failures, judged by invariants.
#pragma once
#include "pbt.hpp"
#include "shim.hpp"
#include "json.hpp"
#include "jitterentropy.h"
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <vector>

extern "C" {
typedef void (*jent_mock_timer_cb_t)(void *arg, uint64_t *out);
int jent_set_mock_timer(jent_mock_timer_cb_t cb, void *arg);
int gt_ok(void);
void gt_bump(void *ec, uint64_t d);
int gt_told_to_stop(void *ec);
}

namespace os {
enum { F_NOMEM = 1 << 2, F_FORCE_TIMER = 1 << 3, F_NO_TIMER = 1 << 4, F_FIPS = 1 << 5, F_NTG1 = 1 << 6, F_CACHE_ALL = 1 << 7, F_SECMEM = 1 << 8 };

// --------------------------------------------------------------- clock ----
struct Win { uint64_t from, to; int kind; }; // kind 1: constant steps, 2: stands still, 3: coarse
struct Clock {
    uint64_t now = 1000000, rng = 7, n = 0;
    uint64_t scale = 1;
    std::vector<Win> win;
    bool bad_used = false;
    uint64_t step() {
        uint64_t i = n++;
        uint64_t d = (100 + pbt::splitmix(rng) % 100003) * scale;
        for (auto &w : win)
            if (i >= w.from && i < w.to) {
                bad_used = true;
                d = w.kind == 1 ? 1000 * scale : 0;
            }
        if (n > 60000000) {
            if (pbt::cur) { snprintf(pbt::cur->slot->msg, 200, "the library keeps reading the clock without end"); pbt::cur->slot->state = 2; }
            _exit(0);
        }
        return d;
    }
};
static Clock C;
static void mock(void *, uint64_t *out) { C.now += C.step(); *out = C.now; }
// running virtual counting threads (builtin handler) or started ones (custom handler)
static std::vector<void *> running;
static void on_yield() {
    uint64_t d = 1 + C.step();
    bool any = false;
    for (auto &v : shim::S.vts) if (!v.joined) { gt_bump(v.arg, d); any = true; }
    for (void *a : running) { gt_bump(a, d); any = true; }
    if (!any) {
        static uint64_t idle = 0;
        if (++idle > 2000000) {
            if (pbt::cur) { snprintf(pbt::cur->slot->msg, 200, "the library waits for a counting thread that is not running"); pbt::cur->slot->state = 2; }
            _exit(0);
        }
    }
}

static inline void setup(pbt::Ctx &t) {
    C = Clock();
    running.clear();
    C.rng = t.u(1u << 30) + 3;
    if (t.chance(1, 4)) C.scale = 1 + t.u(1000);
    shim::S.track = true;
    shim::S.vsysfs = true;
    shim::S.sysconf_over[_SC_LEVEL1_DCACHE_SIZE] = 2048;
    shim::S.sysconf_over[_SC_LEVEL2_CACHE_SIZE] = 0;
    shim::S.sysconf_over[_SC_LEVEL3_CACHE_SIZE] = 0;
    shim::S.sysconf_over[_SC_NPROCESSORS_CONF] = 1;
    shim::S.vcpus = true;
    shim::S.cpu_kernel_bits = 128;
    shim::S.cpus = {0, 1, 2, 3};
    shim::S.vthreads = true;
    shim::S.on_yield = on_yield;
    jent_set_mock_timer(mock, nullptr);
}

// ------------------------------------------------------------- results ----
// documented verdicts of the power-on test (jitterentropy.h)
static inline bool documented_init(int r) {
    switch (r) { case 0: case 1: case 2: case 3: case 6: case 8: case 9: case 10: case 11: case 12: case 13: return true; }
    return false;
}
static inline bool documented_read(long r) { return r >= -11; }

static inline std::string status(struct rand_data *e) {
    std::vector<char> b(8192);
    if (jent_status(e, b.data(), b.size())) return "";
    return b.data();
}
static inline std::string field(const std::string &doc, const char *k) {
    Json j;
    if (!j.parse(doc)) return "";
    return j.get(k);
}

// every live region of the library: enclosed by guard pages, payload accessible,
// excluded from dumps; `locked` additionally asks for locked payload pages
static inline std::string layout(size_t first_map, bool dontdump, bool locked) {
    for (size_t i = first_map; i < shim::S.maps.size(); i++) {
        auto &m = shim::S.maps[i];
        if (!m.live) continue;
        size_t n = m.prot.size();
        char b[200];
        if (n < 3 || m.prot[0] != PROT_NONE || m.prot[n - 1] != PROT_NONE) {
            snprintf(b, sizeof(b), "region #%d of %zu bytes is not enclosed by inaccessible pages", m.seq, m.len);
            return b;
        }
        for (size_t k = 1; k + 1 < n; k++) {
            if (m.prot[k] != (PROT_READ | PROT_WRITE)) { snprintf(b, sizeof(b), "region #%d: page %zu of the payload has protection %d", m.seq, k, m.prot[k]); return b; }
            if (dontdump && !m.dontdump[k]) { snprintf(b, sizeof(b), "region #%d of %zu bytes: page %zu of the payload is not excluded from dumps", m.seq, m.len, k); return b; }
            if (locked && !m.locked[k]) { snprintf(b, sizeof(b), "region #%d of %zu bytes: page %zu of the payload is not locked although secure memory was required", m.seq, m.len, k); return b; }
        }
    }
    return "";
}

struct Fault {
    int kind = 0; // 0 none 1 mmap nth 2 mmap from nth 3 mprotect 4 madvise 5 mlock nth 6 mlock all 7 mlock from nth 8 pthread nth 9 pthread all 10 getrandom 11 random all 12 sysconf/affinity 13 cpualloc
    int n = 0, err = 12;
};
static inline void clear_faults() {
    auto &S = shim::S;
    S.fail_mmap_at = S.fail_mmap_from = S.fail_mprotect_at = S.fail_madvise_at = -1;
    S.mlock_mode = 0;
    S.fail_mlock_at = -1;
    S.fail_pthread_create_at = -1;
    S.vrandom = false;
    S.grnd.clear();
    S.files.erase("/dev/urandom");
    S.getaff_err = 0;
    S.fail_cpualloc_at = -1;
    S.sysconf_over.erase(_SC_NPROCESSORS_ONLN);
}
static inline void arm(const Fault &f) {
    auto &S = shim::S;
    clear_faults();
    switch (f.kind) {
    case 1: S.fail_mmap_at = S.n_mmap + f.n; break;
    case 2: S.fail_mmap_from = S.n_mmap + f.n; break;
    case 3: S.fail_mprotect_at = S.n_mprotect + f.n; break;
    case 4: S.fail_madvise_at = f.n & 1 ? -2 : S.n_madvise + f.n; break;
    case 5: S.mlock_mode = 1; S.fail_mlock_at = S.n_mlock + f.n; S.fail_mlock_err = f.err; break;
    case 6: S.mlock_mode = 2; S.fail_mlock_err = f.err; break;
    case 7: S.mlock_mode = 3; S.fail_mlock_at = S.n_mlock + f.n; S.fail_mlock_err = f.err; break;
    case 8: S.fail_pthread_create_at = S.n_pthread_create + f.n; break;
    case 9: S.fail_pthread_create_at = -2; break;
    case 10: S.vrandom = true; S.grnd.push_back({f.n & 1 ? 2 : 0, (size_t)f.n, 0}); S.grnd.push_back({1, 0, f.n % 3 ? EINTR : ENOSYS}); break;
    case 11: {
        S.vrandom = true;
        for (int i = 0; i < 40; i++) S.grnd.push_back({1, 0, ENOSYS});
        shim::VFile v;
        if (f.n & 1) v.exists = false; else v.data = std::string((size_t)f.n, 'r');
        S.files["/dev/urandom"] = v;
        break;
    }
    case 12: S.getaff_err = f.n & 1 ? EPERM : ESRCH; S.sysconf_over[_SC_NPROCESSORS_ONLN] = f.n % 3 ? 4 : -1; break;
    case 13: S.fail_cpualloc_at = S.n_cpualloc + (f.n & 1); break;
    }
}
static inline Fault gen_fault(pbt::Ctx &t, std::initializer_list<int> kinds) {
    Fault f;
    f.kind = t.pick(kinds);
    f.n = (int)t.u(t.chance(1, 3) ? 24 : 7);
    f.err = t.pick({EPERM, ENOMEM, EAGAIN});
    return f;
}
static inline unsigned gen_flags(pbt::Ctx &t, int fips_pct = 30, int ntg1_pct = 12, int sec_pct = 20, int force_pct = 0) {
    unsigned f = 0;
    if (t.chance(fips_pct, 100)) f |= F_FIPS;
    if (t.chance(ntg1_pct, 100)) f |= F_NTG1;
    if (t.chance(sec_pct, 100)) f |= F_SECMEM;
    if (!(f & (F_FIPS | F_NTG1)) && t.chance(1, 5)) f |= F_NOMEM;
    if (t.chance(1, 8)) f |= F_CACHE_ALL;
    if (t.chance(force_pct, 100)) { if (!(f & F_NTG1)) f |= F_FORCE_TIMER; }
    else if (t.chance(1, 5)) f |= F_NO_TIMER;
    if (t.chance(2, 3)) f |= (t.chance(1, 10) ? 8u + (unsigned)t.u(6) : 1u + (unsigned)t.u(7)) << 27;
    if (t.chance(1, 8)) f |= (unsigned)t.u(3) << 24;
    return f;
}
static inline const char *kindname(int k) {
    static const char *n[] = {"none", "mmap", "mmap-all-from", "mprotect", "madvise", "mlock", "mlock-all", "mlock-from", "thread", "thread-all", "getrandom", "random", "affinity", "cpualloc"};
    return n[k];
}
} // namespace os
