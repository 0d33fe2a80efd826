// Thread handling of every platform: the source is compiled for each of them
// against generated processors, threads and refusals.
#include "pbt.hpp"
#include "shim.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <pthread.h>
extern "C" {
#include "../pstub/windows.h"
#include "../pstub/apple/mach/thread_policy.h"
#define B(n) int gt_##n##_ok(void); int gt_##n##_pin(unsigned long); int gt_##n##_start(int, void *); void gt_##n##_stop(int); void gt_##n##_clear(int);
#define ALL B(win) B(apple) B(fbsd) B(nbsd) B(obsd) B(other) B(bare) B(linux)
ALL
#undef B
}
using shim::S;
namespace {
enum { WIN, APPLE, FBSD, NBSD, OBSD, OTHER, BARE, LINUX };
struct Build { const char *name; int (*ok)(); int (*pin)(unsigned long); int (*start)(int, void *); void (*stop)(int); void (*clear)(int); };
#define B(n) {#n, gt_##n##_ok, gt_##n##_pin, gt_##n##_start, gt_##n##_stop, gt_##n##_clear},
const Build builds[] = {ALL};
#undef B
std::string trouble;
void bad(const std::string &s) { if (trouble.empty()) trouble = s; }
// what was asked of the system: one entry per request, the CPUs (or tags) named
std::vector<std::vector<uint64_t>> asked;
bool refuse;
// ---- Windows ----
struct Group { uint64_t mask; int max; };
std::vector<Group> groups;
int glpi_fail, glpi_calls, record_kind;
uint32_t last_error;
bool malloc_fails;
std::set<void *> heap;
struct Th { unsigned (*fn)(void *); void *arg; bool waited = false, open = true, slow = false; };
std::vector<Th> ths;
bool begin_fails;
int begin_errno;
std::vector<void *> ran;
// ---- NetBSD ----
uint64_t nb_limit;
bool nb_create_fails;
int nb_live;
} // namespace
struct ps_cpuset { std::set<uint64_t> in; bool junk = true; };
struct bsd_set { long bits[16]; };
extern "C" {
int gt_routine(void *a) { ran.push_back(a); return 0; }
void *gt_malloc(size_t n) { if (malloc_fails) { S.fired++; return nullptr; } void *p = malloc(n ? n : 1); memset(p, 0xee, n); heap.insert(p); return p; }
void gt_release(void *p) { if (p && !heap.erase(p)) { bad("a pointer was released that was not allocated"); return; } free(p); }
DWORD GetLastError(void) { return last_error; }
HANDLE GetCurrentThread(void) { return (HANDLE)-2; }
void pstub_zero(void *p, size_t n) { memset(p, 0, n); }
static std::vector<uint8_t> group_record() {
    size_t n = groups.size(), head = offsetof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, Group) + offsetof(GROUP_RELATIONSHIP, GroupInfo);
    std::vector<uint8_t> v(head + n * sizeof(PROCESSOR_GROUP_INFO), 0);
    SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX h;
    memset(&h, 0, sizeof h);
    h.Relationship = RelationGroup;
    h.Size = (DWORD)v.size();
    h.Group.MaximumGroupCount = (WORD)n;
    h.Group.ActiveGroupCount = (WORD)n;
    if (record_kind == 1) h.Group.ActiveGroupCount = (WORD)(n + 1 + n % 3); // announces more than it holds
    if (record_kind == 2) h.Size = (DWORD)(v.size() + 48);                  // reaches beyond what was filled in
    if (record_kind == 3) h.Relationship = RelationCache;
    if (record_kind == 4) { v.resize(head - 8); h.Size = (DWORD)v.size(); }
    if (record_kind == 5) v.resize(4);
    memcpy(v.data(), &h, std::min(v.size(), head));
    for (size_t i = 0; i < n && head + (i + 1) * sizeof(PROCESSOR_GROUP_INFO) <= v.size(); i++) {
        PROCESSOR_GROUP_INFO g;
        memset(&g, 0, sizeof g);
        g.MaximumProcessorCount = (BYTE)groups[i].max;
        g.ActiveProcessorCount = (BYTE)__builtin_popcountll(groups[i].mask);
        g.ActiveProcessorMask = groups[i].mask;
        memcpy(v.data() + head + i * sizeof g, &g, sizeof g);
    }
    return v;
}
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP r, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX b, PDWORD len) {
    glpi_calls++;
    if (glpi_fail == glpi_calls) { last_error = 5; return 0; }
    if (r != RelationGroup && r != RelationAll) { last_error = 87; return 0; }
    if (glpi_fail == 3 && glpi_calls == 2) groups.push_back({1, 1}); // a group appears meanwhile
    std::vector<uint8_t> v = group_record();
    if (!b || *len < v.size()) { *len = (DWORD)v.size(); last_error = ERROR_INSUFFICIENT_BUFFER; return 0; }
    memcpy(b, v.data(), v.size());
    *len = (DWORD)v.size();
    return 1;
}
BOOL SetThreadGroupAffinity(HANDLE h, const GROUP_AFFINITY *to, GROUP_AFFINITY *was) {
    if (h != (HANDLE)-2) bad("another thread than the calling one was pinned");
    if (to->Reserved[0] || to->Reserved[1] || to->Reserved[2]) { bad("the reserved words of the request are set"); return 0; }
    std::vector<uint64_t> v;
    for (int i = 0; i < 64; i++) if (to->Mask >> i & 1) v.push_back((uint64_t)to->Group * 64 + (uint64_t)i);
    asked.push_back(v);
    if (was) *was = *to;
    return !refuse;
}
uintptr_t _beginthreadex(void *, unsigned, unsigned (*fn)(void *), void *arg, unsigned flags, unsigned *id) {
    if (flags) bad("the thread is created suspended");
    if (id) *id = 7;
    if (begin_fails) { S.fired++; errno = begin_errno; return 0; }
    ths.push_back({fn, arg});
    return 0x4000 + ths.size();
}
static Th *th_of(HANDLE h) {
    size_t i = (uintptr_t)h - 0x4000;
    if (!h || i < 1 || i > ths.size()) { bad("a thread was waited for or closed that was never created"); return nullptr; }
    return &ths[i - 1];
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) {
    Th *t = th_of(h);
    if (!t) return 0xffffffffu;
    if (!t->open) { bad("a closed handle was waited for"); return 0xffffffffu; }
    if (ms != INFINITE && t->slow) return 258;
    if (!t->waited) { t->waited = true; t->fn(t->arg); }
    return 0;
}
BOOL CloseHandle(HANDLE h) {
    Th *t = th_of(h);
    if (!t) return 0;
    if (!t->open) { bad("a handle was closed twice"); return 0; }
    if (!t->waited) bad("the handle was closed before the thread ended");
    t->open = false;
    return 1;
}
// ---- macOS ----
thread_t ps_mach_thread(unsigned long th) { return th == (unsigned long)pthread_self() ? 77 : 78; }
static int mach_rc;
kern_return_t thread_policy_set(thread_t th, int flavor, thread_policy_t info, unsigned count) {
    if (th != 77) bad("another thread than the calling one was pinned");
    if (flavor != THREAD_AFFINITY_POLICY || count != 1) { bad("the policy request is malformed"); return KERN_INVALID_ARGUMENT; }
    asked.push_back({(uint64_t)(int64_t)info[0]});
    return mach_rc;
}
// ---- FreeBSD ----
void ps_bsd_zero(struct bsd_set *s) { memset(s, 0, sizeof *s); }
void ps_bsd_set(size_t n, struct bsd_set *s) { if (n >= 1024) { bad("the set was written outside"); return; } s->bits[n / 64] |= (long)(1ul << n % 64); }
int cpuset_setaffinity(int level, int which, int64_t id, size_t n, const struct bsd_set *s) {
    if (level != 3 || which != 1 || id != -1) bad("another object than the calling thread was pinned");
    if (n != 128) { errno = ERANGE; return -1; }
    std::vector<uint64_t> v;
    for (unsigned i = 0; i < 1024; i++) if ((unsigned long)s->bits[i / 64] >> i % 64 & 1) v.push_back(i);
    asked.push_back(v);
    if (refuse) { errno = EDEADLK; return -1; }
    return 0;
}
// ---- NetBSD ----
struct ps_cpuset *cpuset_create(void) { if (nb_create_fails) { S.fired++; return nullptr; } nb_live++; return new ps_cpuset; }
void cpuset_destroy(struct ps_cpuset *s) { if (!s) { bad("no set was destroyed"); return; } nb_live--; delete s; }
void cpuset_zero(struct ps_cpuset *s) { s->in.clear(); s->junk = false; }
int cpuset_set(unsigned long c, struct ps_cpuset *s) { if (c >= nb_limit) return -1; s->in.insert(c); return 0; }
size_t cpuset_size(const struct ps_cpuset *) { return nb_limit / 8; }
int ps_setaffinity_np(unsigned long th, size_t n, struct ps_cpuset *s) {
    if (th != (unsigned long)pthread_self()) bad("another thread than the calling one was pinned");
    if (n != nb_limit / 8) bad("the size of the set is wrong");
    asked.push_back(std::vector<uint64_t>(s->in.begin(), s->in.end()));
    return refuse ? EPERM : 0;
}
}
namespace {
const Build &fresh(pbt::Ctx &t, int &k, std::initializer_list<int> of) {
    k = t.pick(of);
    const Build &b = builds[k];
    if (!b.ok()) t.discard();
    shim::reset();
    trouble.clear();
    asked.clear();
    ths.clear();
    ran.clear();
    heap.clear();
    groups.clear();
    glpi_fail = glpi_calls = record_kind = nb_live = 0;
    refuse = malloc_fails = begin_fails = nb_create_fails = false;
    for (int i = 0; i < 4; i++) b.clear(i);
    t.label(b.name);
    return b;
}
void after(pbt::Ctx &t, const Build &b) {
    if (!heap.empty()) t.fail("%s: memory was leaked", b.name);
    if (nb_live) t.fail("%s: a processor set was leaked", b.name);
    if (S.n_cpualloc - (S.fail_cpualloc_at >= 0 && S.n_cpualloc > S.fail_cpualloc_at) != S.n_cpufree) t.fail("%s: a processor set was leaked", b.name);
    if (!trouble.empty()) t.fail("%s: %s", b.name, trouble.c_str());
}
} // namespace

PBT_PROP(X05, pin, 500, 2, 20, "a processor was named, and the system has holes, groups or refuses") {
    int k;
    const Build &b = fresh(t, k, {WIN, WIN, WIN, WIN, APPLE, FBSD, NBSD, OBSD, OTHER, BARE, LINUX, LINUX});
    unsigned long cpu = t.chance(1, 2) ? t.u(70) : t.pick({0ul, 63ul, 64ul, 127ul, 1022ul, 1023ul, 1024ul, 1025ul, 2047ul, 2048ul, 65534ul, 65535ul, 65536ul, 1ul << 20, 0x7ffffffeul, 0x7ffffffful, 0x80000000ul, 0xfffffffful, 0x100000000ul, 0x100000003ul, ULONG_MAX});
    refuse = t.chance(1, 5);
    bool ok = !refuse, hole = false;
    uint64_t want = cpu;
    bool request = true; // something may be asked of the system
    switch (k) {
    case WIN: {
        int n = 1 + (int)t.u(4);
        uint64_t total = 0;
        for (int i = 0; i < n; i++) {
            int sz = (int)t.pick({1u, 2u, 8u, 40u, 63u, 64u, (unsigned)(1 + t.u(64))});
            uint64_t all = sz == 64 ? ~0ull : (1ull << sz) - 1, m = all;
            if (t.chance(2, 3)) { m &= t.u64() | (t.chance(1, 2) ? t.u64() : 0); if (!m && i == 0) m = 1ull << (sz - 1); }
            if (m != all) hole = true;
            groups.push_back({m, sz});
            total += (uint64_t)__builtin_popcountll(m);
        }
        if (t.chance(2, 3)) cpu = t.u(total);
        else if (t.chance(1, 2)) cpu = total + t.u(3) - (t.chance(1, 2) && total > 1 ? 2 : 0);
        glpi_fail = t.chance(1, 6) ? 1 + (int)t.u(3) : 0;
        record_kind = t.chance(1, 8) ? 1 + (int)t.u(5) : 0;
        malloc_fails = t.chance(1, 12);
        if (cpu >= total || glpi_fail || record_kind || malloc_fails) { ok = false; request = false; }
        else {
            uint64_t left = cpu;
            for (size_t g = 0; g < groups.size(); g++) {
                uint64_t c = (uint64_t)__builtin_popcountll(groups[g].mask);
                if (left >= c) { left -= c; continue; }
                uint64_t m = groups[g].mask;
                while (left--) m &= m - 1;
                want = g * 64 + (uint64_t)__builtin_ctzll(m);
                break;
            }
        }
        if (n > 1) hole = true;
        break;
    }
    case APPLE:
        mach_rc = refuse ? t.pick({KERN_NOT_SUPPORTED, KERN_INVALID_ARGUMENT, 5}) : KERN_SUCCESS;
        if (cpu >= 0x7fffffff) { ok = false; request = false; }
        want = cpu + 1;
        break;
    case FBSD: if (cpu >= 1024) { ok = false; request = false; } break;
    case NBSD:
        nb_limit = t.pick({64u, 256u, 1024u});
        nb_create_fails = t.chance(1, 6);
        if (cpu >= nb_limit || nb_create_fails) { ok = false; request = false; }
        break;
    case LINUX:
        if (refuse) S.setaff_err = t.pick({EPERM, EINVAL, ESRCH});
        if (t.chance(1, 5)) S.fail_cpualloc_at = 0;
        if (cpu >= 65536 || (cpu >= 1024 && S.fail_cpualloc_at == 0)) { ok = false; request = false; }
        hole = cpu >= 1024;
        break;
    default: ok = false; request = false;
    }
    int r = b.pin(cpu);
    if (k == LINUX) for (auto &p : S.pinned) asked.push_back(std::vector<uint64_t>(p.begin(), p.end()));
    t.note("%s: processor %lu of %zu groups -> %d, %zu requests", b.name, cpu, groups.size(), r, asked.size());
    for (auto &g : groups) t.note(" %llx", (unsigned long long)g.mask);
    if (ok ? r != 0 : r >= 0) t.fail("%s: pinning to processor %lu returned %d, it %s", b.name, cpu, r, ok ? "was possible" : "was not");
    if (!request && !asked.empty()) t.fail("%s: the thread was pinned for processor %lu, which cannot be named", b.name, cpu);
    if (request && asked.empty()) t.fail("%s: nothing was asked of the system", b.name);
    for (auto &a : asked) if (a.size() != 1 || a[0] != want) t.fail("%s: pinned to %zu processors, the first is %llu instead of %llu", b.name, a.size(), a.empty() ? 0ull : (unsigned long long)a[0], (unsigned long long)want);
    after(t, b);
    t.fp((uint64_t)k << 56 ^ want << 8 ^ (uint64_t)ok << 4 ^ (uint64_t)glpi_fail << 2 ^ (uint64_t)record_kind);
    if (k < OBSD || k == LINUX) if (hole || !ok) t.nontrivial();
}

PBT_PROP(X05, life, 500, 1, 20, "a start failed, or a stop was repeated or had nothing to stop") {
    int k;
    const Build &b = fresh(t, k, {WIN, WIN, WIN, APPLE, FBSD, NBSD, OBSD, OTHER, BARE, LINUX});
    S.vthreads = true;
    bool up[4] = {false, false, false, false}, odd = false;
    static char args[64];
    void *arg_of[4] = {nullptr, nullptr, nullptr, nullptr};
    std::vector<void *> want;
    for (int op = 2 + (int)t.size(14), j = 0; op > 0; op--, j++) {
        int i = (int)t.u(3);
        if (up[i] || t.chance(1, 4)) {
            size_t before = ran.size(), created = ths.size(), joined = (size_t)S.n_pthread_join;
            b.stop(i);
            if (up[i]) { want.push_back(arg_of[i]); if (k != WIN && (size_t)S.n_pthread_join != joined + 1) t.fail("%s: the thread was not joined", b.name); }
            else {
                odd = true;
                if ((size_t)S.n_pthread_join != joined) t.fail("%s: a thread was joined that was never started", b.name);
            }
            if (ths.size() != created) t.fail("%s: a stop started a thread", b.name);
            if (ran != want) t.fail("%s: %zu threads ran to their end by the stop, %zu had been started", b.name, ran.size(), want.size());
            (void)before;
            up[i] = false;
            t.note("stop %d; ", i);
        } else {
            bool fails = t.chance(1, 4);
            begin_fails = fails;
            begin_errno = t.pick({EAGAIN, EINVAL, EACCES, 0});
            S.fail_pthread_create_at = fails ? S.n_pthread_create : -1;
            S.fail_pthread_err = t.pick({EAGAIN, EPERM, EINVAL});
            errno = t.chance(1, 2) ? 0 : ENOENT;
            void *a = &args[j % 64];
            int r = b.start(i, a);
            bool can = !fails && k != BARE;
            t.note("start %d%s -> %d; ", i, fails ? " (refused)" : "", r);
            if (can ? r != 0 : r >= 0) t.fail("%s: the start returned %d, the thread %s created", b.name, r, can ? "was" : "was not");
            if (fails) odd = true;
            if (can) { up[i] = true; arg_of[i] = a; if (!ths.empty()) ths.back().slow = t.chance(1, 2); }
            S.fail_pthread_create_at = -1;
        }
        if (S.bad_join) t.fail("%s: a thread was joined twice or never existed", b.name);
        if (!trouble.empty()) t.fail("%s: %s", b.name, trouble.c_str());
    }
    for (int i = 0; i < 4; i++) b.stop(i);
    for (auto &x : ths) if (x.open) t.fail("%s: a handle was leaked", b.name);
    after(t, b);
    t.fp((uint64_t)k << 40 | want.size() << 20 | (uint64_t)S.fired << 8 | (uint64_t)odd);
    if (odd) t.nontrivial();
}
