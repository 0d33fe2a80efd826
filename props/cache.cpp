// Cache discovery of the builds other than Linux user space: the source is
// compiled for each platform against generated processors and system calls.
#include "pbt.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <vector>
extern "C" {
#include "../pstub/windows.h"
#include "../pstub/sys/systemcfg.h"
#define B(n) uint32_t gc_##n(int); int gc_##n##_ok(void);
B(x86) B(arm) B(bare) B(apple) B(win) B(aix)
#undef B
struct kw_cpuinfo { int cpuid_level; unsigned extended_cpuid_level; };
struct kw_cpuinfo boot_cpu_data;
struct pstub_aix _system_configuration;
}
namespace {
struct Leaf { unsigned a, b, c, d; };
struct Cpu {
    bool online = true, call_fails = false;
    std::vector<Leaf> l4, lx;                 // sub leaves of 4 and of 0x8000001d
    uint64_t clidr = 0, mmfr2 = 0, ccsidr[16] = {0};
};
std::vector<Cpu> cpus;
int here, runs_on;                            // where the caller runs; where we are now
uint64_t csselr, csselr_pending;
std::string trouble;
unsigned max_basic, max_ext;
void raw(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    const Cpu &p = cpus[(size_t)runs_on];
    bool ext = leaf & 0x80000000u;
    Leaf r = {0, 0, 0, 0};
    if (ext ? leaf > max_ext : leaf > max_basic) r = {0x21u, (9u << 22) | 63, 511, 7}; // some other leaf's contents
    else if (leaf == 4) { if (sub < p.l4.size()) r = p.l4[sub]; }
    else if (leaf == 0x8000001du) { if (sub < p.lx.size()) r = p.lx[sub]; }
    else if (leaf == 0) r = {max_basic, 0x756e6547u, 0x6c65746eu, 0x49656e69u};
    else if (leaf == 0x80000000u) r = {max_ext, 0, 0, 0};
    else r = {0x12345678u, 0x0140003fu, 63, 1};
    *a = r.a; *b = r.b; *c = r.c; *d = r.d;
}
// ---- sysctl ----
struct Ctl { int err = 0; size_t width = 8; uint64_t v = 0; };
std::map<std::string, Ctl> ctl;
// ---- Windows ----
std::vector<uint8_t> recs;
int win_fail1, win_fail2, win_err;
size_t win_grow, win_shrink;
unsigned win_calls;
} // namespace
extern "C" {
int kw_ncpu(void) { return (int)cpus.size(); }
int kw_next_online(int c) {
    for (c++; c < (int)cpus.size(); c++) if (cpus[(size_t)c].online) return c;
    return -1;
}
int kw_this_cpu(void) { return runs_on; }
int kw_smp_call(int cpu, void (*f)(void *), void *arg) {
    if (cpu < 0 || cpu >= (int)cpus.size() || !cpus[(size_t)cpu].online || cpus[(size_t)cpu].call_fails) return -6;
    int old = runs_on;
    uint64_t s = csselr, sp = csselr_pending;
    runs_on = cpu;
    csselr = csselr_pending = 13; // another user's selection on that processor
    f(arg);
    runs_on = old;
    csselr = s;
    csselr_pending = sp;
    return 0;
}
void kw_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { raw(leaf, sub, a, b, c, d); }
unsigned long long kw_read_sysreg(const char *n) {
    const Cpu &p = cpus[(size_t)runs_on];
    if (!strcmp(n, "clidr_el1")) return p.clidr;
    if (!strcmp(n, "id_aa64mmfr2_el1")) return p.mmfr2;
    if (!strcmp(n, "csselr_el1")) return csselr_pending;
    if (!strcmp(n, "ccsidr_el1")) return p.ccsidr[csselr & 15];
    trouble = std::string("register ") + n;
    return 0;
}
void kw_write_sysreg(const char *n, unsigned long long v) {
    if (!strcmp(n, "csselr_el1")) csselr_pending = v;
    else trouble = std::string("register ") + n;
}
void kw_isb(void) { csselr = csselr_pending; }
int pstub_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    unsigned m = leaf & 0x80000000u ? max_ext : max_basic;
    if (!m || m < leaf) return 0;
    raw(leaf, sub, a, b, c, d);
    return 1;
}
unsigned pstub_cpuid_max(unsigned r) { return r & 0x80000000u ? max_ext : max_basic; }
void pstub_cpuid_raw(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { raw(leaf, sub, a, b, c, d); }
int sysctlbyname(const char *name, void *out, size_t *len, void *, size_t) {
    auto i = ctl.find(name);
    if (i == ctl.end()) return -1;
    if (i->second.err) return -1;
    if (!len) return -1;
    size_t w = i->second.width;
    if (out && *len < w) return -1;
    uint8_t b[32];
    memset(b, 0xa5, sizeof(b));
    memcpy(b, &i->second.v, 8);
    if (out) memcpy(out, b, w);
    *len = w;
    return 0;
}
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP r, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX b, PDWORD len) {
    win_calls++;
    win_err = 0;
    if (r != RelationCache && r != RelationAll) { *len = 0; return TRUE; }
    size_t have = recs.size();
    if (!b) {
        if (win_fail1) { win_err = 5; return FALSE; }
        *len = (DWORD)(have - win_grow);
        win_err = ERROR_INSUFFICIENT_BUFFER;
        return FALSE;
    }
    if (win_fail2) { win_err = 5; return FALSE; }
    have -= win_shrink;
    if (*len < have) { *len = (DWORD)have; win_err = ERROR_INSUFFICIENT_BUFFER; return FALSE; }
    memcpy(b, recs.data(), have);
    *len = (DWORD)have;
    return TRUE;
}
DWORD GetLastError(void) { return (DWORD)win_err; }
}

static const uint64_t LIM = 0x28000000ull; // three of them stay below 2^31
static uint64_t above(uint64_t v) {
    if (!v) return 0;
    uint64_t r = 1;
    while (r <= v) r <<= 1;
    return r;
}
struct Want { uint64_t l[3] = {0, 0, 0}; };
static void ask(pbt::Ctx &t, uint32_t (*f)(int), const Want &w, const char *what) {
    for (int k = 0; k < 4; k++) {
        int all = (int)t.u(2);
        uint64_t want = above(w.l[0] + (all ? w.l[1] + w.l[2] : 0));
        uint32_t got = f(all);
        if (!trouble.empty()) t.discard();
        if (got != want)
            t.fail("%s: cache size %s is %u, expected %llu (L1 %llu L2 %llu L3 %llu)", what, all ? "of all levels" : "of level 1", got, (unsigned long long)want,
                   (unsigned long long)w.l[0], (unsigned long long)w.l[1], (unsigned long long)w.l[2]);
    }
}
static unsigned field(pbt::Ctx &t, unsigned bits) { // value of a field of so many bits
    switch (t.u(4)) {
    case 0: return (unsigned)t.u(1ull << std::min(bits, 4u));
    case 1: return (1u << t.u(bits)) - 1;
    case 2: return (unsigned)t.size((1u << bits) - 1);
    default: return (unsigned)t.u(1ull << bits);
    }
}

static std::vector<Leaf> gen_leaf(pbt::Ctx &t) {
    std::vector<Leaf> v;
    int n = t.chance(1, 6) ? 0 : 1 + (int)t.u(6);
    for (int i = 0; i < n; i++) {
        unsigned type = t.chance(1, 12) ? 4 + (unsigned)t.u(28) : 1 + (unsigned)t.u(3);
        unsigned level = t.chance(1, 10) ? (unsigned)t.u(8) : 1 + (unsigned)t.u(3);
        unsigned w, p, l, s;
        do {
            w = field(t, 10); p = t.chance(1, 3) ? field(t, 10) : 0; l = t.chance(1, 3) ? field(t, 12) : 63; s = field(t, 14);
            if (t.chance(1, 20)) s = 0x10000u << t.u(6);
        } while (false);
        while ((uint64_t)(w + 1) * (p + 1) * (l + 1) * ((uint64_t)s + 1) > LIM) { w >>= 1; p >>= 1; s >>= 1; l = l > 63 ? l >> 1 : l; }
        unsigned junk = (unsigned)t.u(1u << 18);
        v.push_back({type | (level << 5) | (junk << 14), (w << 22) | (p << 12) | l, s, (unsigned)t.u(8)});
    }
    if (t.chance(1, 8)) { v.push_back({0, 0, 0, 0}); v.push_back({0x21, (15u << 22) | 63, 127, 0}); } // nothing counts after the end marker
    return v;
}
static void ref_leaf(const std::vector<Leaf> &v, Want &o) {
    for (size_t i = 0; i < v.size(); i++) {
        unsigned ty = v[i].a & 31, lv = (v[i].a >> 5) & 7;
        if (!ty) break;
        if (ty != 1 && ty != 3) continue;
        if (lv == 1 && ty != 1) continue;
        if (lv < 1 || lv > 3 || o.l[lv - 1]) continue;
        o.l[lv - 1] = (uint64_t)((v[i].b >> 22) + 1) * (((v[i].b >> 12) & 1023) + 1) * ((v[i].b & 4095) + 1) * ((uint64_t)v[i].c + 1);
    }
}
static Want ref_cpuid(const Cpu &c) {
    Want o;
    if (max_basic >= 4) ref_leaf(c.l4, o);
    if (!o.l[0] && !o.l[1] && !o.l[2] && max_ext >= 0x8000001du) ref_leaf(c.lx, o);
    return o;
}
static void gen_cpus(pbt::Ctx &t, bool arm) {
    int n = 1 + (int)t.size(6);
    bool same = t.chance(1, 3);
    int vendor = (int)t.u(4); // 0, 1: leaf 4; 2: extended leaf; 3: both
    cpus.clear();
    for (int i = 0; i < n; i++) {
        Cpu c;
        if (i && same) c = cpus[0];
        else if (arm) {
            c.mmfr2 = (t.chance(1, 2) ? 0 : (1 + t.u(15)) << 20) | (t.chance(1, 2) ? t.u64() & ~(15ull << 20) : 0);
            bool wide = (c.mmfr2 >> 20) & 15;
            int lv = (int)t.u(5);
            for (int k = 0; k < lv; k++) c.clidr |= (t.chance(1, 12) ? t.u(8) : t.pick({3ull, 4ull, 2ull, 1ull, 4ull})) << (3 * k);
            if (t.chance(1, 3)) c.clidr |= t.u64() << 21; // the fields above the cache types
            for (int k = 0; k < 16; k++) {
                uint64_t line = t.u(8), as, se;
                if (wide) { as = t.chance(1, 4) ? t.size(0x1fffff) : field(t, 8); se = t.chance(1, 4) ? t.size(0xffffff) : field(t, 15); }
                else { as = field(t, 10); se = field(t, 15); }
                while ((16ull << line) * (as + 1) * (se + 1) > LIM) { if (as > se) as >>= 1; else se >>= 1; }
                uint64_t rest = t.chance(1, 2) ? t.u64() : 0;
                if (wide) c.ccsidr[k] = line | (as << 3) | (rest & (0xffull << 24)) | (se << 32) | (rest & (0xffull << 56));
                else c.ccsidr[k] = line | (as << 3) | (se << 13) | (rest & (0xfull << 28)); // the upper half is reserved, zero
            }
        } else {
            if (vendor != 2) c.l4 = gen_leaf(t);
            if (vendor >= 2) c.lx = gen_leaf(t);
        }
        c.online = !i || !t.chance(1, 8);
        c.call_fails = n > 1 && t.chance(1, 20);
        cpus.push_back(c);
    }
    max_basic = t.chance(1, 6) ? (unsigned)t.u(6) : 4 + (unsigned)t.u(28);
    max_ext = t.chance(1, 4) ? 0x80000000u + (unsigned)t.pick({0, 8, 0x1c}) : 0x8000001du + (unsigned)t.u(8);
    if (t.chance(1, 20)) max_ext = 0;
    boot_cpu_data.cpuid_level = (int)max_basic;
    boot_cpu_data.extended_cpuid_level = max_ext;
    do here = (int)t.u((uint64_t)n); while (!cpus[(size_t)here].online);
    runs_on = here;
}
static Want ref_arm(const Cpu &c) {
    Want o;
    bool wide = (c.mmfr2 >> 20) & 15;
    for (int lv = 1; lv <= 7; lv++) {
        unsigned ty = (c.clidr >> (3 * (lv - 1))) & 7;
        if (!ty) break;
        if (ty < 2 || ty > 4 || lv > 3) continue;
        uint64_t r = c.ccsidr[(lv - 1) << 1];
        uint64_t as = wide ? (r >> 3) & 0x1fffff : (r >> 3) & 0x3ff, se = wide ? (r >> 32) & 0xffffff : (r >> 13) & 0x7fff;
        o.l[lv - 1] = (16ull << (r & 7)) * (as + 1) * (se + 1);
    }
    return o;
}
static void account(pbt::Ctx &t, const Want &w, const char *what) {
    t.label(what);
    t.fp(w.l[0]); t.fp(w.l[1]); t.fp(w.l[2]);
    int k = 0;
    for (auto v : w.l) k += v != 0;
    if (k == 3) t.label("three-levels");
    if (!k) t.label("nothing-found");
    if (k) t.nontrivial();
    t.note("%s: L1 %llu L2 %llu L3 %llu", what, (unsigned long long)w.l[0], (unsigned long long)w.l[1], (unsigned long long)w.l[2]);
}
PBT_PROP(X03, kernel, 1, 3, 20, "at least one cache was reported by a generated processor") {
    bool arm = t.chance(1, 2);
    if (arm ? !gc_arm_ok() : !gc_x86_ok()) t.discard();
    trouble.clear();
    gen_cpus(t, arm);
    Want w;
    for (auto &c : cpus) {
        if (!c.online || c.call_fails) continue;
        Want o = arm ? ref_arm(c) : ref_cpuid(c);
        for (int k = 0; k < 3; k++) w.l[k] = std::max(w.l[k], o.l[k]);
    }
    account(t, w, arm ? "arm64" : "x86");
    ask(t, arm ? gc_arm : gc_x86, w, arm ? "arm64 kernel" : "x86 kernel");
}
PBT_PROP(X03, systems, 1, 2, 20, "at least one cache was reported by the generated system") {
    Want w;
    trouble.clear();
    switch (t.u(4)) {
    case 0: {
        if (!gc_bare_ok()) t.discard();
        gen_cpus(t, false);
        w = ref_cpuid(cpus[(size_t)here]);
        account(t, w, "cpuid");
        ask(t, gc_bare, w, "CPUID");
        break;
    }
    case 1: {
        if (!gc_apple_ok()) t.discard();
        ctl.clear();
        const char *lv[] = {"l1dcachesize", "l2cachesize", "l3cachesize"};
        for (int k = 0; k < 3; k++)
            for (int p = 0; p < 2; p++) { // perflevel0 first
                if (t.chance(1, 3)) continue;
                Ctl c;
                c.err = t.chance(1, 10);
                c.width = t.chance(1, 12) ? (size_t)t.pick({1, 2, 3, 5, 7, 0}) : t.chance(1, 2) ? 4 : 8;
                c.v = t.chance(1, 10) ? 0 : t.size(LIM);
                if (c.width == 8 && t.chance(1, 15)) c.v |= 1ull << 63;
                ctl[std::string(p ? "hw." : "hw.perflevel0.") + lv[k]] = c;
                if (!w.l[k] && !c.err && (c.width == 4 || c.width == 8) && c.v && !(c.v >> 63)) w.l[k] = c.v;
            }
        account(t, w, "sysctl");
        ask(t, gc_apple, w, "sysctl");
        break;
    }
    case 2: {
        if (!gc_win_ok()) t.discard();
        recs.clear();
        const size_t hdr = offsetof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, Cache), full = sizeof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX);
        int n = (int)t.u(9);
        bool dead = false;
        size_t last_ok = 0;
        for (int i = 0; i < n; i++) {
            SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX r;
            memset(&r, 0, sizeof(r));
            r.Relationship = t.chance(1, 8) ? t.pick({RelationProcessorCore, RelationNumaNode, RelationGroup}) : RelationCache;
            size_t sz = hdr + sizeof(CACHE_RELATIONSHIP);
            if (t.chance(1, 6)) sz += 8 * t.u(5);
            if (r.Relationship != RelationCache && t.chance(1, 2)) sz = hdr + 8 * t.u(4);
            size_t claim = sz, room = sz;
            int bad = t.chance(1, 20) ? 1 + (int)t.u(4) : 0;
            if (bad == 1) claim = t.u(hdr);                                              // too small to go on
            if (bad == 2) claim = 4096 + t.u(100000);                                    // beyond the end
            if (bad == 3 && r.Relationship == RelationCache) claim = room = hdr + 8 * t.u(sizeof(CACHE_RELATIONSHIP) / 8);     // no room for a cache
            if (bad == 4 && r.Relationship != RelationCache) claim = room = hdr;
            r.Size = (DWORD)claim;
            r.Cache.Level = (BYTE)(t.chance(1, 10) ? t.u(6) : 1 + t.u(3));
            r.Cache.Type = t.pick({CacheData, CacheUnified, CacheInstruction, CacheData, CacheUnified, CacheTrace});
            r.Cache.CacheSize = (DWORD)t.size(LIM);
            r.Cache.Associativity = (BYTE)t.u(256);
            r.Cache.LineSize = 64;
            r.Cache.GroupCount = 1;
            std::vector<uint8_t> b((uint8_t *)&r, (uint8_t *)&r + std::min(full, room));
            b.resize(room);
            if (!dead) {
                if (claim < hdr || claim > room) dead = true;
                else if (r.Relationship == RelationCache) {
                    if (claim < hdr + sizeof(CACHE_RELATIONSHIP)) dead = true;
                    else {
                        unsigned l = r.Cache.Level;
                        bool use = l == 1 ? r.Cache.Type == CacheData : (l == 2 || l == 3) && (r.Cache.Type == CacheData || r.Cache.Type == CacheUnified);
                        if (use) w.l[l - 1] = std::max(w.l[l - 1], (uint64_t)r.Cache.CacheSize);
                    }
                }
            }
            recs.insert(recs.end(), b.begin(), b.end());
            last_ok = b.size();
        }
        (void)last_ok;
        if (t.chance(1, 10)) recs.resize(recs.size() + t.u(hdr), 0xff); // a torn record at the end
        win_fail1 = t.chance(1, 15);
        win_fail2 = t.chance(1, 15);
        win_grow = t.chance(1, 15) && recs.size() > 8 ? 8 : 0;
        win_shrink = 0;
        if (win_fail1 || win_fail2 || win_grow || recs.empty()) w = Want();
        account(t, w, "windows");
        ask(t, gc_win, w, "Windows");
        break;
    }
    default: {
        if (!gc_aix_ok()) t.discard();
        memset(&_system_configuration, 0, sizeof(_system_configuration));
        _system_configuration.dcache_size = (int)t.size(LIM);
        _system_configuration.L2_cache_size = (int)t.size(LIM);
        _system_configuration.icache_size = 7777;
        w.l[0] = (uint64_t)_system_configuration.dcache_size;
        w.l[1] = (uint64_t)_system_configuration.L2_cache_size;
        account(t, w, "aix");
        ask(t, gc_aix, w, "AIX");
    }
    }
}
