// Properties about the environment: cache geometry, CPUs, FIPS indicator,
// identity, configuration window and argument contract.
#include "runner.hpp"
#include "bytes.hpp"
#include <limits.h>
#include <algorithm>
#include <set>

// ---------------------------------------------------------------- X01 ----
static std::string cpath(int cpu, int idx, const char *a) {
    char b[120];
    snprintf(b, sizeof(b), "/sys/devices/system/cpu/cpu%d/cache/index%d/%s", cpu, idx, a);
    return b;
}
// what reading an attribute gives: its first 32 bytes, or nothing
static bool attr(const std::string &p, std::string &out, size_t &rlen) {
    auto it = shim::S.files.find(p);
    if (it == shim::S.files.end() || !it->second.exists || it->second.open_err) return false;
    shim::VFile &f = it->second;
    for (auto &s : f.reads) {
        if (s.kind == 1 && s.err == EINTR) continue;
        if (s.kind == 1 || s.kind == 3) return false;
        break;
    }
    if (f.data.empty()) return false;
    out = f.data.substr(0, 32);
    rlen = out.size();
    if (rlen == 32) out.resize(31);
    return true;
}
static bool number(const std::string &s, long &v) {
    char *e;
    errno = 0;
    v = strtol(s.c_str(), &e, 10);
    return !errno && e != s.c_str();
}
static void ref_cache(long conf, uint64_t l[3]) {
    l[0] = l[1] = l[2] = 0;
    if (conf <= 0) conf = 1;
    for (int c = 0; c < conf && c < 400; c++)
        for (int i = 0; i < 16; i++) {
            std::string b;
            size_t n;
            long lv, v;
            if (!attr(cpath(c, i, "type"), b, n)) break;
            if (b.compare(0, 4, "Data") && b.compare(0, 7, "Unified")) continue;
            if (!attr(cpath(c, i, "level"), b, n) || !number(b, lv) || lv < 1) continue;
            if (!attr(cpath(c, i, "size"), b, n) || n >= 32) continue;
            int sh = 0;
            size_t k = b.find('K');
            if (k != std::string::npos) sh = 10;
            else if ((k = b.find('M')) != std::string::npos) sh = 20;
            if (k != std::string::npos) b.resize(k);
            if (!number(b, v) || v <= 0 || v == LONG_MAX || v > (LONG_MAX >> sh)) continue;
            uint64_t &d = l[lv == 1 ? 0 : lv == 2 ? 1 : 2];
            d = std::max(d, (uint64_t)v << sh);
        }
}
static uint64_t up2(uint64_t v) { if (!v) return 0; uint64_t r = 1; while (r && r <= v) r <<= 1; return r; }
static shim::VFile vfile(pbt::Ctx &t, const std::string &d) {
    shim::VFile f;
    f.data = d;
    f.per_open = true;
    if (t.chance(1, 25)) f.exists = false;
    if (t.chance(1, 40)) f.open_err = t.pick({EACCES, EMFILE, EIO});
    if (t.chance(1, 15)) for (int i = (int)t.u(3); i >= 0; i--) f.reads.push_back({1, 0, EINTR});
    if (t.chance(1, 30)) f.reads.push_back(t.chance(1, 2) ? shim::Step{1, 0, EIO} : shim::Step{3, 0, 0});
    return f;
}
PBT_PROP(X01, sysfs, 1, 3, 20, "at least one cache was discovered and at least two different cache descriptions were present") {
    setup(t);
    auto &S = shim::S;
    int ncpu = t.chance(1, 6) ? 0 : 1 + (int)t.size(7);
    if (t.chance(1, 60)) ncpu = 30 + (int)t.u(200);
    bool clean = t.chance(1, 2);
    std::set<std::string> kinds;
    bool big = false;
    for (int c = 0; c < ncpu; c++) {
        if (t.chance(1, 12)) continue; // offline: no cache directory
        int ni = t.chance(1, 12) ? 14 + (int)t.u(6) : 1 + (int)t.u(6);
        for (int i = 0; i < ni; i++) {
            if (!clean && t.chance(1, 25)) continue;
            std::string ty, lv, sz;
            if (clean || t.chance(3, 4)) {
                ty = t.pick({"Data\n", "Unified\n", "Instruction\n", "Data\n", "Unified\n"});
                lv = std::to_string(t.chance(1, 8) ? 4 + t.u(3) : 1 + t.u(3)) + "\n";
                int u = (int)t.u(5);
                if (u < 3) sz = std::to_string(1 + t.size(u == 0 ? 64 : 4096)) + "K\n";
                else if (u == 3) sz = std::to_string(1 + t.size(t.chance(1, 6) ? 700 : 6)) + "M\n";
                else sz = std::to_string(1 + t.size(1 << 21)) + "\n";
            } else {
                ty = t.chance(1, 2) ? t.pick({"Data", "data\n", "", "Unified Cache\n", "Dat\n", "UNIFIED\n", "\nData\n", "DataInstruction\n", "Unknown\n", "Unifie\n"}) : gen_text(t, 40, "DatUnifed \n");
                lv = t.chance(1, 2) ? t.pick({"1", "2\n", "0\n", "-1\n", "x\n", "", "+1\n", " 2\n", "03\n", "1x\n", "99999999999999999999\n", "4294967297\n", "18446744073709551617\n"}) : gen_text(t, 40, "0123456789 +-\n");
                sz = t.chance(2, 3) ? t.pick({"32k\n", "1G\n", "48KB\n", "1M5K\n", "5K1M\n", "K\n", "M\n", "-5K\n", "0K\n", "", " 64K\n", "64 K\n", "+64K\n", "64K", "99999999999999999999K\n",
                                              "9007199254740991K\n", "9007199254740992K\n", "8796093022207M\n", "9223372036854775807\n", "00000000000000000000000000064K\n",
                                              "000000000000000000000000000064K\n", "0000000000000000000000000000064K", "0000000000000000000000000000064K\n", "0000000000000000000000000000000064K\n"})
                                    : gen_text(t, 40, "0123456789KM \n");
            }
            kinds.insert(ty + lv + sz);
            S.files[cpath(c, i, "type")] = clean ? shim::VFile() : vfile(t, ty);
            S.files[cpath(c, i, "level")] = clean ? shim::VFile() : vfile(t, lv);
            S.files[cpath(c, i, "size")] = clean ? shim::VFile() : vfile(t, sz);
            if (clean) {
                S.files[cpath(c, i, "type")].data = ty;
                S.files[cpath(c, i, "level")].data = lv;
                S.files[cpath(c, i, "size")].data = sz;
            }
        }
    }
    long conf = t.chance(2, 3) ? std::max(1, ncpu) : (long)t.pick({-1, 0, 1, 2, 3, 12});
    S.sysconf_over[_SC_NPROCESSORS_CONF] = conf;
    long sc[3];
    for (auto &v : sc) v = t.chance(1, 3) ? t.pick({0L, -1L}) : (long)t.size(1 << 20);
    S.sysconf_over[_SC_LEVEL1_DCACHE_SIZE] = sc[0];
    S.sysconf_over[_SC_LEVEL2_CACHE_SIZE] = sc[1];
    S.sysconf_over[_SC_LEVEL3_CACHE_SIZE] = sc[2];
    uint64_t l[3];
    ref_cache(conf, l);
    bool found = l[0] || l[1] || l[2];
    if (!l[0]) for (int i = 0; i < 3; i++) if (sc[i] > 0) l[i] = std::max(l[i], (uint64_t)sc[i]);
    uint64_t sum = 0;
    for (uint64_t &v : l) if (v >> 31) { big = true; v = 1ull << 31; }
    for (uint64_t v : l) sum += v;
    if (sum >> 31) big = true;
    unsigned flags = F_NO_TIMER;
    bool autom = t.chance(1, 3);
    if (!autom) flags |= 1u << 27;
    if (t.chance(1, 2)) flags |= F_CACHE_ALL;
    uint64_t r = flags & F_CACHE_ALL ? up2(l[0] + l[1] + l[2]) : up2(l[0]);
    unsigned lg = 0;
    while ((r >> 1) >> lg) lg++;
    uint64_t mem = 1024;
    if (autom) {
        unsigned b = lg ? lg + (flags & F_CACHE_ALL ? 0 : 2) : 18;
        if (b <= 9) b = 18;
        if (b > 29) b = 29;
        if (b > 26 && !t.chance(1, 20)) { autom = false; flags |= 1u << 27; }
        else mem = 1ull << b;
    }
    int fds = S.fds_open;
    if (t.chance(1, 3)) jent_entropy_init();
    struct rand_data *e = jent_entropy_collector_alloc(0, flags);
    if (!e) t.fail("allocation refused");
    std::string d = status(e);
    std::string f1 = field(d, "runtimeEnvironment.cpuCache.l1Bytes"), fa = field(d, "runtimeEnvironment.cpuCache.allBytes"), fm = field(d, "configuration.memoryBlockSizeBytes");
    t.note("conf=%ld clean=%d caches=%llu/%llu/%llu sysconf=%ld/%ld/%ld auto=%d -> l1 %s all %s mem %s", conf, clean, (unsigned long long)l[0], (unsigned long long)l[1], (unsigned long long)l[2],
           sc[0], sc[1], sc[2], autom, f1.c_str(), fa.c_str(), fm.c_str());
    if (!big) {
        if (f1 != std::to_string(up2(l[0]))) t.fail("first-level cache of %llu bytes reported as %s", (unsigned long long)l[0], f1.c_str());
        if (fa != std::to_string(up2(l[0] + l[1] + l[2]))) t.fail("total cache of %llu bytes reported as %s", (unsigned long long)(l[0] + l[1] + l[2]), fa.c_str());
        if (fm != std::to_string(mem)) t.fail("memory size is %s, expected %llu", fm.c_str(), (unsigned long long)mem);
    }
    uint64_t m = strtoull(fm.c_str(), nullptr, 10);
    if (m < 1024 || m > (512u << 20) || (m & (m - 1))) t.fail("memory size %s is not a power of two between 1 kB and 512 MB", fm.c_str());
    bool have = false;
    for (auto &x : S.maps) if (x.live && x.len >= m && x.len < m + 3 * 4096 + 4096) have = true;
    if (!have) t.fail("no region of the reported memory size %s is allocated", fm.c_str());
    if (S.fds_open != fds) t.fail("%d descriptors left open", S.fds_open - fds);
    jent_entropy_collector_free(e);
    if (S.dirty_unmap) t.fail("not wiped");
    for (uint64_t v : l) t.fp(v);
    t.fp(flags);
    if (clean) t.label("well-formed"); else t.label("malformed");
    if (found) t.label("discovered"); else t.label("fallback");
    if (big) t.label("beyond-32-bit");
    if (found && kinds.size() > 1) t.nontrivial();
}

// ---------------------------------------------------------------- X02 ----
PBT_PROP(X02, cpus, 1, 2, 20, "the affinity mask was readable and the internal timer ran, or a fallback was taken") {
    setup(t);
    auto &S = shim::S;
    S.vthreads = true;
    S.cpus.clear();
    S.cpu_kernel_bits = t.pick({64, 128, 1024, 1088, 2048, 4096, 8192, 65536, 131072, 64, 128});
    int n = t.chance(1, 3) ? 1 + (int)t.u(3) : 1 + (int)t.size(40);
    std::set<int> m;
    bool dense = t.chance(1, 3);
    for (int i = 0; i < n; i++) m.insert(dense ? std::min(i, S.cpu_kernel_bits - 1) : (int)t.u((uint64_t)S.cpu_kernel_bits));
    if (t.chance(1, 3)) m.insert(t.chance(1, 2) ? S.cpu_kernel_bits - 1 : std::min(S.cpu_kernel_bits - 1, (int)t.pick({63, 1023, 1024, 2047, 65535})));
    S.cpus.assign(m.begin(), m.end());
    bool mask = S.cpu_kernel_bits <= 65536;
    if (t.chance(1, 8)) { S.getaff_err = t.pick({EPERM, ESRCH, EINVAL, EFAULT}); mask = false; }
    long onln = t.pick({1L, 2L, 4L, 100L, -1L, 0L, 3L});
    S.sysconf_over[_SC_NPROCESSORS_ONLN] = onln;
    long count = mask ? (long)m.size() : onln;
    long top = mask ? (long)*m.rbegin() : onln - 1;
    bool conf = t.chance(1, 3);
    unsigned long cpu = t.chance(1, 2) ? t.u(64) : t.pick({0ul, 1023ul, 1024ul, 4000ul, 65535ul, 65536ul, 1ul << 32, ~0ul});
    if (conf && gt_ok() && jent_entropy_set_notime_cpu(cpu)) t.fail("configuring the CPU before initialization was refused");
    if (t.chance(1, 8)) S.setaff_err = t.pick({EINVAL, EPERM});
    // the count as reported
    struct rand_data *e = jent_entropy_collector_alloc(0, F_NO_TIMER | 1u << 27);
    if (!e) t.fail("allocation refused");
    std::string c = field(status(e), "runtimeEnvironment.cpuCores");
    if (count > 0 && c != std::to_string(count)) t.fail("%ld CPUs reported as %s (kernel mask of %d bits)", count, c.c_str(), S.cpu_kernel_bits);
    if (count <= 0 && atol(c.c_str()) > 0) t.fail("CPU count unavailable but reported as %s", c.c_str());
    jent_entropy_collector_free(e);
    t.note("kernel bits %d, %zu CPUs, highest %d, mask %d, sysconf %ld, configured %ld", S.cpu_kernel_bits, m.size(), *m.rbegin(), mask, onln, conf ? (long)cpu : -1);
    t.fp((uint64_t)count); t.fp((uint64_t)top); t.fp(conf ? cpu : 0);
    if (!gt_ok()) return;
    S.pinned.clear();
    e = jent_entropy_collector_alloc(0, F_FORCE_TIMER | 1u << 27);
    if (count < 2 && e) t.fail("the internal timer was enabled with %ld CPUs", count);
    if (count >= 2 && !e) t.fail("the internal timer was refused with %ld CPUs", count);
    if (e) {
        uint8_t b[40];
        if (jent_read_entropy(e, (char *)b, 40) != 40) t.fail("read with the internal timer failed");
        long want = conf ? (cpu < 65536 ? (long)cpu : -1) : top;
        if (want < 0 && !S.pinned.empty()) t.fail("pinned to a CPU although %lu cannot be expressed", cpu);
        if (want >= 0 && S.pinned.empty()) t.fail("the counting thread was never pinned (wanted CPU %ld)", want);
        for (auto &p : S.pinned)
            if (p.size() != 1 || p[0] != want) t.fail("the counting thread was pinned to CPU %d (of %zu), expected %ld", p.empty() ? -1 : p[0], p.size(), want);
        jent_entropy_collector_free(e);
    }
    for (auto &v : S.vts) if (!v.joined) t.fail("counting thread left running");
    if (S.n_cpualloc != S.n_cpufree) t.fail("CPU sets leaked: %d allocated, %d freed", S.n_cpualloc, S.n_cpufree);
    t.label(mask ? "mask" : "fallback");
    if (conf) t.label("configured");
    if (count < 2) t.label("too-few");
    t.nontrivial();
}
PBT_PROP(X02, fips, 1, 2, 20, "the indicator existed") {
    setup(t);
    auto &S = shim::S;
    shim::VFile f;
    f.per_open = true;
    switch (t.u(6)) {
    case 0: case 1: f.data = "1\n"; break;
    case 2: f.data = "0\n"; break;
    case 3: f.data = t.pick({"1", "0", "", "2\n", "10\n", "01\n", " 1\n", "\n1\n", "11", "y\n", "-1\n", "1 0\n"}); break;
    default: f.data = gen_text(t, 40, "01\n 2x"); break;
    }
    if (t.chance(1, 8)) f.data = std::string(1 + t.u(3), (char)t.u(256));
    f.exists = !t.chance(1, 10);
    if (t.chance(1, 12)) f.open_err = t.pick({EACCES, EMFILE, EIO});
    int eintr = t.chance(1, 3) ? 1 + (int)t.size(20) : 0;
    for (int i = 0; i < eintr; i++) f.reads.push_back({1, 0, EINTR});
    bool readable = f.exists && !f.open_err;
    switch (t.u(8)) {
    case 0: f.reads.push_back({1, 0, t.pick({EIO, EAGAIN, EINVAL})}); readable = false; break;
    case 1: f.reads.push_back({3, 0, 0}); readable = false; break;
    case 2: f.reads.push_back({2, 1, 0}); break;
    }
    S.files["/proc/sys/crypto/fips_enabled"] = f;
    bool want = readable && !f.data.empty() && f.data[0] == '1';
    unsigned flags = F_NO_TIMER | 1u << 27;
    bool force = t.chance(1, 6);
    if (force) flags |= F_FIPS;
    struct rand_data *e = jent_entropy_collector_alloc(0, flags);
    if (!e) t.fail("allocation refused");
    std::string d = status(e), m = field(d, "configuration.fipsMode");
    t.note("exists=%d open_err=%d data=%zu first=%d eintr=%d readable=%d force=%d -> %s", f.exists, f.open_err, f.data.size(), f.data.empty() ? -1 : f.data[0], eintr, readable, force, m.c_str());
    if (m != (want || force ? "true" : "false")) t.fail("FIPS mode is %s, indicator says %s", m.c_str(), want ? "on" : "off");
    if (field(d, "configuration.flags.JENT_FORCE_FIPS") != (force ? "true" : "false")) t.fail("status reports a FIPS request that was not made");
    // the indicator takes effect: health tests stop output exactly in that mode
    Win w = {C.n + 200, C.n + 60000, 1};
    C.win.push_back(w);
    uint8_t b[64];
    long r = jent_read_entropy(e, (char *)b, 64);
    if ((want || force) && r >= 0) t.fail("degraded noise was delivered in FIPS mode");
    if (!(want || force) && r != 64) t.fail("read failed with %ld outside FIPS mode", r);
    C.win.clear();
    jent_entropy_collector_free(e);
    if (S.fds_open) t.fail("%d descriptors left open", S.fds_open);
    for (auto &x : f.reads) { t.fp((uint64_t)x.kind * 1000 + (uint64_t)x.err); }
    for (char c : f.data) t.fp((uint8_t)c);
    t.fp(want + 2 * force + 4 * f.exists + 8 * f.open_err);
    t.label(want ? "on" : "off");
    if (f.exists) t.nontrivial();
}

// ---------------------------------------------------------------- U01 ----
static std::string uuid_text(const uint8_t *b) {
    std::string s;
    char x[3];
    for (int i = 0; i < 16; i++) {
        if (i == 4 || i == 6 || i == 8 || i == 10) s += '-';
        snprintf(x, 3, "%02x", b[i]);
        s += x;
    }
    return s;
}
static void query_sizes(pbt::Ctx &t, struct rand_data *e, const std::string &want) {
    if (!jent_uuid(nullptr, nullptr, 0) || !jent_uuid(e, nullptr, 100)) t.fail("identifier query without a buffer succeeded");
    char x[80];
    if (!jent_uuid(nullptr, x, 80)) t.fail("identifier query without a collector succeeded");
    for (int k = 0; k < 12; k++) {
        size_t n = k < 4 ? 35 + (size_t)k : t.u(70);
        std::vector<char> b(n + 40, (char)0xb7);
        int r = jent_uuid(e, b.data() + 20, n);
        if ((n >= 37) != (r == 0)) t.fail("identifier query into %zu bytes returned %d", n, r);
        size_t used = r ? 0 : 37;
        for (size_t i = 0; i < b.size(); i++)
            if ((i < 20 || i >= 20 + used) && i >= 20 + n && b[i] != (char)0xb7) t.fail("identifier query wrote outside its buffer of %zu bytes", n);
        for (size_t i = 0; i < 20; i++) if (b[i] != (char)0xb7) t.fail("identifier query wrote before its buffer");
        if (r) for (char c : b) if (c != (char)0xb7) t.fail("refused identifier query into %zu bytes wrote something", n);
        if (!r && want != b.data() + 20) t.fail("identifier is %s, expected %s", b.data() + 20, want.c_str());
    }
}
PBT_PROP(U01, source, 1, 3, 20, "the random source delivered in parts, was interrupted or failed") {
    setup(t);
    auto &S = shim::S;
    bool odd = false;
    std::vector<std::string> seen;
    struct rand_data *ec[3] = {};
    int n = 1 + (int)t.u(3);
    for (int i = 0; i < n; i++) {
        S.vrandom = true;
        S.grnd.clear();
        S.rnd_bytes.clear();
        S.rnd_pos = 0;
        for (int k = 0; k < 64; k++) S.rnd_bytes.push_back((uint8_t)t.u(256));
        // script of the system call
        int steps = (int)t.u(5);
        size_t got = 0;
        bool sysfail = false;
        for (int k = 0; k < steps && !sysfail && got < 16; k++) {
            switch (t.u(4)) {
            case 0: S.grnd.push_back({1, 0, EINTR}); odd = true; break;
            case 1: { size_t m = 1 + t.u(15); S.grnd.push_back({2, m, 0}); got += std::min(m, 16 - got); odd = true; break; }
            case 2: S.grnd.push_back({1, 0, t.pick({ENOSYS, EAGAIN, EPERM, EFAULT, EIO})}); sysfail = true; odd = true; break;
            default: break;
            }
        }
        uint8_t want[16];
        bool nil = false;
        if (!sysfail) memcpy(want, S.rnd_bytes.data(), 16);
        else {
            // a persistent failure: every further attempt fails as well
            for (int k = 0; k < 6; k++) S.grnd.push_back({1, 0, ENOSYS});
            shim::VFile f;
            f.per_open = true;
            std::string d;
            size_t len = t.chance(2, 3) ? 16 + t.u(40) : t.u(16);
            for (size_t k = 0; k < len; k++) d += (char)t.u(256);
            f.data = d;
            f.exists = !t.chance(1, 10);
            if (t.chance(1, 10)) f.open_err = t.pick({EACCES, ENODEV, EMFILE});
            nil = !f.exists || f.open_err || len < 16;
            size_t pos = 0;
            for (int k = (int)t.u(6); k > 0 && pos < 16; k--)
                switch (t.u(5)) {
                case 0: f.reads.push_back({1, 0, EINTR}); break;
                case 1: case 2: { size_t m = 1 + t.u(12); f.reads.push_back({2, m, 0}); pos += m; break; }
                case 3: if (t.chance(1, 3)) { f.reads.push_back({1, 0, EIO}); nil = true; pos = 16; } break;
                default: if (t.chance(1, 3)) { f.reads.push_back({3, 0, 0}); nil = true; pos = 16; }
                }
            if (!nil) memcpy(want, d.data(), 16);
            S.files["/dev/urandom"] = f;
        }
        if (nil) memset(want, 0, 16);
        else { want[6] = (uint8_t)((want[6] & 15) | 0x40); want[8] = (uint8_t)((want[8] & 0x3f) | 0x80); }
        struct rand_data *e = jent_entropy_collector_alloc(0, os::gen_flags(t, 20, 5, 10, 0) | F_NO_TIMER);
        if (!e) t.fail("allocation refused because of the random source");
        ec[i] = e;
        char b[64] = "";
        if (jent_uuid(e, b, sizeof(b))) t.fail("identifier query failed");
        t.note("%s%s; ", b, nil ? " (source failed)" : sysfail ? " (device)" : "");
        if (uuid_text(want) != b) t.fail("identifier is %s, the random source gave %s", b, uuid_text(want).c_str());
        seen.push_back(b);
        if (S.fds_open) t.fail("a descriptor stays open");
        uint8_t out[33];
        if (jent_read_entropy(e, (char *)out, 33) != 33) t.fail("read failed");
        for (uint8_t x : want) t.fp(x);
        t.label(nil ? "nil" : sysfail ? "device" : "syscall");
    }
    for (int i = 0; i < n; i++) {
        query_sizes(t, ec[i], seen[i]);
        if (field(status(ec[i]), "uuid") != seen[i]) t.fail("status shows another identifier than the query");
        jent_entropy_collector_free(ec[i]);
    }
    if (odd) t.nontrivial();
}
PBT_PROP(U01, life, 1, 2, 25, "a collector was replaced or a call failed during its life") {
    HO o;
    o.kinds = {1, 2, 5, 10, 10, 11};
    o.fault_pct = 40;
    o.degrade_pct = 25;
    o.force_pct = 0;
    o.fips_pct = 60;
    Runner r(t, o);
    r.run();
    if (r.st.faults || r.st.bad) t.nontrivial();
}
PBT_PROP(U01, unique, 1, 1, 20, "two or more collectors were compared") {
    setup(t);
    int n = 2 + (int)t.u(6);
    std::set<std::string> ids;
    std::vector<struct rand_data *> ec;
    for (int i = 0; i < n; i++) {
        struct rand_data *e = jent_entropy_collector_alloc((unsigned)t.u(4), os::gen_flags(t, 20, 5, 10, 0) | F_NO_TIMER);
        if (!e) t.fail("allocation refused");
        char b[37];
        if (jent_uuid(e, b, sizeof(b))) t.fail("identifier query failed");
        std::string s = b;
        for (int k = 0; k < 36; k++) {
            bool dash = k == 8 || k == 13 || k == 18 || k == 23;
            if (dash ? s[(size_t)k] != '-' : !strchr("0123456789abcdef", s[(size_t)k])) t.fail("malformed identifier %s", b);
        }
        if (s.size() != 36 || s[14] != '4' || !strchr("89ab", s[19])) t.fail("not a version 4 identifier: %s", b);
        if (!ids.insert(s).second) t.fail("two collectors share the identifier %s", b);
        ec.push_back(e);
        if (t.chance(1, 3)) { jent_entropy_collector_free(ec.front()); ec.erase(ec.begin()); }
    }
    for (auto e : ec) jent_entropy_collector_free(e);
    t.fp(C.n);
    t.note("%d collectors", n);
    t.nontrivial();
}

// ---------------------------------------------------------------- G01 ----
static int cb_hits[3];
static void cb0(struct rand_data *, unsigned) { cb_hits[0]++; }
static void cb1(struct rand_data *, unsigned) { cb_hits[1]++; }
static void cb2(struct rand_data *, unsigned) { cb_hits[2]++; }
static jent_fips_failure_cb cbs[4] = {cb0, cb1, cb2, nullptr};
static int th_inits[3], th_starts[3];
template <int K> static int th_init(void **c) { th_inits[K]++; *c = malloc(1); return 0; }
template <int K> static void th_fini(void *c) { free(c); }
template <int K> static int th_start(void *, jent_notime_start_routine, void *arg) { th_starts[K]++; running.push_back(arg); return 0; }
template <int K> static void th_stop(void *) { running.clear(); }
static struct jent_notime_thread ths[3] = {{th_init<0>, th_fini<0>, th_start<0>, th_stop<0>}, {th_init<1>, th_fini<1>, th_start<1>, th_stop<1>}, {th_init<2>, th_fini<2>, th_start<2>, th_stop<2>}};
static struct jent_notime_thread part[4] = {{nullptr, th_fini<2>, th_start<2>, th_stop<2>}, {th_init<2>, nullptr, th_start<2>, th_stop<2>}, {th_init<2>, th_fini<2>, nullptr, th_stop<2>}, {th_init<2>, th_fini<2>, th_start<2>, nullptr}};

PBT_PROP(G01, window, 1, 3, 20, "a configuration call was made after an initialisation attempt, or an incomplete handler was offered") {
    setup(t);
    auto &S = shim::S;
    memset(cb_hits, 0, sizeof(cb_hits));
    memset(th_inits, 0, sizeof(th_inits));
    memset(th_starts, 0, sizeof(th_starts));
    bool blocked = false, late = false, inc = false;
    int cb = 3, th = -1; // none, builtin
    long cpu = -1;
    int n = 2 + (int)t.u(9);
    bool timer = gt_ok();
    std::vector<struct rand_data *> ec;
    for (int i = 0; i < n; i++) {
        int k = (int)t.u(timer ? 9 : 4);
        if (blocked && k < 4 && k > 1) k = 0;
        switch (k) {
        case 0: case 1: {
            int w = (int)t.u(4), r = jent_set_fips_failure_callback(cbs[w]);
            t.note("cb%d=%d; ", w, r);
            if (r != (blocked ? -EAGAIN : 0)) t.fail("registering the failure callback %s initialisation returned %d", blocked ? "after" : "before", r);
            if (!blocked) cb = w;
            late |= blocked;
            break;
        }
        case 2: case 3: { // an initialisation attempt
            int trouble = (int)t.u(7);
            C.win.clear();
            if (trouble == 1) C.win.push_back({C.n, ~0ull, t.chance(1, 2) ? 1 : 2});
            S.kat_fail = trouble == 2;
            S.gcd_fail = trouble == 3;
            if (trouble == 4) S.fail_mmap_from = S.n_mmap;
            if (trouble == 5) S.fail_mmap_at = S.n_mmap + (int)t.u(6);
            if (trouble == 6) { S.mlock_mode = 2; S.fail_mlock_err = EPERM; }
            unsigned fl = t.pick({0u, (unsigned)F_NO_TIMER, (unsigned)F_FIPS, (unsigned)F_SECMEM, (unsigned)F_NTG1, (unsigned)F_NOMEM}) | 1u << 27;
            int how = (int)t.u(3);
            long r = 0;
            if (how == 0) r = jent_entropy_init();
            else if (how == 1) r = jent_entropy_init_ex((unsigned)t.u(5), fl);
            else {
                struct rand_data *e = jent_entropy_collector_alloc((unsigned)t.u(5), fl);
                r = e ? 0 : -1;
                if (e) ec.push_back(e);
            }
            t.note("attempt%d/trouble%d=%ld; ", how, trouble, r);
            blocked = true;
            clear_faults();
            S.kat_fail = S.gcd_fail = false;
            C.win.clear();
            break;
        }
        case 4: case 5: {
            int w = (int)t.u(3), r = jent_entropy_switch_notime_impl(&ths[w]);
            t.note("handler%d=%d; ", w, r);
            if (r != (blocked ? -EAGAIN : 0)) t.fail("registering a complete handler %s initialisation returned %d", blocked ? "after" : "before", r);
            if (!blocked) th = w;
            late |= blocked;
            break;
        }
        case 6: {
            int w = (int)t.u(5), r = jent_entropy_switch_notime_impl(w == 4 ? nullptr : &part[w]);
            t.note("incomplete%d=%d; ", w, r);
            if (blocked ? !r : r != -EINVAL) t.fail("an incomplete handler %s initialisation was answered with %d", blocked ? "after" : "before", r);
            inc = true;
            break;
        }
        default: {
            unsigned long v = t.u(50);
            int r = jent_entropy_set_notime_cpu(v);
            t.note("cpu%lu=%d; ", v, r);
            if (r != (blocked ? -EAGAIN : 0)) t.fail("configuring the timer CPU %s initialisation returned %d", blocked ? "after" : "before", r);
            if (!blocked) cpu = (long)v;
            late |= blocked;
        }
        }
    }
    for (auto e : ec) jent_entropy_collector_free(e);
    // what is in effect
    S.pinned.clear();
    memset(cb_hits, 0, sizeof(cb_hits));
    memset(th_inits, 0, sizeof(th_inits));
    memset(th_starts, 0, sizeof(th_starts));
    struct rand_data *e = jent_entropy_collector_alloc(0, (timer ? F_FORCE_TIMER : F_NO_TIMER) | F_FIPS | 1u << 27);
    if (!e) {
        if (timer) t.fail("collector with the internal timer refused");
        return;
    }
    if (timer) {
        for (int k = 0; k < 3; k++)
            if ((th_inits[k] > 0) != (k == th)) t.fail("handler %d is %sused, handler %d is the one registered", k, th_inits[k] ? "" : "not ", th);
        if (th < 0) {
            long want = cpu >= 0 ? cpu : 3;
            if (S.pinned.empty()) t.fail("counting thread not pinned");
            for (auto &p : S.pinned) if (p.size() != 1 || p[0] != want) t.fail("counting thread pinned to CPU %d, expected %ld", p.empty() ? -1 : p[0], want);
        }
    }
    C.win.push_back({C.n, C.n + 50000, 1});
    uint8_t b[32];
    long r = jent_read_entropy(e, (char *)b, 32);
    if (r >= 0) t.fail("degraded noise was delivered");
    for (int k = 0; k < 3; k++)
        if ((cb_hits[k] > 0) != (k == cb)) t.fail("failure callback %d was %scalled, callback %d is the one registered", k, cb_hits[k] ? "" : "not ", cb);
    C.win.clear();
    jent_entropy_collector_free(e);
    t.fp((uint64_t)(cb * 100 + th * 10) + (uint64_t)cpu * 1000);
    t.fp(C.n);
    if (late) t.label("late");
    if (inc) t.label("incomplete");
    if (late || inc) t.nontrivial();
}

// ---------------------------------------------------------------- A01 ----
struct Area { // pages enclosed by inaccessible ones
    uint8_t *p;
    size_t n;
    explicit Area(size_t pages) {
        n = pages * 4096;
        p = (uint8_t *)shim::sys_mmap(nullptr, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096;
        shim::sys_mprotect(p, n, PROT_READ | PROT_WRITE);
    }
};
static size_t a01_len(pbt::Ctx &t) {
    switch (t.u(6)) {
    case 0: return t.u(34);
    case 1: return 32 * t.u(9) + t.u(3);
    case 2: { size_t l = 32 * (1 + t.u(8)); return l - 1; }
    case 3: return t.size(t.thorough ? 5000 : 1500);
    default: return t.u(130);
    }
}
PBT_PROP(A01, buffers, 1, 3, 25, "a read of a length that is not a multiple of the block size") {
    setup(t);
    Area a(3);
    unsigned osr = (unsigned)t.u(4), fl = os::gen_flags(t, 25, 8, 5, 0) | F_NO_TIMER;
    struct rand_data *e = jent_entropy_collector_alloc(osr, fl);
    if (!e) t.fail("allocation refused");
    int n = 1 + (int)t.u(5);
    for (int i = 0; i < n; i++) {
        size_t len = a01_len(t);
        bool tail = t.chance(1, 2);
        size_t off = tail ? a.n - len : t.chance(1, 2) ? 0 : t.u(64);
        bool safe = t.chance(1, 3);
        std::vector<uint8_t> same(len, 1);
        int reps = len > 200 ? 3 : 6;
        for (int k = 0; k < reps; k++) {
            uint8_t fill = (uint8_t)(0x11 + k * 37);
            memset(a.p, fill, a.n);
            long r = safe ? jent_read_entropy_safe(&e, (char *)a.p + off, len) : jent_read_entropy(e, (char *)a.p + off, len);
            if (r != (long)len) t.fail("%s of %zu bytes returned %ld", safe ? "safe read" : "read", len, r);
            for (size_t j = 0; j < len; j++) if (a.p[off + j] != fill) same[j] = 0;
            for (size_t j = 0; j < a.n; j++)
                if ((j < off || j >= off + len) && a.p[j] != fill) t.fail("read of %zu bytes changed the byte at offset %zd", len, (ssize_t)j - (ssize_t)off);
        }
        if (reps == 6)
            for (size_t j = 0; j < len; j++) if (same[j]) t.fail("read of %zu bytes never writes byte %zu", len, j);
        if (reps == 3) { size_t run = 0; for (size_t j = 0; j < len; j++) { run = same[j] ? run + 1 : 0; if (run >= 3) t.fail("read of %zu bytes never writes bytes %zu..%zu", len, j - 2, j); } }
        t.note("%s(%zu)@%s+%zu; ", safe ? "safe" : "read", len, tail ? "end" : "start", off & 63);
        t.fp(len * 4 + tail * 2 + safe);
        if (len % 32) t.nontrivial();
    }
    jent_entropy_collector_free(e);
}
// requests of tens of kilobytes: counters narrower than the length would show
PBT_PROP(A01, large, 1, 1, 30, "a request above 64 KiB was served") {
    setup(t);
    Area a(48);
    struct rand_data *e = jent_entropy_collector_alloc(0, F_NO_TIMER | F_NOMEM);
    if (!e) t.fail("allocation refused");
    size_t len = t.san ? 1024 + t.u(2048) : t.chance(1, 3) ? 32768 + (size_t)t.irange(-40, 40) : 65536 + (t.chance(1, 2) ? (size_t)t.irange(-40, 70) : (size_t)t.u(t.thorough ? 130000 : 40000));
    size_t off = t.chance(1, 2) ? a.n - len : 0;
    bool safe = t.chance(1, 2);
    memset(a.p, 0x37, a.n);
    long r = safe ? jent_read_entropy_safe(&e, (char *)a.p + off, len) : jent_read_entropy(e, (char *)a.p + off, len);
    if (r != (long)len) t.fail("%s of %zu bytes returned %ld", safe ? "safe read" : "read", len, r);
    for (size_t j = 0; j < a.n; j++)
        if ((j < off || j >= off + len) && a.p[j] != 0x37) t.fail("read of %zu bytes changed the byte at offset %zd", len, (ssize_t)j - (ssize_t)off);
    size_t same = 0, zero = 0;
    for (size_t j = 0; j < len; j++) {
        same = a.p[off + j] == 0x37 ? same + 1 : 0;
        zero = a.p[off + j] == 0 ? zero + 1 : 0;
        if (same >= 8 || zero >= 8) t.fail("read of %zu bytes did not deliver bytes %zu..%zu", len, j - 7, j);
    }
    if (len >= 64)
        for (size_t j = 32; j + 32 <= len; j += 32)
            if (!memcmp(a.p + off + j, a.p + off + j - 32, 32)) t.fail("read of %zu bytes repeats a block at %zu", len, j);
    if (field(status(e), "output.bytes") != std::to_string(len)) t.fail("status reports %s bytes after a read of %zu", field(status(e), "output.bytes").c_str(), len);
    t.note("%s(%zu)", safe ? "safe" : "read", len);
    t.fp(len * 2 + safe);
    if (len > 65536) t.nontrivial();
    jent_entropy_collector_free(e);
}
PBT_PROP(A01, args, 1, 2, 20, "a call outside the contract's happy path was made") {
    setup(t);
    jent_entropy_collector_free(nullptr);
    std::vector<struct rand_data *> ec;
    int n = 3 + (int)t.u(10);
    for (int i = 0; i < n; i++) {
        int k = (int)t.u(9);
        if (ec.empty() && t.chance(1, 2)) k = 8;
        uint64_t n0 = C.n;
        uint8_t b[300];
        memset(b, 0x42, sizeof(b));
        size_t len = t.chance(1, 3) ? 0 : t.chance(1, 4) ? t.pick({(size_t)SIZE_MAX, (size_t)SSIZE_MAX, (size_t)1 << 40, (size_t)4096}) : 1 + t.u(250);
        struct rand_data *e = ec.empty() ? nullptr : ec[t.u(ec.size())];
        std::string s0 = e ? status(e) : "";
        t.note("%d/%zu; ", k, len);
        t.fp((uint64_t)k * 7919 + len);
        switch (k) {
        case 0: if (jent_read_entropy(nullptr, (char *)b, len) != -1) t.fail("read without a collector (length %zu) was not refused", len); t.nontrivial(); break;
        case 1: if (jent_read_entropy_safe(nullptr, (char *)b, len) != -1) t.fail("safe read without a collector pointer (length %zu) was not refused", len); t.nontrivial(); break;
        case 2: {
            struct rand_data *z = nullptr;
            long r = jent_read_entropy_safe(&z, (char *)b, len);
            if (r != -1 && !(len == 0 && r == 0)) t.fail("safe read without a collector (length %zu) returned %ld", len, r);
            if (z) t.fail("safe read invented a collector");
            t.nontrivial();
            break;
        }
        case 3: case 4: {
            if (!e) break;
            size_t l = k == 4 && t.chance(1, 2) ? 0 : len;
            struct rand_data *z = e;
            bool safe = t.chance(1, 2);
            long r = safe ? jent_read_entropy_safe(&z, nullptr, l) : jent_read_entropy(e, nullptr, l);
            if (z != e) t.fail("a refused safe read replaced the collector");
            if (l ? r != -1 : r != 0) t.fail("%s of %zu bytes without a buffer returned %ld", safe ? "safe read" : "read", l, r);
            if (l && C.n != n0) t.fail("a refused read used the clock");
            if (l && status(e) != s0) t.fail("a refused read changed the collector");
            t.nontrivial();
            break;
        }
        case 5: {
            if (!e) break;
            struct rand_data *z = e;
            bool safe = t.chance(1, 2);
            long r = safe ? jent_read_entropy_safe(&z, (char *)b, 0) : jent_read_entropy(e, (char *)b, 0);
            if (r) t.fail("read of no bytes returned %ld", r);
            t.nontrivial();
            break;
        }
        case 6: {
            if (!e) break;
            size_t l = 1 + t.u(100);
            long r = jent_read_entropy(e, (char *)b, l);
            if (r != (long)l) t.fail("read of %zu bytes returned %ld", l, r);
            memset(b, 0x42, sizeof(b));
            break;
        }
        case 7:
            if (!e) break;
            jent_entropy_collector_free(e);
            ec.erase(std::find(ec.begin(), ec.end(), e));
            break;
        default:
            if (ec.size() < 3) {
                struct rand_data *x = jent_entropy_collector_alloc((unsigned)t.u(4), os::gen_flags(t, 25, 8, 5, 0) | F_NO_TIMER);
                if (!x) t.fail("allocation refused");
                ec.push_back(x);
            }
        }
        for (uint8_t x : b) if (x != 0x42) t.fail("a call that delivers nothing wrote to the buffer (call %d, length %zu)", k, len);
        if (k <= 2 && C.n != n0) t.fail("a refused call used the clock");
        if (k <= 2 && e && status(e) != s0) t.fail("a refused call changed another collector");
    }
    for (auto e : ec) jent_entropy_collector_free(e);
    if (shim::live_maps()) t.fail("memory left after freeing everything");
}
