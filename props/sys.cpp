// What the library asks the system - certification mode, processors, random
// bytes - as built for each platform: the sources are compiled for all of
// them against generated systems.
#include "pbt.hpp"
#include "shim.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
extern "C" {
#define B(n) int gy_##n##_ok(void); int gy_##n##_fips(void); long gy_##n##_ncpu(void); long gy_##n##_highest(void); int gy_##n##_rndsup(void); int gy_##n##_random(uint8_t *, size_t);
#define ALL B(gcry) B(ossl) B(aws) B(win) B(bare) B(kern) B(apple) B(unix) B(musl)
ALL
#undef B
}
using shim::S;
namespace {
enum { GCRY, OSSL, AWS, WIN, BARE, KERN, APPLE, UNIX, MUSL };
struct Build { const char *name; int (*ok)(); int (*fips)(); long (*ncpu)(); long (*highest)(); int (*rndsup)(); int (*random)(uint8_t *, size_t); };
#define B(n) {#n, gy_##n##_ok, gy_##n##_fips, gy_##n##_ncpu, gy_##n##_highest, gy_##n##_rndsup, gy_##n##_random},
const Build builds[] = {ALL};
#undef B
int fips_gcry, fips_aws, fips_ossl, online;
bool bc_fails;
int bc_status;
std::string trouble;
size_t given;
std::vector<uint8_t> source;
uint8_t next_byte() { uint8_t b = given < source.size() ? source[given] : 0; given++; return b; }
} // namespace
extern "C" {
int fips_enabled;
int kw_ncpu(void) { return online; }
int gcry_fips_mode_active(void) { return fips_gcry; }
int aws_fips_mode(void) { return fips_aws; }
int EVP_default_properties_is_fips_enabled(void *) { return fips_ossl; }
uint32_t GetActiveProcessorCount(uint16_t group) { return group == 0xffff ? (uint32_t)online : (uint32_t)std::min(online, 64); }
int32_t BCryptGenRandom(void *alg, uint8_t *buf, uint32_t n, uint32_t flags) {
    if (alg || flags != 2) { trouble = "the random source was asked without a provider"; return (int32_t)0xC000000D; }
    if (bc_fails) return bc_status;
    for (uint32_t i = 0; i < n; i++) buf[i] = next_byte();
    return 0;
}
void ps_arc4random_buf(void *b, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = next_byte(); }
void get_random_bytes(void *b, size_t n) { ps_arc4random_buf(b, n); }
}
namespace {
const Build &choose(pbt::Ctx &t, int &k, std::initializer_list<int> of) {
    k = t.pick(of);
    const Build &b = builds[k];
    if (!b.ok()) t.discard();
    shim::reset();
    S.vsysfs = true;
    trouble.clear();
    given = 0;
    t.label(b.name);
    return b;
}
void after(pbt::Ctx &t, const Build &b) {
    if (S.fds_open) t.fail("%s: a descriptor stays open", b.name);
    if (!trouble.empty()) t.fail("%s: %s", b.name, trouble.c_str());
}
} // namespace

PBT_PROP(X04, fips, 2000, 1, 20, "the platform has an indicator and it is set, odd or unreadable") {
    int k;
    const Build &b = choose(t, k, {GCRY, OSSL, AWS, WIN, BARE, KERN, APPLE, UNIX, MUSL, MUSL, MUSL});
    // every other platform's indicator is set, too: only this one's may count
    auto val = [&] { return t.chance(1, 2) ? 1 : t.pick({0, 0, 0, 2, 4, 256, -1, INT_MIN}); };
    fips_gcry = val(); fips_aws = val(); fips_ossl = val(); fips_enabled = val();
    shim::VFile f;
    int kind = (int)t.u(8);
    bool on = false, odd = true;
    std::string d;
    switch (kind) {
    case 0: f.exists = false; break;
    case 1: f.open_err = t.pick({EACCES, EMFILE, ENOMEM}); d = "1\n"; break;
    case 2: d = "1\n"; f.reads.push_back({1, 0, t.pick({EIO, EPERM, EISDIR})}); break;
    case 3: break;
    case 4: d = "0\n"; odd = false; break;
    case 5: d = "1\n"; for (int i = (int)t.u(6); i >= 0; i--) f.reads.push_back({1, 0, EINTR}); on = true; break;
    case 6: d = "1"; on = true; break;
    default: d = "1\n"; on = true;
    }
    f.data = d;
    S.files["/proc/sys/crypto/fips_enabled"] = f;
    bool want = k == GCRY ? fips_gcry : k == AWS ? fips_aws : k == OSSL ? fips_ossl : k == KERN ? fips_enabled : k == MUSL ? on : false;
    int r = b.fips();
    t.note("%s: indicators %d/%d/%d/%d, file kind %d -> %d", b.name, fips_gcry, fips_aws, fips_ossl, fips_enabled, kind, r);
    if (!!r != want) t.fail("%s: certification mode is reported %s", b.name, r ? "on while the platform has it off" : "off while the platform has it on");
    after(t, b);
    t.fp((uint64_t)k * 64 + (uint64_t)kind * 4 + (uint64_t)want);
    if (want || (k == MUSL && odd)) t.nontrivial();
}

PBT_PROP(X04, cpus, 1000, 3, 20, "the answer came from a fallback, or from a mask or list with holes") {
    int k;
    const Build &b = choose(t, k, {GCRY, OSSL, AWS, WIN, BARE, KERN, APPLE, UNIX, MUSL, MUSL, MUSL, MUSL, MUSL, MUSL});
    bool linux_ = k == GCRY || k == OSSL || k == AWS || k == MUSL;
    online = t.chance(1, 3) ? 1 : 1 + (int)t.u(t.chance(1, 2) ? 16 : 2000);
    long onln = t.chance(1, 8) ? t.pick({-1L, 0L}) : t.chance(1, 3) ? 1 : 1 + (long)t.u(4096);
    S.sysconf_over[_SC_NPROCESSORS_ONLN] = onln;
    S.sysconf_over[_SC_NPROCESSORS_CONF] = 7777;
    S.vcpus = true;
    std::set<int> m;
    long amax = t.pick({3L, 63L, 1023L, 1024L, 2047L, 4000L, 65535L});
    for (size_t n = 1 + t.size(20); n > 0; n--) m.insert((int)t.u((uint64_t)amax + 1));
    if (t.chance(1, 4)) m.insert((int)amax);
    S.cpus.assign(m.begin(), m.end());
    S.cpu_kernel_bits = t.pick({64, 128, 1024, 2048, 8192, 65536});
    while (S.cpu_kernel_bits <= *m.rbegin()) S.cpu_kernel_bits *= 2;
    bool mask = true;
    if (t.chance(3, 5)) {
        mask = false;
        switch (t.u(4)) {
        case 0: S.getaff_err = t.pick({ENOSYS, EPERM, ESRCH, EFAULT}); break;
        case 1: S.cpus.clear(); break;                         // nothing set
        case 2: S.getaff_err = EINVAL; break;                  // no size ever suffices
        default: S.cpu_kernel_bits = 1 << 18;
        }
    }
    // the list of the system
    std::string d;
    long listed = 0;
    bool list = true;
    shim::VFile f;
    int kind = (int)t.u(10);
    if (kind < 6) {
        long c = (long)t.u(t.chance(1, 2) ? 1 : 9), top = t.pick({15L, 300L, 65535L});
        for (size_t n = 1 + t.size(kind == 0 ? 80 : 12); n > 0 && c <= top; n--) {
            long e = t.chance(1, 2) ? c : std::min(top, c + 1 + (long)t.u((uint64_t)t.pick({2L, 8L, 100L, 70000L})));
            if (!d.empty()) d += ",";
            d += std::to_string(c);
            if (e != c) d += "-" + std::to_string(e);
            listed += e - c + 1;
            c = e + 2 + (long)t.u((uint64_t)t.pick({1L, 5L, 400L}));
        }
        if (!listed) { d = "0"; listed = 1; }
        bool nl = t.chance(9, 10);
        if (nl) d += "\n";
        if (d.size() > 254 && !(d.size() == 255 && nl)) list = false; // longer than what is read
        if (t.chance(1, 5)) for (int i = (int)t.u(3); i >= 0; i--) f.reads.push_back({1, 0, EINTR});
    } else {
        list = false;
        switch (kind) {
        case 6: f.exists = false; break;
        case 7: f.open_err = t.pick({EACCES, EMFILE}); d = "0-5\n"; break;
        case 8: f.reads.push_back({t.pick({1, 3}), 0, EIO}); d = "0-5\n"; break;
        default: d = t.pick<const char *>({"", "\n", "cpu", "-3", "-3-4", "7-2", "3-", "3-\n", "0-x", "0-9223372036854775807", "0-99999999999999999999", "99999999999999999999", "65536", "0-65536\n", "0,65535,65536-65540\n", "0,x", "0-3,9-4\n", "0-3,,5\n", ",0\n", "2147483648", "4294967296-4294967299\n"});
            if (t.chance(1, 2)) { // one bad entry among good ones
                d = "0-" + std::to_string(t.range(1, 60));
                std::string bad = t.pick<const char *>({"R", "R", "-2", "x", "", "5-", "5-x", "1-99999999999999999999", "70000", "3-70000"});
                if (bad == "R") { long e = (long)t.range(0, 40); bad = std::to_string(e + 1 + (long)t.u(30)) + "-" + std::to_string(e); }
                d = t.chance(1, 2) ? d + "," + bad + (t.chance(1, 2) ? ",90-95\n" : "\n") : bad + "," + d + "\n";
                if (bad.empty() && d.back() == '\n' && d[d.size() - 2] == ',') d = "0-3,,5\n"; // (a comma at the end is tolerated)
            }
        }
    }
    f.data = d;
    f.per_open = true;
    S.files["/sys/devices/system/cpu/online"] = f;
    long want, high;
    bool fell = false;
    if (k == WIN || k == KERN) want = online;
    else if (k == BARE) want = 1;
    else if (linux_ && mask) want = (long)m.size();
    else if (k == MUSL && list) { want = listed; fell = true; }
    else { want = onln; fell = true; }
    high = linux_ && mask ? *m.rbegin() : want - 1;
    long n = b.ncpu();
    int a1 = S.n_cpualloc, f1 = S.n_cpufree;
    long h = b.highest();
    t.note("%s: mask %s (%zu set, highest %d, kernel %d bits), list \"%s\" kind %d, sysconf %ld, online %d -> %ld, %ld", b.name, mask ? "ok" : "unreadable", m.size(), *m.rbegin(), S.cpu_kernel_bits, d.substr(0, 60).c_str(), kind, onln, online, n, h);
    if (want <= 0 ? n > 0 : n != want) t.fail("%s: %ld processors counted, there are %ld", b.name, n, want);
    if (want <= 0 ? h >= 0 : h != high) t.fail("%s: the highest processor is reported as %ld, it is %ld", b.name, h, high);
    if (a1 != f1 || S.n_cpualloc != S.n_cpufree) t.fail("%s: a processor set was leaked", b.name);
    after(t, b);
    t.fp((uint64_t)k << 40 | (uint64_t)want << 20 | (uint64_t)(high & 0xfffff));
    if (fell || high != want - 1) t.nontrivial();
    t.label(k == MUSL ? mask ? "musl: mask" : list ? "musl: list" : "musl: sysconf" : fell ? "sysconf" : "direct");
}

PBT_PROP(X04, random, 1000, 2, 20, "the source stuttered, ended early or failed") {
    int k;
    const Build &b = choose(t, k, {GCRY, OSSL, AWS, WIN, WIN, BARE, KERN, APPLE, UNIX, UNIX, UNIX, MUSL, MUSL, MUSL});
    size_t len = 1 + t.u(t.chance(1, 2) ? 40 : 700);
    source.clear();
    for (size_t i = 0; i < len + 64; i++) source.push_back((uint8_t)t.u64());
    std::vector<uint8_t> buf(len + 32, 0);
    for (size_t i = 0; i < buf.size(); i++) buf[i] = (uint8_t)(0xa5 ^ i);
    bc_fails = t.chance(1, 3);
    bc_status = t.pick({(int)0xC0000001, (int)0xC000000D, 1, (int)0x80000005, 0x40000000});
    bool call = k == GCRY || k == OSSL || k == AWS || k == MUSL, odd = false, sysfail = false, ok = true;
    size_t part = 0;
    std::vector<uint8_t> dev;
    if (call) {
        S.vrandom = true;
        S.rnd_bytes = source;
        for (int i = (int)t.u(6); i > 0 && !sysfail && part < len; i--) switch (t.u(4)) {
            case 0: S.grnd.push_back({1, 0, EINTR}); odd = true; break;
            case 1: { size_t m = 1 + t.u(len); S.grnd.push_back({2, m, 0}); part += std::min(m, len - part); odd = true; break; }
            case 2: S.grnd.push_back({1, 0, t.pick({ENOSYS, EAGAIN, EPERM, EFAULT})}); sysfail = true; odd = true; break;
            default: S.grnd.push_back({0, 0, 0}); part = len;
            }
        if (sysfail) for (int i = 0; i < 6; i++) S.grnd.push_back({1, 0, ENOSYS});
    }
    if (k == UNIX || sysfail) {
        shim::VFile f;
        f.per_open = true;
        size_t have = t.chance(3, 4) ? len + t.u(40) : t.u(len);
        for (size_t i = 0; i < have; i++) { dev.push_back((uint8_t)t.u64()); f.data += (char)dev.back(); }
        f.exists = !t.chance(1, 12);
        if (t.chance(1, 12)) f.open_err = t.pick({EACCES, EMFILE, ENXIO});
        // whether the bytes the call has given already are kept is left open: the outcome must be clear either way
        size_t rest = len, pos = 0;
        if (have >= len - part && have < len) { f.data.resize(len); while (dev.size() < len) dev.push_back(0); have = len; }
        ok = f.exists && !f.open_err && have >= len;
        for (int i = (int)t.u(6); i > 0 && pos < rest; i--) switch (t.u(6)) {
            case 0: f.reads.push_back({1, 0, EINTR}); odd = true; break;
            case 1: case 2: { size_t m = 1 + t.u(part ? 1 : len / 2 + 1); f.reads.push_back({2, m, 0}); pos += m; odd = true; break; }
            case 3: if (pos < len - part && t.chance(1, 2)) { f.reads.push_back({1, 0, t.pick({EIO, EAGAIN, EBADF})}); f.reads.push_back({1, 0, EIO}); ok = false; pos = rest; } break;
            case 4: if (pos < len - part && t.chance(1, 2)) { for (int q = 0; q < 4; q++) f.reads.push_back({3, 0, 0}); ok = false; pos = rest; } break;
            default: f.reads.push_back({0, 0, 0}); pos = rest;
            }
        S.files["/dev/urandom"] = f;
        if (!ok) odd = true;
    } else if (call) dev.clear();
    bool sup = k != BARE;
    if (k == BARE) ok = false;
    if (k == WIN) { ok = !bc_fails; odd = bc_fails; }
    if (!!b.rndsup() != sup) t.fail("%s: a random source is claimed %s", b.name, sup ? "absent" : "present");
    int r = b.random(buf.data(), len);
    t.note("%s: %zu bytes%s%s -> %d", b.name, len, sysfail ? ", call fails" : "", ok ? "" : ", no source left", r);
    if (ok ? r != 0 : r >= 0) t.fail("%s: the request for %zu random bytes returned %d, the source %s", b.name, len, r, ok ? "delivered" : "failed");
    for (size_t i = len; i < buf.size(); i++) if (buf[i] != (uint8_t)(0xa5 ^ i)) t.fail("%s: bytes behind the buffer were written", b.name);
    if (ok) {
        bool from_src = !memcmp(buf.data(), source.data(), len);
        bool from_dev = dev.size() >= len && !memcmp(buf.data(), dev.data(), len);
        bool mixed = sysfail && dev.size() >= len - part && !memcmp(buf.data(), source.data(), part) && !memcmp(buf.data() + part, dev.data(), len - part);
        if (k == UNIX || sysfail ? !(from_dev || mixed) : !from_src) t.fail("%s: the %zu bytes handed out are not those of the random source", b.name, len);
    }
    after(t, b);
    t.fp((uint64_t)k << 32 | (uint64_t)ok << 31 | (uint64_t)sysfail << 30 | len << 8 | part % 256);
    if (odd) t.nontrivial();
}
