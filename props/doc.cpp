// The status document over collectors whose lifetime counters and health word
// hold generated values, far beyond what a run can accumulate.
#include "pbt.hpp"
#include "sim.hpp"
using namespace sim;
extern "C" {
int gst_ok(void);
void gst_counters(void *, uint64_t, uint64_t, unsigned);
void gst_health(void *, unsigned);
unsigned long gst_size(void);
}
static uint64_t dclk, drng;
static void dmock(void *, uint64_t *o) { dclk += 3000 + pbt::splitmix(drng) % 4001; *o = dclk; }

static uint64_t wide(pbt::Ctx &t, uint64_t max) {
    uint64_t v;
    switch (t.range(0, 4)) {
    case 0: v = t.range(0, 1000); break;
    case 1: v = (1ull << t.range(0, 63)) + (uint64_t)t.range(0, 4) - 2; break;
    case 2: v = ~0ull >> t.range(0, 63); break;
    case 3: v = 1; for (int k = (int)t.range(0, 19); k > 0; k--) v *= 10; v -= t.range(0, 1); break;
    default: v = t.u64() >> t.range(0, 63);
    }
    return v > max ? max : v;
}

PBT_PROP(J01, document, 40, 1, 25, "a counter above 2^31 or a non-zero health word was reported") {
    if (!gst_ok()) t.discard();
    unsigned fl = 0;
    if (t.chance(40, 100)) fl |= JENT_FORCE_FIPS;
    if (t.chance(25, 100)) fl |= JENT_NTG1;
    if (t.chance(20, 100)) fl |= JENT_DISABLE_MEMORY_ACCESS;
    if (fl & JENT_NTG1) fl &= ~(unsigned)JENT_DISABLE_MEMORY_ACCESS;
    if (t.chance(30, 100)) fl |= JENT_CACHE_ALL;
    if (t.chance(40, 100)) fl |= (unsigned)JENT_MAX_MEMSIZE_1kB * (unsigned)t.range(1, 4);
    unsigned osr = (unsigned)t.range(3, 8);
    uint64_t inv = wide(t, ~0ull - 10), bytes = wide(t, (1ull << 61) - 1000);
    unsigned re = (unsigned)wide(t, 0xffffffffu);
    unsigned hf = 0;
    if (t.chance(70, 100)) for (int k = 0; k < 4; k++) {
        unsigned r = (unsigned)t.range(0, 3);
        if (r == 1) hf |= 1u << k;
        if (r == 2) hf |= (1u << k) | (1u << (k + PERM));
        if (r == 3) hf |= 1u << (k + PERM);
    }
    unsigned len = (unsigned)t.range(0, 80);
    uint64_t szrng = t.u64();
    drng = t.u64();
    dclk = 1000000;
    t.fp(inv); t.fp(bytes); t.fp(re); t.fp(hf); t.fp(fl);
    jent_set_mock_timer(dmock, nullptr);
    if (jent_entropy_init()) t.discard();
    struct rand_data *e = jent_entropy_collector_alloc(osr, fl);
    if (!e) { t.label("no-collector"); jent_set_mock_timer(nullptr, nullptr); t.discard(); }
    auto doc = [&] {
        std::vector<char> b(6000, 'x');
        if (jent_status(e, b.data(), b.size())) t.fail("status into 6000 bytes failed");
        return std::string(b.data());
    };
    auto compare = [&](const std::string &a, const std::string &b, uint64_t i, uint64_t by, unsigned r, unsigned h, const char *when) {
        Json ja, jb;
        if (!ja.parse(a)) t.fail("status is not valid JSON: %s\n%s", ja.err.c_str(), a.c_str());
        if (!jb.parse(b)) t.fail("%s: status is not valid JSON: %s\n%s", when, jb.err.c_str(), b.c_str());
        std::map<std::string, std::string> want(ja.v.begin(), ja.v.end());
        auto set = [&](const char *k, const std::string &v) { want[k] = v; };
        auto B = [](unsigned x) { return std::string(x ? "true" : "false"); };
        set("output.invocations", std::to_string(i));
        set("output.bytes", std::to_string(by));
        set("output.bits", std::to_string(by * 8));
        set("reinitializations", std::to_string(r));
        const char *nm[] = {"rct", "apt", "lag", "rctMemory"};
        const unsigned bit[] = {B_RCT, B_APT, B_LAG, B_RCTMEM};
        for (int k = 0; k < 4; k++) {
            if (!ja.v.count(std::string("healthFailure.") + nm[k] + ".intermittent")) continue;
            set((std::string("healthFailure.") + nm[k] + ".intermittent").c_str(), B(h & bit[k]));
            set((std::string("healthFailure.") + nm[k] + ".permanent").c_str(), B(h & (bit[k] << PERM)));
        }
        for (auto &x : want)
            if (jb.get(x.first.c_str()) != x.second)
                t.fail("%s: status field %s is %s, expected %s", when, x.first.c_str(), jb.get(x.first.c_str()).c_str(), x.second.c_str());
        if (jb.v.size() != want.size()) t.fail("%s: status has %zu fields, expected %zu", when, jb.v.size(), want.size());
    };
    std::string d0 = doc();
    compare(d0, d0, 0, 0, 0, 0, "new collector");
    gst_counters(e, inv, bytes, re);
    std::string d1 = doc();
    compare(d0, d1, inv, bytes, re, 0, "counters set");
    std::vector<char> out(len + 1);
    ssize_t r = jent_read_entropy(e, out.data(), len);
    if (r == (ssize_t)len) compare(d0, doc(), inv + 1, bytes + len, re, 0, "after one more read");
    else t.label("read-failed");
    gst_counters(e, inv, bytes, re);
    gst_health(e, hf);
    std::vector<char> im((char *)e, (char *)e + gst_size());
    std::string d2 = doc();
    compare(d0, d2, inv, bytes, re, hf, "counters and health word set");
    check_status_sizes(t, e, d2, szrng);
    if (memcmp(im.data(), e, gst_size())) t.fail("querying the status changed the collector");
    jent_entropy_collector_free(e);
    jent_set_mock_timer(nullptr, nullptr);
    if (hf || inv > 0x7fffffff || bytes > 0x7fffffff || re > 0x7fffffff) t.nontrivial();
}
