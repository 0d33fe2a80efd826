// SHA3-256, SHAKE-256 and XDRBG-256: generated operation sequences on several
// contexts against the independent sponge of lib/keccak.hpp.
#include "pbt.hpp"
#include "shim.hpp"
#include "keccak.hpp"
#include <algorithm>
#include <memory>
extern "C" {
int gs_ok(void);
void *gs_new(int fill, int own);
void gs_free(void *, int own);
void gs_sha3(void *);
void gs_shake(void *);
void gs_size(void *, unsigned);
void gs_update(void *, const uint8_t *, size_t);
void gs_final(void *, uint8_t *);
void gs_gen(void *, uint8_t *, size_t);
}
static std::string hx(const uint8_t *p, size_t n) {
    std::string s;
    char b[3];
    for (size_t i = 0; i < n && i < 140; i++) { snprintf(b, 3, "%02x", p[i]); s += b; }
    return s;
}
namespace {
struct C {
    void *p = nullptr;
    int own = 0;
    bool live = false;   // initialised
    bool xof = false;
    unsigned size = 32;
    bool seeded = false;
    ref::Sponge s;
    size_t msg = 0;
    void fresh() { xof ? s.shake256() : s.sha3_256(); msg = 0; }
};
}
// a length with the block boundaries in reach
static size_t gen_n(pbt::Ctx &t, size_t pos, bool big) {
    switch (t.u(7)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (size_t)std::max<int64_t>(0, (int64_t)(136 - pos % 136) + t.irange(-2, 2));          // up to the boundary
    case 3: return (size_t)std::max<int64_t>(0, (int64_t)(136 - pos % 136) + 136 * (int64_t)t.u(4) + t.irange(-1, 1));
    case 4: return (size_t)t.u(137);
    case 5: return t.size(700);
    default: return big ? t.size(70000) : t.u(9) * 8;
    }
}
// input bytes; aligned or not, in an exact-size block so that overreads show
static std::unique_ptr<uint8_t[]> gen_data(pbt::Ctx &t, size_t n, size_t &off) {
    off = t.u(8);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n + off]);
    uint64_t r = t.u(1u << 30);
    int mode = (int)t.u(8);
    for (size_t i = 0; i < n + off; i++) b[i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? 0x80 : (uint8_t)pbt::splitmix(r);
    return b;
}
static void ops(pbt::Ctx &t, bool drbg) {
    if (!gs_ok()) t.discard();
    // the reference itself against the published FIPS 202 examples
    static const bool ref_ok = [] {
        static const uint8_t e[32] = {0xa7, 0xff, 0xc6, 0xf8, 0xbf, 0x1e, 0xd7, 0x66, 0x51, 0xc1, 0x47, 0x56, 0xa0, 0x61, 0xd6, 0x62,
                                      0xf5, 0x80, 0xff, 0x4d, 0xe4, 0x3b, 0x49, 0xfa, 0x82, 0xd8, 0x0a, 0x4b, 0x80, 0xf8, 0x43, 0x4a};
        static const uint8_t a[32] = {0x3a, 0x98, 0x5d, 0xa7, 0x4f, 0xe2, 0x25, 0xb2, 0x04, 0x5c, 0x17, 0x2d, 0x6b, 0xd3, 0x90, 0xbd,
                                      0x85, 0x5f, 0x08, 0x6e, 0x3e, 0x9d, 0x52, 0x5b, 0x46, 0xbf, 0xe2, 0x45, 0x11, 0x43, 0x15, 0x32};
        static const uint8_t k[32] = {0x46, 0xb9, 0xdd, 0x2b, 0x0b, 0xa8, 0x8d, 0x13, 0x23, 0x3b, 0x3f, 0xeb, 0x74, 0x3e, 0xeb, 0x24,
                                      0x3f, 0xcd, 0x52, 0xea, 0x62, 0xb8, 0x1b, 0x82, 0xb5, 0x0c, 0x27, 0x64, 0x6e, 0xd5, 0x76, 0x2f};
        uint8_t o[32];
        ref::Sponge x;
        x.sha3_256(); x.squeeze(o, 32);
        if (memcmp(o, e, 32)) return false;
        x.sha3_256(); x.absorb("abc", 3); x.squeeze(o, 32);
        if (memcmp(o, a, 32)) return false;
        x.shake256(); x.squeeze(o, 32);
        return !memcmp(o, k, 32);
    }();
    if (!ref_ok) t.fail("the reference sponge does not give the published FIPS 202 results");
    int nc = 1 + (int)t.u(3);
    std::vector<C> c((size_t)nc);
    for (auto &x : c) {
        x.own = t.chance(1, 8);
        x.p = gs_new(t.pick({0, 0xff, 0xa5}), x.own);
        if (!x.p) t.fail("no context");
    }
    int n = 2 + (int)t.u(t.thorough ? 40 : 22), outs = 0;
    bool block = false, boundary = false, reuse = false;
    for (int i = 0; i < n; i++) {
        C &x = c[t.u((uint64_t)nc)];
        int k = (int)t.u(drbg ? 9 : 8);
        if (!x.live) k = 0;
        switch (k) {
        case 0: // (re)start
            x.xof = drbg || t.chance(1, 2);
            x.xof ? gs_shake(x.p) : gs_sha3(x.p);
            if (x.live && x.msg) reuse = true;
            x.live = true;
            x.seeded = false;
            x.size = 32;
            x.fresh();
            if (x.xof) { x.size = 8 * (1 + (unsigned)t.u(17)); gs_size(x.p, x.size); }
            t.fp(1000 + x.size + x.xof);
            break;
        case 1: // other output size
            if (!x.xof) break;
            x.size = 8 * (1 + (unsigned)t.u(17));
            gs_size(x.p, x.size);
            break;
        case 2: case 3: { // finish
            if (drbg && !t.chance(1, 6)) goto gen;
            uint8_t want[136];
            std::unique_ptr<uint8_t[]> got(new uint8_t[x.size]);
            memset(got.get(), 0x77, x.size);
            if (x.msg % 136 == 0 || x.msg % 136 >= 134) boundary = true;
            x.s.squeeze(want, x.size);
            gs_final(x.p, got.get());
            outs++;
            if (memcmp(got.get(), want, x.size))
                t.fail("step %d: %s of a %zu byte message, %u bytes: got %s expected %s", i, x.xof ? "SHAKE256" : "SHA3-256", x.msg, x.size, hx(got.get(), x.size).c_str(), hx(want, x.size).c_str());
            t.fp(x.msg * 200 + x.size);
            x.fresh();
            break;
        }
        case 8: gen: { // XDRBG generate
            size_t len = t.chance(1, 4) ? 32 : t.chance(1, 8) ? 33 + t.u(100) : t.u(33);
            uint8_t V[64], T[96], b = x.seeded ? 85 : 0;
            if (x.msg % 136 >= 134 || x.msg % 136 == 0) boundary = true;
            x.s.absorb(&b, 1);
            x.s.squeeze(V, 64);
            x.seeded = true;
            ref::Sponge g;
            g.shake256();
            b = 170;
            g.absorb(V, 64);
            g.absorb(&b, 1);
            g.squeeze(T, 96);
            size_t eff = len > 32 ? 32 : len;
            // exactly the bytes the call may write
            std::unique_ptr<uint8_t[]> got(new uint8_t[len + 1]);
            memset(got.get(), 0x77, len + 1);
            gs_gen(x.p, len || t.chance(1, 2) ? got.get() : nullptr, len);
            outs++;
            if (memcmp(got.get(), T + 64, eff))
                t.fail("step %d: XDRBG-256 block of %zu bytes after a %zu byte seed: got %s expected %s", i, len, x.msg, hx(got.get(), eff).c_str(), hx(T + 64, eff).c_str());
            for (size_t q = eff; q < len + 1; q++)
                if (got[q] != 0x77) t.fail("step %d: XDRBG-256 request of %zu bytes wrote byte %zu", i, len, q);
            t.fp(x.msg * 200 + len);
            x.fresh();
            x.s.absorb(T, 64);
            x.msg = 64;
            x.size = 96;
            break;
        }
        default: { // absorb
            size_t len = gen_n(t, x.msg, t.chance(1, 12)), off;
            auto b = gen_data(t, len, off);
            gs_update(x.p, len ? b.get() + off : (t.chance(1, 2) ? b.get() : (const uint8_t *)""), len);
            x.s.absorb(b.get() + off, len);
            x.msg += len;
            if (x.msg >= 136) block = true;
            t.fp(len);
            if (i < 12) t.note("c%d+%zu ", (int)(&x - c.data()), len);
        }
        }
    }
    // every context is left with its expected content
    for (auto &x : c) {
        if (x.live) {
            uint8_t want[136], got[136];
            x.s.squeeze(want, x.size);
            memset(got, 0x77, sizeof(got));
            gs_final(x.p, got);
            outs++;
            if (memcmp(got, want, x.size)) t.fail("end: %s of a %zu byte message, %u bytes: got %s expected %s", x.xof ? "SHAKE256" : "SHA3-256", x.msg, x.size, hx(got, x.size).c_str(), hx(want, x.size).c_str());
            for (size_t q = x.size; q < sizeof(got); q++) if (got[q] != 0x77) t.fail("end: output of %u bytes wrote byte %zu", x.size, q);
            // ready for the next message
            x.fresh();
            x.s.squeeze(want, x.size);
            gs_final(x.p, got);
            if (memcmp(got, want, x.size)) t.fail("end: the context is not ready for a new message after a result");
        }
        gs_free(x.p, x.own);
    }
    if (block) t.label("full-block");
    if (boundary) t.label("rate-boundary");
    if (reuse) t.label("restart-mid-message");
    t.note("outputs=%d", outs);
    if (block && outs >= 2) t.nontrivial();
}
PBT_PROP(C01, sponge, 40, 2, 30, "a message of at least one full block and two results") { ops(t, false); }
PBT_PROP(C01, drbg, 40, 2, 30, "a message of at least one full block and two results") { ops(t, true); }
