// Independent Keccak sponge (FIPS 202), written bit-interleaved-free from the
// specification: theta/rho/pi/chi/iota on 25 lanes with the rotation offsets
// and round constants derived at start-up instead of copied tables.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>

namespace ref {

struct KeccakConst {
    uint64_t rc[24];
    unsigned rot[25];
    unsigned pi[25];
    constexpr KeccakConst() : rc(), rot(), pi() {
        // rc: LFSR x^8+x^6+x^5+x^4+1
        uint8_t r = 1;
        for (int i = 0; i < 24; i++) {
            rc[i] = 0;
            for (int j = 0; j <= 6; j++) {
                if (r & 1) rc[i] |= 1ULL << ((1u << j) - 1);
                r = (uint8_t)((r << 1) ^ ((r & 0x80) ? 0x71 : 0));
            }
        }
        rot[0] = 0;
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            rot[x + 5 * y] = (unsigned)(((t + 1) * (t + 2) / 2) % 64);
            int nx = y, ny = (2 * x + 3 * y) % 5;
            x = nx; y = ny;
        }
        for (int xx = 0; xx < 5; xx++)
            for (int yy = 0; yy < 5; yy++) pi[xx + 5 * yy] = (unsigned)(yy + 5 * ((2 * xx + 3 * yy) % 5));
    }
};
static constexpr KeccakConst KC;

inline uint64_t &perm_count() { static uint64_t n = 0; return n; }

inline void keccak_f(uint64_t *s) {
    perm_count()++;
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], d[5], b[25];
#pragma clang loop unroll(full)
        for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
#pragma clang loop unroll(full)
        for (int x = 0; x < 5; x++) {
            uint64_t v = c[(x + 1) % 5];
            d[x] = c[(x + 4) % 5] ^ ((v << 1) | (v >> 63));
        }
#pragma clang loop unroll(full)
        for (int i = 0; i < 25; i++) {
            uint64_t v = s[i] ^ d[i % 5];
            const unsigned n = KC.rot[i];
            b[KC.pi[i]] = (v << n) | (v >> ((64 - n) & 63));
        }
#pragma clang loop unroll(full)
        for (int y = 0; y < 25; y += 5)
#pragma clang loop unroll(full)
            for (int x = 0; x < 5; x++) s[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
        s[0] ^= KC.rc[r];
    }
}

struct Sponge {
    uint64_t s[25];
    size_t rate, pos;
    uint8_t dom;
    bool squeezing;
    void init(size_t r, uint8_t d) { memset(s, 0, sizeof(s)); rate = r; dom = d; pos = 0; squeezing = false; }
    void sha3_256() { init(136, 0x06); }
    void shake256() { init(136, 0x1f); }
    void absorb(const void *p, size_t n) {
        const uint8_t *q = (const uint8_t *)p;
        uint8_t *b = (uint8_t *)s;
        while (n) {
            size_t k = rate - pos < n ? rate - pos : n;
            if (pos % 8 == 0 && k >= 8) {
                size_t w = k / 8;
                for (size_t i = 0; i < w; i++) { uint64_t v; memcpy(&v, q + 8 * i, 8); s[pos / 8 + i] ^= v; }
                pos += 8 * w; q += 8 * w; n -= 8 * w;
            } else {
                b[pos++] ^= *q++;
                n--;
            }
            if (pos == rate) { keccak_f(s); pos = 0; }
        }
    }
    void squeeze(void *p, size_t n) {
        uint8_t *b = (uint8_t *)s, *q = (uint8_t *)p;
        if (!squeezing) {
            b[pos] ^= dom;
            b[rate - 1] ^= 0x80;
            keccak_f(s);
            pos = 0;
            squeezing = true;
        }
        while (n--) {
            if (pos == rate) { keccak_f(s); pos = 0; }
            *q++ = b[pos++];
        }
    }
};

} // namespace ref
