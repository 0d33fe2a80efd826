// The memory backends other than POSIX: the source is compiled for each of
// them against allocators that keep a ledger, refuse and run dry on request.
#include "pbt.hpp"
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include "jitterentropy.h"
extern "C" {
#include "../pstub/windows.h"
#define B(n) int gm_##n##_ok(void); void *gm_##n##_zalloc(size_t, unsigned); void gm_##n##_zfree(void *, size_t); int gm_##n##_secure(unsigned); int gm_##n##_supported(void);
B(gcry) B(ossl) B(aws) B(win) B(bare) B(kern)
#undef B
}
namespace {
enum Kind { HEAP, POOL, AWS, VIRT, KMEM };
struct Blk { Kind kind; size_t n, map; char *base; std::vector<uint8_t> prot; std::vector<bool> locked; bool handed = false; };
std::map<char *, Blk> live;
std::string trouble;
bool pool_present, give_insecure, heap_fails, valloc_fails, vprot_fails, vlock_fails;
size_t pool_left, page;
const size_t REAL = 4096;
void bad(const char *s) { if (trouble.empty()) trouble = s; }
// the end of the block lies at the end of a page, nothing is mapped behind it
char *get(Kind k, size_t n, bool zero) {
    if (n > (1u << 26)) return nullptr;
    size_t r = (n + 15) & ~(size_t)15, m = (r + REAL - 1) & ~(REAL - 1);
    if (!m) m = REAL;
    char *b = (char *)mmap(nullptr, m + 2 * REAL, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return nullptr;
    mprotect(b + REAL, m, PROT_READ | PROT_WRITE);
    char *p = b + REAL + m - r;
    memset(b + REAL, zero ? 0 : 0xdb, m);
    Blk x{k, n, m + 2 * REAL, b, {}, {}};
    live[p] = x;
    return p;
}
bool clean(const char *p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i]) return false; return true; }
void drop(char *p) {
    auto i = live.find(p);
    munmap(i->second.base, i->second.map);
    live.erase(i);
}
void release(void *q, bool wipes, Kind a, Kind b2) {
    char *p = (char *)q;
    if (!p) return;
    auto i = live.find(p);
    if (i == live.end()) { bad("a pointer was released that was not allocated"); return; }
    if (i->second.kind != a && i->second.kind != b2) { bad("memory was released through the wrong allocator"); return; }
    if (!wipes && i->second.handed && !clean(p, i->second.n)) bad("ordinary memory was released with its contents");
    if (i->second.kind == POOL) pool_left += i->second.n;
    drop(p);
}
Kind kind_of(const void *p) {
    auto i = live.find((char *)p);
    if (i == live.end()) { bad("a pointer was asked about that was not allocated"); return HEAP; }
    return i->second.kind;
}
char *pool(size_t n) {
    if (!pool_present || n > pool_left) return nullptr;
    char *p = get(POOL, n, false);
    if (p) pool_left -= n;
    return p;
}
char *heap(size_t n, bool zero = false) { return heap_fails ? nullptr : get(HEAP, n, zero); }
} // namespace
extern "C" {
void *gcry_malloc_secure(size_t n) { return give_insecure ? heap(n) : pool(n); }
void *gcry_malloc(size_t n) { return heap(n); }
void *gcry_calloc(size_t n, size_t m) { return heap(n * m, true); }
void *gcry_calloc_secure(size_t n, size_t m) { char *p = (char *)gcry_malloc_secure(n * m); if (p) memset(p, 0, n * m); return p; }
void *gcry_xmalloc_secure(size_t n) { void *p = gcry_malloc_secure(n); if (!p) bad("the process was terminated for want of secure memory"); return p; }
void *gcry_xmalloc(size_t n) { void *p = heap(n); if (!p) bad("the process was terminated for want of memory"); return p; }
int gcry_is_secure(const void *p) { return kind_of(p) == POOL; }
void gcry_free(void *p) { release(p, p && kind_of(p) == POOL, HEAP, POOL); }
int gcry_fips_mode_active(void) { return 0; }
int CRYPTO_secure_malloc_initialized(void) { return pool_present; }
int CRYPTO_secure_allocated(const void *p) { return kind_of(p) == POOL; }
void *OPENSSL_secure_malloc(size_t n) { if (!pool_present || give_insecure) return heap(n); return pool(n); }
void *OPENSSL_secure_zalloc(size_t n) { char *p = (char *)OPENSSL_secure_malloc(n); if (p) memset(p, 0, n); return p; }
void OPENSSL_secure_free(void *p) { if (p) release(p, kind_of(p) == POOL, HEAP, POOL); }
void OPENSSL_secure_clear_free(void *p, size_t n) { if (p) { memset(p, 0, n); OPENSSL_secure_free(p); } }
void *OPENSSL_malloc(size_t n) { return heap(n); }
void *OPENSSL_zalloc(size_t n) { return heap(n, true); }
void OPENSSL_free(void *p) { release(p, false, HEAP, HEAP); }
void OPENSSL_clear_free(void *p, size_t n) { if (p) { memset(p, 0, n); release(p, false, HEAP, HEAP); } }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
int EVP_default_properties_is_fips_enabled(void *) { return 0; }
void *aws_malloc(size_t n) { return heap_fails ? nullptr : get(AWS, n, false); }
void *aws_zalloc(size_t n) { return heap_fails ? nullptr : get(AWS, n, true); }
void aws_free(void *p) { release(p, true, AWS, AWS); }
int aws_fips_mode(void) { return 0; }
void *pb_malloc(size_t n) { return heap(n); }
void *pb_calloc(size_t n, size_t m) { return heap(n * m, true); }
void pb_free(void *p) { release(p, false, HEAP, HEAP); }
void *kw_alloc(size_t n, int zero) { return heap_fails ? nullptr : get(KMEM, n, zero); }
size_t kw_size(const void *p) { auto i = live.find((char *)p); return i == live.end() ? 0 : i->second.n; }
void kw_free(void *p) { release(p, false, KMEM, KMEM); }
void kw_free_sensitive(const void *p, size_t n) {
    if (!p) return;
    if (n > kw_size(p)) { bad("wiped more than was allocated"); n = kw_size(p); }
    memset((char *)p, 0, n);
    release((void *)p, false, KMEM, KMEM);
}
// ---- Windows ----
void pstub_zero(void *p, size_t n) { memset(p, 0, n); }
void GetSystemInfo(SYSTEM_INFO *s) { s->dwPageSize = (DWORD)page; s->dwNumberOfProcessors = 4; }
void *VirtualAlloc(void *at, size_t n, DWORD type, DWORD prot) {
    if (at || type != (MEM_COMMIT | MEM_RESERVE) || !n) { bad("VirtualAlloc used in a way the simulation does not know"); return nullptr; }
    if (valloc_fails || n > (1u << 26)) return nullptr;
    size_t m = (n + page - 1) / page * page;
    char *b = (char *)mmap(nullptr, m, prot == PAGE_READWRITE ? PROT_READ | PROT_WRITE : PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return nullptr;
    live[b] = Blk{VIRT, m, m, b, std::vector<uint8_t>(m / page, (uint8_t)prot), std::vector<bool>(m / page)};
    return b;
}
static Blk *virt(void *q, size_t n, size_t &first, size_t &last) {
    char *p = (char *)q;
    for (auto &x : live) {
        Blk &b = x.second;
        if (b.kind != VIRT || p < b.base || p >= b.base + b.map) continue;
        if (!n || n > (size_t)(b.base + b.map - p)) return nullptr;
        first = (size_t)(p - b.base) / page;
        last = ((size_t)(p - b.base) + n - 1) / page;
        return &b;
    }
    return nullptr;
}
BOOL VirtualProtect(void *p, size_t n, DWORD prot, DWORD *old) {
    size_t a, z;
    Blk *b = virt(p, n, a, z);
    if (!old || !b || vprot_fails) return FALSE;
    *old = b->prot[a];
    for (size_t i = a; i <= z; i++) b->prot[i] = (uint8_t)prot;
    mprotect(b->base + a * page, (z - a + 1) * page, prot == PAGE_READWRITE ? PROT_READ | PROT_WRITE : prot == PAGE_READONLY ? PROT_READ : PROT_NONE);
    return TRUE;
}
BOOL VirtualLock(void *p, size_t n) {
    size_t a, z;
    Blk *b = virt(p, n, a, z);
    if (!b || vlock_fails) return FALSE;
    for (size_t i = a; i <= z; i++) if (b->prot[i] == PAGE_NOACCESS) return FALSE;
    for (size_t i = a; i <= z; i++) b->locked[i] = true;
    return TRUE;
}
BOOL VirtualUnlock(void *p, size_t n) {
    size_t a, z;
    Blk *b = virt(p, n, a, z);
    if (!b) return FALSE;
    for (size_t i = a; i <= z; i++) if (!b->locked[i]) return FALSE;
    for (size_t i = a; i <= z; i++) b->locked[i] = false;
    return TRUE;
}
BOOL VirtualFree(void *p, size_t n, DWORD type) {
    auto i = live.find((char *)p);
    if (type != MEM_RELEASE || n || i == live.end() || i->second.kind != VIRT) { bad("VirtualFree of something that is not one whole region"); return FALSE; }
    Blk &b = i->second;
    for (size_t k = 0; k < b.prot.size(); k++)
        if (b.prot[k] == PAGE_READWRITE && !clean(b.base + k * page, page)) bad("memory was released with its contents");
    drop((char *)p);
    return TRUE;
}
}
namespace {
struct Be {
    const char *name;
    int (*ok)(void);
    void *(*zalloc)(size_t, unsigned);
    void (*zfree)(void *, size_t);
    int (*secure)(unsigned);
    int (*supported)(void);
    int kind; // 0: on request from a pool, 1: lock on request, 2: always secure, 3: never secure
};
#define B(n, k) {#n, gm_##n##_ok, gm_##n##_zalloc, gm_##n##_zfree, gm_##n##_secure, gm_##n##_supported, k}
const Be BE[] = {B(gcry, 0), B(ossl, 0), B(win, 1), B(bare, 2), B(kern, 2), B(aws, 3)};
struct Live { char *p; size_t n; };
} // namespace

PBT_PROP(M03, backends, 20, 1, 20, "at least one block was used and released, or an allocation met a refusal") {
    const Be &e = BE[t.u(6)];
    t.label(e.name);
    if (!e.ok()) t.discard();
    for (auto &x : live) munmap(x.second.base, x.second.map);
    live.clear();
    trouble.clear();
    page = t.pick({4096u, 4096u, 8192u, 16384u});
    pool_present = t.chance(3, 4);
    pool_left = t.chance(1, 2) ? 1u << 20 : t.size(20000);
    std::vector<Live> use;
    int ops = 1 + (int)t.size(20);
    bool used = false, refused = false;
    auto sane = [&](const char *when) { if (!trouble.empty()) t.fail("%s: %s: %s", e.name, when, trouble.c_str()); };
    auto give_back = [&](size_t i) {
        size_t before = live.size();
        e.zfree(use[i].p, use[i].n);
        sane("release");
        if (live.size() != before - 1) t.fail("%s: a released block of %zu bytes is still allocated", e.name, use[i].n);
        use.erase(use.begin() + (long)i);
        used = true;
    };
    for (int k = 0; k < ops; k++) {
        if (!use.empty() && t.chance(2, 5)) { give_back(t.u(use.size())); continue; }
        if (t.chance(1, 15)) { e.zfree(nullptr, t.size(100)); sane("release of nothing"); continue; }
        size_t n = 1 + (t.chance(1, 3) ? page * t.u(4) + t.u(3) - 1 + (t.u(2) ? 0 : 1) : t.size(t.chance(1, 4) ? 60000 : 600));
        if (!n || n > (1u << 20)) n = 1;
        bool huge = t.chance(1, 30);
        if (huge) n = SIZE_MAX - t.size(5 * page);
        unsigned flags = t.chance(1, 2) ? JENT_FORCE_SECURE_MEM : 0;
        if (t.chance(1, 4)) flags |= JENT_FORCE_FIPS | (unsigned)JENT_MAX_MEMSIZE_1kB * 5;
        bool force = flags & JENT_FORCE_SECURE_MEM;
        heap_fails = t.chance(1, 12);
        give_insecure = t.chance(1, 10);
        valloc_fails = t.chance(1, 12);
        vprot_fails = t.chance(1, 12);
        vlock_fails = t.chance(1, 4);
        if (t.chance(1, 15)) pool_present = true;
        int want; // 0 refused, 1 ordinary, 2 secure
        switch (e.kind) {
        case 0:
            want = pool_present && !give_insecure && n <= pool_left ? 2 : force || heap_fails ? 0 : 1;
            break;
        case 1: want = valloc_fails || vprot_fails || (vlock_fails && force) ? 0 : vlock_fails ? 1 : 2; break;
        default: want = heap_fails ? 0 : e.kind == 2 ? 2 : 1;
        }
        if (huge) want = 0;
        std::map<char *, size_t> old;
        for (auto &x : live) old[x.first] = x.second.n;
        char *p = (char *)e.zalloc(n, flags);
        sane("allocation");
        t.fp((uint64_t)want * 7 + n); t.fp((uint64_t)e.kind * 3 + force);
        if (!p) {
            refused = true;
            if (want) t.fail("%s: an allocation of %zu bytes failed although %s memory was available", e.name, n, want == 2 ? "secure" : "ordinary");
            if (live.size() != old.size()) t.fail("%s: a refused allocation left memory allocated", e.name);
            continue;
        }
        if (!want) t.fail("%s: %s", e.name, huge ? "an allocation that cannot be satisfied succeeded" : force ? "secure memory was demanded, not available, and something was handed out" : "an allocation succeeded without memory");
        if (live.size() != old.size() + 1) t.fail("%s: one allocation took %zu blocks", e.name, live.size() - old.size());
        Blk *b = nullptr;
        for (auto &x : live) if (!old.count(x.first)) b = &x.second;
        char *lo = b->kind == VIRT ? b->base : b->base + REAL, *hi = b->kind == VIRT ? b->base + b->map : b->base + b->map - REAL;
        if (p < lo || p >= hi || (size_t)(hi - p) < n) t.fail("%s: the block of %zu bytes is not inside the memory allocated for it", e.name, n);
        if (b->kind == VIRT) {
            size_t first = (size_t)(p - b->base) / page, last = ((size_t)(p - b->base) + n - 1) / page;
            if (first < 1 || last + 1 >= b->prot.size()) t.fail("%s: no room for guard pages", e.name);
            if (b->prot[first - 1] != PAGE_NOACCESS || b->prot[last + 1] != PAGE_NOACCESS) t.fail("%s: a guard page is accessible", e.name);
            for (size_t i = first; i <= last; i++) {
                if (b->prot[i] != PAGE_READWRITE) t.fail("%s: a page of the block cannot be used", e.name);
                if (want == 2 && !b->locked[i]) t.fail("%s: page %zu of the block is not locked", e.name, i - first);
            }
        } else {
            if (e.kind == 0 && (b->kind == POOL) != (want == 2)) t.fail("%s: %s memory was expected", e.name, want == 2 ? "secure" : "ordinary");
            if (b->n < n) t.fail("%s: only %zu of %zu bytes were allocated", e.name, b->n, n);
        }
        if (!clean(p, n)) t.fail("%s: the new block of %zu bytes is not zero", e.name, n);
        memset(p, 0xc3, n);
        b->handed = true;
        use.push_back({p, n});
    }
    for (unsigned f : {0u, (unsigned)JENT_FORCE_SECURE_MEM, (unsigned)JENT_FORCE_FIPS}) {
        bool want = e.kind == 2 || (e.kind < 2 && (f & JENT_FORCE_SECURE_MEM));
        if (!!e.secure(f) != want) t.fail("%s: memory reported as %ssecure for flags 0x%x", e.name, want ? "in" : "", f);
    }
    if (!!e.supported() != (e.kind != 3)) t.fail("%s: support for secure memory reported wrongly", e.name);
    while (!use.empty()) give_back(t.u(use.size()));
    if (!live.empty()) t.fail("%s: %zu blocks still allocated at the end", e.name, live.size());
    if (used || refused) t.nontrivial();
    if (refused) t.label("refused");
}
