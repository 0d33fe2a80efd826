// What a read leaves behind: the library runs on a stack of its own; after
// every operation that stack, the library's live memory, its static data and
// everything it released are searched for the blocks produced so far, the
// states they came from and the hash loop results that went into them.
#include "sim.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <unordered_map>
using namespace sim;
extern "C" char __data_start[], _end[];

static const size_t STK = 512 * 1024;
static uint8_t *stk;
static ucontext_t main_uc, lib_uc;
static const std::function<void()> *job;
static void tramp() { (*job)(); }
static void on_own_stack(const std::function<void()> &f) {
    if (!stk) {
        stk = (uint8_t *)shim::sys_mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (stk == MAP_FAILED) _exit(1);
    }
    memset(stk, 0x11, STK);
    job = &f;
    getcontext(&lib_uc);
    lib_uc.uc_stack.ss_sp = stk;
    lib_uc.uc_stack.ss_size = STK;
    lib_uc.uc_link = &main_uc;
    makecontext(&lib_uc, tramp, 0);
    swapcontext(&main_uc, &lib_uc);
}

namespace {
struct Index { // 8-byte windows at every offset of the secrets
    std::unordered_map<uint64_t, const uint8_t *> m; // value -> position inside the secret
    std::vector<uint64_t> bloom = std::vector<uint64_t>(1024, 0);
    std::unordered_map<const uint8_t *, const uint8_t *> end;
    static uint64_t ld(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
    void add(const uint8_t *p, size_t n) {
        for (size_t i = 0; i + 8 <= n; i++) {
            uint64_t v = ld(p + i);
            m[v] = p + i;
            end[p + i] = p + n;
            bloom[(v & 0xffff) >> 6] |= 1ULL << (v & 63);
        }
    }
    // longest match of at least `need` consecutive bytes in [p, p+n)
    bool find(const uint8_t *p, size_t n, size_t need, const uint8_t *&where, const uint8_t *&sec) const {
        for (size_t i = 0; i + need <= n; i++) {
            uint64_t v = ld(p + i);
            if (!(bloom[(v & 0xffff) >> 6] >> (v & 63) & 1)) continue;
            auto it = m.find(v);
            if (it == m.end()) continue;
            size_t room = (size_t)(end.at(it->second) - it->second);
            if (room < need || memcmp(p + i, it->second, need)) continue;
            where = p + i;
            sec = it->second;
            return true;
        }
        return false;
    }
};
}
static size_t scanned;

static void look(pbt::Ctx &t, History &H, size_t i) {
    Op &op = H.ops[i];
    if (op.kind != O_READ && op.kind != O_SAFE && op.kind != O_ALLOC) return;
    World &w = H.w;
    if (!op.gens_end && op.pending.empty()) return;
    Index ix, dg;
    for (size_t k = 0; k < op.gens_end; k++) { ix.add(w.gens[k].out, 32); ix.add(w.gens[k].v, 64); }
    size_t d0 = op.digs_end > 1500 ? op.digs_end - 1500 : 0;
    for (size_t k = d0; k < op.digs_end; k++) dg.add(w.digs[k].data(), 32);
    for (auto &d : op.pending) dg.add(d.data(), 32);
    auto what = [&](const uint8_t *s) {
        static char b[120];
        for (size_t k = 0; k < op.gens_end; k++) {
            if (s >= w.gens[k].out && s < w.gens[k].out + 32) { snprintf(b, sizeof(b), "bytes %zu.. of generated block %zu", (size_t)(s - w.gens[k].out), k); return b; }
            if (s >= w.gens[k].v && s < w.gens[k].v + 64) { snprintf(b, sizeof(b), "bytes %zu.. of the state block %zu was generated from", (size_t)(s - w.gens[k].v), k); return b; }
        }
        snprintf(b, sizeof(b), "a hash loop result that was mixed in");
        return b;
    };
    const uint8_t *at, *s;
    for (auto &m : shim::S.maps) {
        if (!m.live) continue;
        size_t ps = 4096;
        for (size_t pg = 0; pg < m.prot.size(); pg++) {
            if (!(m.prot[pg] & PROT_READ)) continue;
            size_t run = pg;
            while (run < m.prot.size() && (m.prot[run] & PROT_READ)) run++;
            scanned += (run - pg) * ps;
            if (ix.find(m.base + pg * ps, (run - pg) * ps, 8, at, s))
                t.fail("op %zu: after %s the library's memory (region #%d of %zu bytes, offset %zu) still holds %s", i, opname(op.kind), m.seq, m.len, (size_t)(at - m.base), what(s));
            pg = run;
        }
    }
    size_t dl = (size_t)(_end - __data_start);
    scanned += dl + STK;
    if (ix.find((uint8_t *)__data_start, dl, 8, at, s) || dg.find((uint8_t *)__data_start, dl, 16, at, s))
        t.fail("op %zu: after %s static data still holds %s", i, opname(op.kind), what(s));
    // single words may be spilled by the compiler; longer runs are copies
    if (ix.find(stk, STK, 16, at, s) || dg.find(stk, STK, 16, at, s))
        t.fail("op %zu: after %s the stack (%zu bytes below its top) still holds %s", i, opname(op.kind), (size_t)(stk + STK - at), what(s));
}

static bool c02_run(pbt::Ctx &t, Opts &o) {
    History H;
    H.w.keep_gens = true;
    try { gen_history(t, o, H); } catch (Budget &) { t.discard(); }
    account(t, H);
    call_on = on_own_stack;
    post_op = look;
    scanned = 0;
    execute(t, H);
    call_on = nullptr;
    post_op = nullptr;
    // blocks and retained states of a collector never repeat
    int multi = 0;
    auto &g = H.w.gens;
    for (size_t a = 0; a < g.size(); a++)
        for (size_t b = 0; b < a; b++)
            if (g[a].id == g[b].id && (!memcmp(g[a].out, g[b].out, 32) || !memcmp(g[a].next, g[b].next, 64))) t.fail("two equal blocks");
    for (auto &op : H.ops) if ((op.kind == O_READ || op.kind == O_SAFE) && op.len > 32) multi++;
    t.note("blocks=%zu scanned=%zuK", g.size(), scanned >> 10);
    return g.size() >= 2;
}
PBT_PROP(C02, residue, 1, 1, 30, "at least two generated blocks to look for") {
    Opts o;
    o.cache_pct = 60;
    o.max_ops = 5;
    o.min_ops = 2;
    o.w_read = 5; o.w_safe = 4; o.w_free = 1; o.w_alloc = 1; o.w_init = 0;
    o.attack_pct = 35;
    o.init_attack_pct = 0;
    o.skip_init_pct = 10;
    o.badosr_pct = 0;
    o.poison_pct = 5;
    if (c02_run(t, o)) t.nontrivial();
}
