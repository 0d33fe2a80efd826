// Several threads inside the library. Every thread has its own script and its
// own clock, so what a call returns, delivers and consumes does not depend on
// the others: each result is compared with the same script run alone in a
// fresh process. `schedule` interleaves the threads deterministically (at
// every clock reading and memory call), `race` lets them run freely under the
// thread sanitizer.
#include "pbt.hpp"
#include "shim.hpp"
#include "jitterentropy.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>
#include <errno.h>
#include <algorithm>
#include <atomic>
#include <fcntl.h>
extern "C" {
typedef void (*jent_mock_timer_cb_t)(void *arg, uint64_t *out);
int jent_set_mock_timer(jent_mock_timer_cb_t cb, void *arg);
}
namespace {
enum { F_NOMEM = 1 << 2, F_NO_TIMER = 1 << 4, F_FIPS = 1 << 5, F_NTG1 = 1 << 6, F_CACHE_ALL = 1 << 7, F_SECMEM = 1 << 8 };
enum K { INIT, INITP, ALLOC, READ, SAFE, STATUS, UUID, SELFTEST, VERSION, FREE, POISON, REGISTER };
const char *kn[] = {"init_ex", "init", "alloc", "read", "safe", "status", "uuid", "selftest", "version", "free", "poison", "register"};
struct SOp { int k; unsigned osr = 0, flags = 0; size_t len = 0; };
struct Win { uint64_t from, to; };
struct Script {
    std::vector<SOp> ops;
    uint64_t seed = 1, unit = 1, base = 100, range = 5000;
    std::vector<Win> win;   // predictable steps
    bool dead = false;      // never usable
    bool keep = false;      // its last collector survives the thread (another thread binds a verdict to it)
    int target = -1;        // whose collector POISON goes for
};
struct Res { int ret; uint64_t used; uint64_t hash; uint32_t cbs, cbmask; int valid; };
const int MAXO = 16, MAXT = 6;
struct Out { Res r[MAXO]; int n; char err[200]; };

struct Thr {
    const Script *sc = nullptr;
    Out *out = nullptr;
    int idx = 0;
    uint64_t rng = 0, now = 0, n = 0, steps = 0, asteps = 0;
    uint32_t cbs = 0, cbmask = 0;
    std::atomic<struct rand_data *> pub{nullptr};
    struct rand_data *left = nullptr;      // kept collector
    uint64_t t_start[MAXO], t_end[MAXO];   // schedule time of each op
    uint64_t t_first[MAXO], t_done[MAXO];  // ... of its first clock reading (or end), of the last one of its startup test
    uint64_t startup_len[MAXO];            // clock readings a startup test inside the op takes
    uint64_t n0 = 0;
    char uuids[4][40];
    int nuuid = 0;
    bool poisoned_by_me = false;
    int poison_state = -1;                 // index of the op of the target in flight (schedule mode)
    std::atomic<int> cur{0};
};
thread_local Thr *me;
Thr *all[MAXT];
int nthr;
bool det;                                  // deterministic schedule
std::atomic<uint64_t> gtime{0};
uint64_t spin_seed;

void point();
void mock(void *, uint64_t *out) {
    Thr *t = me;
    if (!t) { *out = 1; return; }
    uint64_t i = t->n++;
    uint64_t d = (t->sc->base + pbt::splitmix(t->rng) % t->sc->range) * t->sc->unit;
    if (t->sc->dead) d = 1000 * t->sc->unit;
    for (auto &w : t->sc->win) if (i >= w.from && i < w.to) d = 1000 * t->sc->unit;
    if (t->n > 4000000) {
        if (pbt::cur) { snprintf(pbt::cur->slot->msg, 200, "the library keeps reading the clock without end"); pbt::cur->slot->state = 2; }
        _exit(0);
    }
    t->now += d;
    *out = t->now;
    if (det) {
        uint64_t g = gtime.fetch_add(1, std::memory_order_relaxed), c = t->n - t->n0;
        int k = t->cur.load(std::memory_order_relaxed);
        if (k < MAXO) {
            if (c == 1) t->t_first[k] = g;
            if (c == t->startup_len[k]) t->t_done[k] = g;
        }
    }
    point();
}
void cb(struct rand_data *, unsigned int mask) { if (me) { me->cbs = 1; me->cbmask |= mask; } }

uint64_t fnv(const void *p, size_t n) {
    uint64_t h = 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 0x100000001b3ULL;
    return h;
}

uint64_t status_hash(struct rand_data *ec, int *ret = nullptr) {
    static thread_local char b[6000];
    int r = jent_status(ec, b, sizeof(b));
    if (ret) *ret = r;
    // all but the identifier
    char *u = strstr(b, "\"uuid\"");
    if (u) { char *e = strchr(u, '\n'); if (!e) e = strchr(u, ','); if (e) memset(u, 'u', (size_t)(e - u)); }
    return fnv(b, strlen(b));
}
// one thread's script
void run_script(Thr *t) {
    me = t;
    const Script &s = *t->sc;
    t->rng = s.seed;
    t->now = 1000000 * s.unit;
    struct rand_data *ec = nullptr;
    Out *o = t->out;
    o->n = (int)s.ops.size();
    for (size_t i = 0; i < s.ops.size() && i < MAXO; i++) {
        const SOp &op = s.ops[i];
        Res &r = o->r[i];
        memset(&r, 0, sizeof(r));
        uint64_t n0 = t->n0 = t->n;
        t->t_first[i] = t->t_done[i] = UINT64_MAX;
        t->cbs = t->cbmask = 0;
        t->cur.store((int)i, std::memory_order_relaxed);
        t->t_start[i] = gtime.fetch_add(1, std::memory_order_relaxed);
        bool skip = false;
        switch (op.k) {
        case INIT: r.ret = jent_entropy_init_ex(op.osr, op.flags); break;
        case INITP: r.ret = jent_entropy_init(); break;
        case ALLOC:
            if (ec) { skip = true; break; }
            ec = jent_entropy_collector_alloc(op.osr, op.flags);
            r.ret = ec ? 1 : 0;
            if (ec) {
                char u[40];
                if (jent_uuid(ec, u, sizeof(u))) snprintf(o->err, sizeof(o->err), "no identifier for a new collector");
                else if (t->nuuid < 4) strcpy(t->uuids[t->nuuid++], u);
                r.hash = status_hash(ec);   // its configuration, the memory size in particular
                t->pub.store(ec, std::memory_order_release);
            }
            break;
        case READ:
        case SAFE: {
            if (!ec) { skip = true; break; }
            uint8_t b[256];
            size_t l = std::min(op.len, sizeof(b));
            memset(b, 0x5a, sizeof(b));
            r.ret = (int)(op.k == READ ? jent_read_entropy(ec, (char *)b, l) : jent_read_entropy_safe(&ec, (char *)b, l));
            if (r.ret >= 0) r.hash = fnv(b, l);
            else for (size_t k = 0; k < l; k++) if (b[k] && b[k] != 0x5a) snprintf(o->err, sizeof(o->err), "op %zu: a failed read left data in the buffer", i);
            for (size_t k = l; k < sizeof(b); k++) if (b[k] != 0x5a) snprintf(o->err, sizeof(o->err), "op %zu: a read wrote past its buffer", i);
            break;
        }
        case STATUS: {
            if (!ec) { skip = true; break; }
            r.hash = status_hash(ec, &r.ret);
            break;
        }
        case UUID: {
            if (!ec) { skip = true; break; }
            char u[40];
            r.ret = jent_uuid(ec, u, sizeof(u));
            if (!r.ret && t->nuuid && strcmp(u, t->uuids[t->nuuid - 1])) snprintf(o->err, sizeof(o->err), "op %zu: the identifier of a collector changed", i);
            break;
        }
        case SELFTEST: r.ret = jent_selftest(op.flags & 1 ? ec : nullptr); break;
        case VERSION: r.ret = (int)jent_version(); r.hash = (uint64_t)jent_secure_memory_supported(); break;
        case FREE:
            if (!ec) { skip = true; break; }
            jent_entropy_collector_free(ec);
            ec = nullptr;
            break;
        case POISON: {
            Thr *v = s.target >= 0 && s.target < nthr ? all[s.target] : nullptr;
            struct rand_data *e = v && v != t ? v->pub.load(std::memory_order_acquire) : nullptr;
            if (!e) { skip = true; break; }
            t->poison_state = v->cur.load(std::memory_order_relaxed);
            shim::kat_fail_here = true;
            r.ret = jent_selftest(e);
            shim::kat_fail_here = false;
            t->poisoned_by_me = true;
            break;
        }
        case REGISTER:
            r.ret = jent_set_fips_failure_callback(cb);
            break;
        }
        t->t_end[i] = gtime.fetch_add(1, std::memory_order_relaxed);
        if (t->t_first[i] == UINT64_MAX) t->t_first[i] = t->t_end[i];
        r.used = t->n - n0;
        r.cbs = t->cbs;
        r.cbmask = t->cbmask;
        r.valid = !skip;
    }
    if (s.keep) t->left = ec;
    else jent_entropy_collector_free(ec);
    t->cur.store(1000, std::memory_order_relaxed);
    me = nullptr;
}

// --------------------------------------------------- deterministic schedule ----
struct Pre { int thr; uint64_t step; int to; bool atomic; };
std::vector<Pre> pres;
uint64_t quantum;
sem_t sems[MAXT];
bool finished[MAXT];
int holder = -1;
void handoff(int to) { holder = to; sem_post(&sems[to]); }
int next_free(int from) {
    for (int k = 0; k < nthr; k++) { int c = (from + k) % nthr; if (!finished[c]) return c; }
    return -1;
}
void switch_to(Thr *t, int to);
// around every access to process-wide state
void apoint() {
    Thr *t = me;
    if (!t) return;
    uint64_t s = t->asteps++;
    if (!det) {
        uint64_t x = spin_seed * 31 + s * 2654435761u + (uint64_t)t->idx * 977;
        x ^= x >> 13; x *= 0x9E3779B97F4A7C15ULL; x ^= x >> 29;
        if ((x & 3) == 0) usleep((unsigned)(x >> 8) % 300);
        else if ((x & 3) == 1) sched_yield();
        return;
    }
    for (auto &p : pres) if (p.atomic && p.thr == t->idx && p.step == s) { switch_to(t, p.to); return; }
}
void point() {
    Thr *t = me;
    if (!t) return;
    uint64_t s = t->steps++;
    if (!det) {
        uint64_t x = spin_seed + s * 2654435761u + (uint64_t)t->idx * 977;
        x ^= x >> 13;
        if ((x & 255) == 0) sched_yield();
        return;
    }
    int to = -1;
    for (auto &p : pres) if (!p.atomic && p.thr == t->idx && p.step == s) to = p.to;
    if (to < 0 && quantum && s % quantum == quantum - 1) to = t->idx + 1;
    if (to >= 0) switch_to(t, to);
}
void switch_to(Thr *t, int to) {
    int c = next_free(to % nthr);
    if (c < 0 || c == t->idx) return;
    handoff(c);
    sem_wait(&sems[t->idx]);
}
void *tmain_det(void *a) {
    Thr *t = (Thr *)a;
    sem_wait(&sems[t->idx]);
    run_script(t);
    finished[t->idx] = true;
    int c = next_free(t->idx + 1);
    if (c >= 0) handoff(c);
    return nullptr;
}
std::atomic<int> gate{0}, ready{0};
void *tmain_free(void *a) {
    Thr *t = (Thr *)a;
    ready.fetch_add(1, std::memory_order_relaxed);
    while (!gate.load(std::memory_order_relaxed)) ;
    run_script(t);
    return nullptr;
}

void env(bool pass) {
    auto &S = shim::S;
    S.track = !pass;
    S.vsysfs = true;
    S.sysconf_over[_SC_LEVEL1_DCACHE_SIZE] = 2048;
    S.sysconf_over[_SC_LEVEL2_CACHE_SIZE] = 0;
    S.sysconf_over[_SC_LEVEL3_CACHE_SIZE] = 0;
    S.passthru = pass;
    jent_set_mock_timer(mock, nullptr);
}
// the script alone in a fresh process; `pre`: a process that has passed the startup test already
bool alone(const Script &s, const Script *pre, Out *o, bool pass) {
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        env(pass);
        if (jent_set_fips_failure_callback(cb)) _exit(4);
        det = false;
        spin_seed = 0;
        Out dummy;
        memset(&dummy, 0, sizeof(dummy));
        if (pre) {
            Thr p;
            p.sc = pre;
            p.out = &dummy;
            run_script(&p);
            if (dummy.r[0].ret) _exit(5);
        }
        Thr a;
        a.sc = &s;
        a.out = o;
        nthr = 0;
        run_script(&a);
        if (a.left) jent_entropy_collector_free(a.left);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
bool same(const Res &a, const Res &b) {
    return a.valid == b.valid && a.ret == b.ret && a.used == b.used && a.hash == b.hash && a.cbs == b.cbs && a.cbmask == b.cbmask;
}

Script gen_script(pbt::Ctx &t, uint64_t unit, bool poisoned, bool simple) {
    Script s;
    s.unit = unit;
    s.seed = t.u(1u << 30) + 11;
    s.base = 20 + t.size(500);
    s.range = 200 + t.size(20000);
    unsigned f = 0;
    if (t.chance(1, 3)) f |= F_FIPS;
    if (t.chance(1, 6)) f |= F_NTG1;
    if (!(f & (F_FIPS | F_NTG1)) && t.chance(1, 5)) f |= F_NOMEM;
    if (t.chance(1, 4)) f |= F_NO_TIMER;
    if (t.chance(1, 6)) f |= F_CACHE_ALL;
    if (t.chance(1, 6)) f |= F_SECMEM;
    if (t.chance(1, 2)) f |= (1u + (unsigned)t.u(3)) << 27;
    unsigned osr = t.chance(1, 6) ? 4 + (unsigned)t.u(3) : 0;
    auto add = [&](int k, size_t len = 0) { SOp o; o.k = k; o.osr = osr; o.flags = f; o.len = len; s.ops.push_back(o); };
    if (!simple && t.chance(1, 2)) add(t.chance(1, 4) ? (int)INITP : (int)INIT);
    int rounds = simple || poisoned ? 1 : 1 + (int)t.u(2);
    for (int r = 0; r < rounds; r++) {
        add(ALLOC);
        int n = 1 + (int)t.u(4);
        for (int i = 0; i < n; i++) {
            int k = t.pick({(int)READ, (int)READ, (int)SAFE, (int)STATUS, (int)UUID, (int)SELFTEST, (int)VERSION, (int)INIT});
            if (simple && (k == SAFE || k == INIT)) k = READ;
            if (poisoned && (k == SAFE || k == SELFTEST)) k = READ;
            add(k, t.chance(1, 2) ? 32 : t.u(200));
            if (k == SELFTEST) s.ops.back().flags |= 1;
        }
        if (poisoned) s.keep = true;
        else add(FREE);
    }
    if (!simple && t.chance(1, 4)) { uint64_t a = 3000 + t.u(6000); s.win.push_back({a, a + 20 + t.u(120)}); }
    return s;
}

void conc(pbt::Ctx &t, bool race) {
    nthr = 2 + (int)t.u(race ? 4 : 2);
    uint64_t unit = t.chance(1, 2) ? 1 : t.pick({(uint64_t)2, (uint64_t)3, (uint64_t)10, (uint64_t)100, (uint64_t)1000});
    int mode = (int)t.u(5); // 0-2 plain, 3 one thread's startup fails, 4 cross-thread verdict
    std::vector<Script> sc((size_t)nthr);
    for (int i = 0; i < nthr; i++) sc[(size_t)i] = gen_script(t, unit, mode == 4 && i == 0, mode == 3);
    if (mode == 3) {
        Script &b = sc[0];
        b.dead = true;
        b.ops.clear();
        SOp o;
        o.k = INIT;
        o.flags = F_NO_TIMER;
        b.ops.push_back(o);
        if (t.chance(1, 2)) b.ops.push_back(o);
        b.win.clear();
    }
    if (mode == 4) {
        int p = 1 + (int)t.u((uint64_t)nthr - 1);
        Script &b = sc[(size_t)p];
        b.target = 0;
        SOp o;
        o.k = POISON;
        size_t at = t.u(b.ops.size() + 1);
        b.ops.insert(b.ops.begin() + (long)at, o);
        if (t.chance(1, 2)) b.ops.push_back(o);
    }
    for (auto &s : sc) if (s.ops.size() > MAXO) s.ops.resize(MAXO);
    if (!race) {
        int np = (int)t.u(7);
        for (int i = 0; i < np; i++) {
            Pre p;
            p.thr = (int)t.u((uint64_t)nthr);
            p.atomic = t.chance(1, 2);
            p.step = p.atomic ? t.u(40) : t.size(9000);
            p.to = (int)t.u((uint64_t)nthr);
            pres.push_back(p);
        }
        quantum = t.chance(1, 3) ? 1 + t.size(3000) : 0;
    } else spin_seed = t.u(1u << 30);

    // references
    const size_t NO = (size_t)MAXT * 3;
    Out *o = (Out *)shim::sys_mmap(nullptr, NO * sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (o == MAP_FAILED) t.discard();
    memset((void *)o, 0, NO * sizeof(Out));
    Script pre;
    pre.unit = unit;
    pre.seed = 4711;
    pre.ops.resize(1);
    pre.ops[0].k = INIT;
    pre.ops[0].flags = F_NO_TIMER;
    uint64_t slen[MAXT][MAXO];
    for (auto &x : slen) for (auto &y : x) y = UINT64_MAX;
    for (int i = 0; i < nthr; i++) {
        Script s = sc[(size_t)i];
        for (size_t k = 0; k < s.ops.size() && !race; k++) {
            if (s.ops[k].k == INIT || s.ops[k].k == INITP) break;
            if (s.ops[k].k != ALLOC) continue;
            Script q = s;
            q.ops.resize(k + 1);
            q.ops[k].k = INIT;
            q.keep = false;
            if (!alone(q, nullptr, &o[i], race)) t.discard();
            slen[i][k] = o[i].r[k].used * 9 / 10;
            memset((void *)&o[i], 0, sizeof(Out));
            break;
        }
        if (!alone(s, nullptr, &o[i], race)) t.discard();
        if (!alone(s, &pre, &o[MAXT + i], race)) t.discard();
        for (size_t k = 0; k < s.ops.size(); k++)
            for (int v = 0; v < 2; v++) {
                Res &r = o[v * MAXT + i].r[k];
                bool bad = ((s.ops[k].k == INIT || s.ops[k].k == INITP) && r.ret) || (s.ops[k].k == ALLOC && r.valid && !r.ret);
                // a startup failure clears the process-wide verdict and shows in other threads
                if (bad && !s.dead) t.discard();
                if (s.ops[k].k == SAFE && r.valid && r.used > 60000) t.discard();
            }
    }
    // together
    env(race);
    det = !race;
    if (jent_set_fips_failure_callback(cb)) t.fail("registering the failure callback before initialization was refused");
    static Thr thr[MAXT];
    pthread_t th[MAXT];
    for (int i = 0; i < nthr; i++) {
        thr[i].sc = &sc[(size_t)i];
        thr[i].out = &o[2 * MAXT + i];
        thr[i].idx = i;
        for (size_t k = 0; k < sc[(size_t)i].ops.size(); k++) {
            // nine tenths of what the startup test alone takes at that point (the test is certainly not over earlier)
            bool init = sc[(size_t)i].ops[k].k == INIT || sc[(size_t)i].ops[k].k == INITP;
            thr[i].startup_len[k] = init ? o[i].r[k].used * 9 / 10 : slen[i][k];
        }
        all[i] = &thr[i];
        sem_init(&sems[i], 0, 0);
        finished[i] = false;
    }
    if (det) shim::S.on_call = point;
    shim::S.on_atomic = apoint;
    for (int i = 0; i < nthr; i++)
        if (pthread_create(&th[i], nullptr, race ? tmain_free : tmain_det, &thr[i])) _exit(0);
    if (race) {
        while (ready.load(std::memory_order_relaxed) < nthr) sched_yield();
        gate.store(1, std::memory_order_relaxed);
    } else handoff(0);
    for (int i = 0; i < nthr; i++) pthread_join(th[i], nullptr);
    shim::S.on_call = shim::S.on_atomic = nullptr;
    det = false;

    // verdicts
    bool overlap = false;
    std::vector<std::string> ids;
    uint64_t first_pass = UINT64_MAX;
    for (int i = 0; i < nthr; i++) {
        Out &g = o[2 * MAXT + i];
        for (int k = 0; k < g.n; k++) {
            int kk = sc[(size_t)i].ops[(size_t)k].k;
            bool pass = ((kk == INIT || kk == INITP) && g.r[k].ret == 0) || (kk == ALLOC && g.r[k].valid && g.r[k].ret);
            // (a reading not seen: the op ran no startup test of its own)
            if (pass) first_pass = std::min(first_pass, std::min(thr[i].t_done[k], thr[i].t_end[k]));
            for (int j = 0; j < i; j++)
                for (int q = 0; q < o[2 * MAXT + j].n; q++)
                    if (thr[i].t_start[k] < thr[j].t_end[q] && thr[j].t_start[q] < thr[i].t_end[k] && g.r[k].used && o[2 * MAXT + j].r[q].used) overlap = true;
        }
        for (int k = 0; k < thr[i].nuuid; k++) ids.push_back(thr[i].uuids[k]);
    }
    for (int i = 0; i < nthr; i++) {
        const Script &s = sc[(size_t)i];
        Out &g = o[2 * MAXT + i], &A = o[i], &B = o[MAXT + i];
        if (g.err[0]) t.fail("thread %d: %s", i, g.err);
        bool poison = mode == 4 && i == 0;
        int ok = 3; // still consistent with: 1 its own startup test, 2 an earlier one of the process
        for (int k = 0; k < g.n; k++) {
            if (s.ops[(size_t)k].k == POISON) {
                if (g.r[k].valid && g.r[k].ret == 0) t.fail("thread %d: a failing self test was reported as passed", i);
                continue;
            }
            if (poison) continue;
            int m = (same(g.r[k], A.r[k]) ? 1 : 0) | (same(g.r[k], B.r[k]) ? 2 : 0);
            if (s.ops[(size_t)k].k == ALLOC && m == 2 && first_pass > thr[i].t_first[k] && race == false)
                t.fail("thread %d op %d: an allocation took the startup test as passed before any startup test of the process was complete", i, k);
            if (!(ok & m))
                t.fail("thread %d op %d: %s(osr=%u flags=0x%x len=%zu) together with other threads: returned %d, %llu clock readings, data %llx, callbacks 0x%x; "
                       "alone: %d, %llu, %llx, 0x%x (own startup test) or %d, %llu, %llx, 0x%x (after one)",
                       i, k, kn[s.ops[(size_t)k].k], s.ops[(size_t)k].osr, s.ops[(size_t)k].flags, s.ops[(size_t)k].len, g.r[k].ret, (unsigned long long)g.r[k].used,
                       (unsigned long long)g.r[k].hash, g.r[k].cbmask, A.r[k].ret, (unsigned long long)A.r[k].used, (unsigned long long)A.r[k].hash, A.r[k].cbmask, B.r[k].ret,
                       (unsigned long long)B.r[k].used, (unsigned long long)B.r[k].hash, B.r[k].cbmask);
            ok &= m;
            t.fp(g.r[k].used * 31 + (uint64_t)(g.r[k].ret + 100));
        }
    }
    for (size_t a = 0; a < ids.size(); a++)
        for (size_t b = 0; b < a; b++)
            if (ids[a] == ids[b]) t.fail("two collectors built by different threads share the identifier %s", ids[a].c_str());
    if (mode == 4) {
        // a bound verdict is never lost
        uint64_t when = UINT64_MAX, begun = UINT64_MAX;
        for (int i = 1; i < nthr; i++)
            for (int k = 0; k < o[2 * MAXT + i].n; k++)
                if (sc[(size_t)i].ops[(size_t)k].k == POISON && o[2 * MAXT + i].r[k].valid) {
                    when = std::min(when, thr[i].t_end[k]);
                    begun = std::min(begun, thr[i].t_start[k]);
                }
        Out &g = o[2 * MAXT];
        for (int k = 0; k < g.n; k++) {
            int kk = sc[0].ops[(size_t)k].k;
            if (kk != READ || !g.r[k].valid) continue;
            if (thr[0].t_start[k] > when && g.r[k].ret != -11 && sc[0].ops[(size_t)k].len) t.fail("a read started after a failed self test was bound to its collector returned %d", g.r[k].ret);
            if (thr[0].t_end[k] < begun && g.r[k].ret == -11) t.fail("a read reported a failed self test that nobody had run");
        }
        if (thr[0].left) {
            char b[4];
            thr[0].sc = &sc[0];
            me = &thr[0];
            ssize_t r = jent_read_entropy(thr[0].left, b, 1);
            me = nullptr;
            if (when != UINT64_MAX) { t.label("verdict-bound"); if (r != -11) t.fail("a failed self test bound to the collector by another thread is lost: the next read returned %zd", r); }
            else if (r == -11) t.fail("a read reported a failed self test that nobody had run");
            jent_entropy_collector_free(thr[0].left);
        }
    }
    if (jent_set_fips_failure_callback(nullptr) != -EAGAIN) t.fail("the failure callback could be replaced after initialization");
    if (!race) {
        if (shim::live_maps()) t.fail("%zu mappings still allocated after every collector was freed", shim::live_maps());
        if (shim::S.dirty_unmap) t.fail("released memory was not wiped: %s", shim::S.dirty_msg.c_str());
    }
    t.fp((uint64_t)mode * 7 + unit);
    t.fp(gtime.load());
    for (auto &p : pres) t.fp(p.step * 64 + (uint64_t)p.thr * 8 + (uint64_t)p.to);
    for (int i = 0; i < nthr; i++) {
        t.note("t%d:", i);
        for (auto &x : sc[(size_t)i].ops) t.note("%s ", kn[x.k]);
    }
    t.note("unit=%llu preemptions=%zu quantum=%llu", (unsigned long long)unit, pres.size(), (unsigned long long)quantum);
    if (mode == 3) t.label("startup-fails-elsewhere");
    if (first_pass != UINT64_MAX && overlap) t.label("overlap");
    if (overlap) t.nontrivial();
}
} // namespace
#ifdef __has_feature
#if __has_feature(thread_sanitizer)
#define HAVE_TSAN 1
#endif
#endif
#ifdef HAVE_TSAN
extern "C" const char *__tsan_default_suppressions() { return "race:jent_notime_sample_timer\nrace:jent_notime_unsettick\n"; }
PBT_RACE(L01, race, 1, 1, 30, "operations of at least two threads overlapped") { conc(t, true); }
#else
PBT_PROP(L01, schedule, 1, 3, 30, "operations of at least two threads overlapped") { conc(t, false); }
PBT_RACE(L01, parallel, 1, 1, 30, "operations of at least two threads overlapped") { conc(t, true); }
#endif
