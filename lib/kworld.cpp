#include "kworld.hpp"
#include <cerrno>
#include <cstdarg>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

struct task_struct;
extern "C" {
int fips_enabled = 0;
unsigned long kw_jiffies = 100000;
struct workqueue_struct *kw_wq = (struct workqueue_struct *)&kw_jiffies;
struct kw_cpuinfo boot_cpu_data = {13, 0x80000008u};
struct task_struct *kw_current = (struct task_struct *)&kw_jiffies;
typedef void (*jent_mock_timer_cb_t)(void *arg, uint64_t *out);
int jent_set_mock_timer(jent_mock_timer_cb_t cb, void *arg);
}
namespace kw {
World W;
static const uintptr_t TAG = 1ull << 62;

static std::vector<Param> &params() { static std::vector<Param> p; return p; }
static int (*g_init)();
static void (*g_exit)();

void bug(const char *fmt, ...) {
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    if (pbt::cur) {
        snprintf(pbt::cur->slot->msg, sizeof(pbt::cur->slot->msg), "%s", b);
        pbt::cur->slot->state = 2;
    } else fprintf(stderr, "bug: %s\n", b);
    _exit(0);
}
Task *self() { return W.curr ? W.curr : &W.main_task; }

// ------------------------------------------------------------- tasks ----
static pthread_mutex_t baton = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t baton_cv = PTHREAD_COND_INITIALIZER;
static thread_local Task *me;

static std::vector<Task *> runnable() {
    std::vector<Task *> v;
    for (auto t : W.tasks) if (!t->done && (!t->wait || t->wait())) v.push_back(t);
    return v;
}
static void pass_to(Task *n) { // baton held by the caller's thread
    W.curr = n;
    pthread_cond_broadcast(&baton_cv);
    while (W.curr != me) pthread_cond_wait(&baton_cv, &baton);
}
static void pick_next(bool may_stay) {
    std::vector<Task *> r = runnable();
    if (r.empty()) {
        std::string s;
        for (auto t : W.tasks) if (!t->done) { s += " task " + std::to_string(t->id) + " waits for " + t->why + ";"; }
        bug("deadlock:%s", s.c_str());
    }
    if (++W.yields > 200000) bug("tasks make no progress");
    Task *n;
    bool here = false;
    for (auto t : r) if (t == me) here = true;
    if (may_stay && here && (r.size() == 1 || !W.t->chance(1, 2))) n = me;
    else n = r[W.t->u(r.size())];
    if (n != me) { W.switches++; pass_to(n); }
}
static void yield_point() {
    if (W.sched && me) pick_next(true);
}
static void wait_for(const std::function<bool()> &c, const char *why) {
    if (c()) return;
    if (!W.sched || !me) bug("waits forever for %s", why);
    me->wait = c;
    me->why = why;
    while (!c()) pick_next(false);
    me->wait = nullptr;
}
void wait_until(const std::function<bool()> &c, const char *why) { wait_for(c, why); }
static void *task_main(void *p) {
    me = (Task *)p;
    pthread_mutex_lock(&baton);
    while (W.curr != me) pthread_cond_wait(&baton_cv, &baton);
    me->fn();
    if (!me->held.empty()) bug("task ends with a lock held");
    me->done = true;
    std::vector<Task *> r = runnable();
    bool left = false;
    for (auto t : W.tasks) if (!t->done) left = true;
    if (r.empty() && left) {
        std::string s;
        for (auto t : W.tasks) if (!t->done) { s += " task " + std::to_string(t->id) + " waits for " + t->why + ";"; }
        bug("deadlock:%s", s.c_str());
    }
    W.curr = r.empty() ? nullptr : r[W.t->u(r.size())];
    pthread_cond_broadcast(&baton_cv);
    pthread_mutex_unlock(&baton);
    return nullptr;
}
void run_tasks(std::vector<std::function<void()>> fns) {
    pthread_mutex_lock(&baton);
    W.sched = true;
    W.tasks.clear();
    int id = 2;
    for (auto &f : fns) {
        Task *t = new Task();
        t->id = id++;
        t->fn = f;
        W.tasks.push_back(t);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 20);
        if (pthread_create(&t->th, &a, task_main, t)) { W.t->discard(); }
    }
    W.curr = W.tasks[W.t->u(W.tasks.size())];
    pthread_cond_broadcast(&baton_cv);
    pthread_mutex_unlock(&baton);
    for (auto t : W.tasks) pthread_join(t->th, nullptr);
    W.sched = false;
    W.curr = nullptr;
    W.tasks.clear();
}

// ------------------------------------------------------------- clock ----
static void clock_cb(void *, uint64_t *out) {
    W.clock_reads++;
    if (W.bad_left) { W.bad_left--; W.bad_used++; W.now += 1000; }
    else W.now += 200 + pbt::splitmix(W.crng) % 4001;
    *out = W.now;
    if (W.sched && W.clock_reads % 997 == 0) yield_point();
}
void reset(pbt::Ctx &t) {
    W = World();
    W.t = &t;
    W.params = params();
    W.init = g_init;
    W.exit = g_exit;
    W.main_task.id = 1;
    W.crng = t.u(1u << 30) + 3;
    W.rng = t.u(1u << 30) + 17;
    W.proc_root.name = "proc";
    W.dbg_root.name = "debug";
    fips_enabled = 0;
    kw_jiffies = 100000;
    jent_set_mock_timer(clock_cb, nullptr);
}
void arm(const Faults &f) {
    W.f = f;
    W.n_alloc = W.n_copyto = W.n_copyfrom = W.n_intr = W.n_try = W.n_sig = W.n_read = W.n_proc = W.n_dbg = 0;
    W.fired_alloc = W.fired_copyto = W.fired_copyfrom = W.fired_intr = W.fired_busy = W.fired_sig = W.fired_lib = false;
    W.alloc_in_lib = false;
    W.fired_proc.clear();
    W.reg_err.clear();
    W.reads_after_sig = 0;
    W.log.clear();
    W.bad_left = f.badclock;
    W.bad_used = 0;
    W.op++;
    begin();
}
void begin() {
    Task *s = self();
    s->sleeps = s->busy = 0;
    s->copies.clear();
    s->log0 = W.log.size();
}
std::vector<LibCall> mine() {
    std::vector<LibCall> v;
    for (size_t i = self()->log0; i < W.log.size(); i++) if (W.log[i].task == self()->id) v.push_back(W.log[i]);
    return v;
}
void run_due_work() {
    std::vector<delayed_work *> v;
    for (auto w : W.works) if (w->pending && !w->running) v.push_back(w);
    if (v.empty()) return;
    delayed_work *n = v[W.t->u(v.size())];
    if (n->expires > kw_jiffies) kw_jiffies = n->expires;
    n->pending = 0;
    n->running = 1;
    n->work.func(&n->work);
    if (!W.works.count(n)) bug("delayed work released while it runs");
    n->running = 0;
    if (!self()->held.empty()) bug("delayed work returned with a lock held");
}
bool op(const std::function<void()> &fn) {
    jmp_buf j;
    W.jmp = &j;
    bool ok = true;
    if (!setjmp(j)) fn();
    else { ok = false; self()->held.clear(); self()->inlib = 0; W.busy.clear(); }
    W.jmp = nullptr;
    W.f = Faults();
    W.bad_left = 0;
    if (ok && !self()->held.empty()) bug("an operation returned with a lock held");
    return ok;
}
bool set_param(const char *name, unsigned v) {
    for (auto &p : W.params)
        if (p.name == name) {
            if (p.type == "bool") *(bool *)p.p = v != 0;
            else *(unsigned *)p.p = v;
            return true;
        }
    return false;
}
bool has_param(const char *name) { for (auto &p : W.params) if (p.name == name) return true; return false; }
void *user(void *p) { return p ? (void *)((uintptr_t)p ^ TAG) : nullptr; }

void advance(unsigned long j, const std::function<void(delayed_work *)> &after) {
    unsigned long end = kw_jiffies + j;
    for (int guard = 0; guard < 100000; guard++) {
        delayed_work *n = nullptr;
        for (auto w : W.works) if (w->pending && w->expires <= end && (!n || w->expires < n->expires)) n = w;
        if (!n) break;
        if (n->expires > kw_jiffies) kw_jiffies = n->expires;
        n->pending = 0;
        n->running = 1;
        n->work.func(&n->work);
        if (W.panicked) return;
        if (W.works.count(n)) n->running = 0;
        if (!self()->held.empty()) bug("delayed work returned with a lock held");
        if (after) after(n);
    }
    kw_jiffies = end;
}
proc_dir_entry *proc_find(const std::string &path) {
    proc_dir_entry *e = &W.proc_root;
    size_t i = 0;
    while (i < path.size()) {
        size_t j = path.find('/', i);
        if (j == std::string::npos) j = path.size();
        std::string n = path.substr(i, j - i);
        proc_dir_entry *k = nullptr;
        for (auto c : e->kids) if (!c->removed && c->name == n) k = c;
        if (!k) return nullptr;
        e = k;
        i = j + 1;
    }
    return e;
}
std::string proc_read(proc_dir_entry *e, int *ret) {
    seq_file m;
    memset((void *)&m, 0, sizeof(m));
    m.private_ = e->data;
    e->readers++;
    *ret = e->show(&m, nullptr);
    e->readers--;
    std::string s(m.buf ? m.buf : "", m.len);
    free(m.buf);
    return s;
}
static size_t count(proc_dir_entry *e) { size_t n = 0; for (auto c : e->kids) if (!c->removed) n += 1 + count(c); return n; }
static size_t count(dentry *e) { size_t n = 0; for (auto c : e->kids) if (!c->removed) n += 1 + count(c); return n; }
size_t proc_count() { return count(&W.proc_root); }
size_t dbg_count() { return count(&W.dbg_root); }
size_t pending_works() { size_t n = 0; for (auto w : W.works) n += w->pending || w->running; return n; }

// ------------------------------------------------------- library calls ----
static unsigned held_mask() {
    unsigned m = 0;
    for (auto x : self()->held) m |= 1u << (x->serial % 31);
    return m;
}
// Status, identifier and self test leave the collector as it is (the self
// test only sets its own word), so they may overlap each other; everything
// else needs the collector for itself.
static void enter(int id, const char *what, bool rd = false) {
    auto b = W.busy.find(id);
    if (id >= 0 && b != W.busy.end() && !(rd && b->second > 0)) bug("%s: two tasks are inside the same collector", what);
    if (id >= 0) { if (rd) W.busy[id]++; else W.busy[id] = -1; W.session[id]++; }
    if (id >= 0 && W.shared.count(id)) {
        std::set<unsigned> h;
        for (auto x : self()->held) h.insert((unsigned)x->serial);
        auto &ls = W.lockset[id];
        if (ls.empty()) ls = h;
        else {
            std::set<unsigned> k;
            for (auto x : ls) if (h.count(x)) k.insert(x);
            ls = k;
        }
        if (ls.empty()) bug("%s: collector used without the lock that protects its other uses", what);
    }
    self()->inlib++;
}
static void leave(int id) {
    self()->inlib--;
    auto b = W.busy.find(id);
    if (b != W.busy.end() && --b->second <= 0) W.busy.erase(b);
}
static int id_of(const rand_data *e, const char *what) {
    if (!e) return -1;
    auto i = W.inst.find((rand_data *)e);
    if (i == W.inst.end()) bug("%s on a collector that is not allocated", what);
    return i->second;
}
static LibCall &rec(int kind, int id, long ret) {
    LibCall c;
    c.kind = kind;
    c.inst = id;
    c.ret = ret;
    c.task = self()->id;
    c.locks = held_mask();
    c.copies = self()->copies.size();
    c.when = kw_jiffies;
    W.log.push_back(c);
    return W.log.back();
}
} // namespace kw
using namespace kw;

extern "C" {
// ---- locks ----
static void chk(mutex *m, const char *w) { if (m->magic != KW_MUTEX_MAGIC) bug("%s on a lock that is not initialized", w); if (!m->serial) m->serial = ++W.mserial; }
void mutex_init(mutex *m) { m->magic = KW_MUTEX_MAGIC; m->owner = 0; m->serial = ++W.mserial; }
void mutex_destroy(mutex *m) { chk(m, "mutex_destroy"); if (m->owner) bug("lock destroyed while held"); m->magic = 0; }
static void take(mutex *m) { m->owner = self()->id; self()->held.insert(m); }
void mutex_lock(mutex *m) {
    chk(m, "mutex_lock");
    if (!self()->inlib) self()->sleeps++;
    yield_point();
    if (m->owner == self()->id) bug("lock taken twice by the same task");
    wait_for([m] { return m->owner == 0; }, "a lock");
    chk(m, "mutex_lock");
    take(m);
}
int mutex_lock_interruptible(mutex *m) {
    chk(m, "mutex_lock");
    if (!self()->inlib) self()->sleeps++;
    yield_point();
    if (W.n_intr++ == W.f.intr) { W.fired_intr = true; return -EINTR; }
    if (m->owner == self()->id) bug("lock taken twice by the same task");
    wait_for([m] { return m->owner == 0; }, "a lock");
    chk(m, "mutex_lock");
    take(m);
    return 0;
}
int mutex_lock_killable(mutex *m) { return mutex_lock_interruptible(m); }
int mutex_trylock(mutex *m) {
    chk(m, "mutex_trylock");
    yield_point();
    if (W.n_try++ == W.f.busy) { W.fired_busy = true; self()->busy++; return 0; }
    if (m->owner) { W.fired_busy = true; self()->busy++; return 0; }
    take(m);
    return 1;
}
void mutex_unlock(mutex *m) {
    chk(m, "mutex_unlock");
    if (m->owner != self()->id) bug("lock released by a task that does not hold it");
    m->owner = 0;
    self()->held.erase(m);
    yield_point();
}
int mutex_is_locked(mutex *m) { return m->owner != 0; }

// ---- memory ----
void *kw_alloc(size_t n, int zero) {
    bool lib = self()->inlib > 0;
    if (W.n_alloc++ == W.f.alloc) { W.fired_alloc = true; W.alloc_in_lib = lib; return nullptr; }
    void *p = malloc(n ? n : 1);
    memset(p, zero ? 0 : 0xa5, n);
    W.allocs[p] = {n, lib, W.op, self()->id};
    return p;
}
size_t kw_size(const void *p) { auto a = W.allocs.find((void *)p); return a == W.allocs.end() ? 0 : a->second.n; }
static void release(const void *cp, size_t wiped) {
    void *p = (void *)cp;
    if (!p) return;
    auto a = W.allocs.find(p);
    if (a == W.allocs.end()) bug("release of memory that is not allocated");
    size_t n = a->second.n;
    if (wiped > n) bug("wipe of %zu bytes in a region of %zu", wiped, n);
    memset(p, 0, wiped);
    char *b = (char *)p;
    if (a->second.lib) { for (size_t i = 0; i < n; i++) if (b[i]) bug("library memory released without being wiped (byte %zu of %zu)", i, n); }
    else
        for (auto &s : W.secrets) {
            size_t k = s.size() < 16 ? s.size() : 16;
            if (k < 8) continue;
            if (memmem(b, n, s.data(), k) || memmem(b, n, s.data() + s.size() - k, k)) bug("kernel memory (%zu bytes) released with generated data in it", n);
        }
    for (auto w : W.works)
        if ((char *)w >= b && (char *)w < b + n) {
            if (w->pending) bug("memory released while its delayed work is scheduled");
            if (w->running) bug("memory released while its delayed work runs");
        }
    for (auto i = W.works.begin(); i != W.works.end();) if ((char *)*i >= b && (char *)*i < b + n) i = W.works.erase(i); else ++i;
    for (auto t : W.tasks) for (auto m : t->held) if ((char *)m >= b && (char *)m < b + n) bug("memory released with a held lock in it");
    for (auto t : W.tasks) (void)t;
    W.allocs.erase(a);
    free(p);
}
void kw_free(const void *p) { release(p, 0); }
void kw_free_sensitive(const void *p, size_t n) { if (p) release(p, n); }

// ---- users ----
unsigned long kw_copy_to_user(void *to, const void *from, unsigned long n) {
    if (!to) return n;
    if (!((uintptr_t)to & TAG)) { if (n == 0) return 0; bug("copy to user space at a kernel address"); }
    yield_point();
    unsigned long left = 0;
    if (W.n_copyto++ == W.f.copy_to) { W.fired_copyto = true; left = W.f.copy_left % (n + 1); if (!left) left = n; }
    memcpy((void *)((uintptr_t)to ^ TAG), from, n - left);
    self()->copies.push_back({n, left});
    if (W.on_copy) W.on_copy();
    return left;
}
unsigned long kw_copy_from_user(void *to, const void *from, unsigned long n) {
    if (!from) return n;
    if (!((uintptr_t)from & TAG)) { if (n == 0) return 0; bug("copy from user space at a kernel address"); }
    yield_point();
    unsigned long left = 0;
    if (W.n_copyfrom++ == W.f.copy_from) { W.fired_copyfrom = true; left = W.f.copy_left % (n + 1); if (!left) left = n; }
    memcpy(to, (void *)((uintptr_t)from ^ TAG), n - left);
    memset((char *)to + n - left, 0, left);
    return left;
}
int kw_signal_pending(void) {
    if ((W.f.sig >= 0 && W.n_read > W.f.sig) || (W.f.sig_copy >= 0 && W.n_copyto >= W.f.sig_copy)) { W.fired_sig = true; return 1; }
    return 0;
}
int kw_need_resched(void) { return W.resched || W.sched; }
void kw_resched(void) { yield_point(); }
int capable(int cap) { return cap == 21 ? W.cap : 0; }
int security_locked_down(int what) { return W.lockdown && what == 5 ? -EPERM : 0; }
void kw_panic(const char *fmt, ...) {
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    W.panicked = true;
    W.panic_msg = b;
    if (!W.jmp || W.sched) bug("panic outside of an operation: %s", b);
    longjmp(*W.jmp, 1);
}
int kw_printk(int level, const char *fmt, ...) {
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b + 1, sizeof(b) - 1, fmt, ap);
    va_end(ap);
    b[0] = (char)('0' + level);
    if (strlen(b) > 1000) bug("log record longer than printk delivers");
    W.printk.push_back(b);
    return 0;
}
void get_random_bytes(void *buf, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = (uint8_t)pbt::splitmix(W.rng); }

// ---- work ----
void kw_init_work(delayed_work *w, work_func_t f) {
    if (W.works.count(w) && w->pending) bug("delayed work initialized while scheduled");
    memset((void *)w, 0, sizeof(*w));
    w->work.func = f;
    w->work.magic = 0x776f726b;
    W.works.insert(w);
}
static void chkw(delayed_work *w) { if (!W.works.count(w) || w->work.magic != 0x776f726b) bug("use of delayed work that is not initialized"); }
bool queue_delayed_work(workqueue_struct *wq, delayed_work *w, unsigned long delay) {
    chkw(w);
    if (wq != kw_wq) bug("delayed work on a queue that does not exist");
    if (w->pending) return false;
    w->pending = 1;
    w->expires = kw_jiffies + delay;
    return true;
}
bool mod_delayed_work(workqueue_struct *wq, delayed_work *w, unsigned long delay) { chkw(w); bool r = w->pending; w->pending = 0; queue_delayed_work(wq, w, delay); return r; }
bool cancel_delayed_work(delayed_work *w) { chkw(w); bool r = w->pending; w->pending = 0; return r; }
bool cancel_delayed_work_sync(delayed_work *w) {
    chkw(w);
    yield_point();
    bool r = w->pending;
    w->pending = 0;
    while (w->running) {
        wait_for([w] { return !w->running; }, "a running work item");
        w->pending = 0;
    }
    w->pending = 0;
    return r;
}
bool flush_delayed_work(delayed_work *w) { chkw(w); return false; }

// ---- files ----
long compat_ptr_ioctl(file *, unsigned, unsigned long) { return -ENOTTY; }
int misc_register(miscdevice *m) {
    if (W.misc) bug("character device registered twice");
    if (!m->fops || !m->name) bug("character device without operations or name");
    if (W.f.misc) { W.reg_err.push_back(W.f.misc); return W.f.misc; }
    W.misc = m;
    if (W.on_misc_register) W.on_misc_register();
    return 0;
}
void misc_deregister(miscdevice *m) { if (W.misc != m) bug("deregistration of a device that is not registered"); W.misc = nullptr; }
void kw_seq_vprintf(seq_file *m, const char *fmt, va_list ap) {
    char *s = nullptr;
    int n = vasprintf(&s, fmt, ap);
    if (n > 0) seq_write(m, s, (size_t)n);
    free(s);
}
void seq_printf(seq_file *m, const char *fmt, ...) { va_list ap; va_start(ap, fmt); kw_seq_vprintf(m, fmt, ap); va_end(ap); }
void seq_puts(seq_file *m, const char *s) { seq_write(m, s, strlen(s)); }
void seq_putc(seq_file *m, char c) { seq_write(m, &c, 1); }
void seq_write(seq_file *m, const void *p, size_t n) {
    m->buf = (char *)realloc(m->buf, m->len + n + 1);
    memcpy(m->buf + m->len, p, n);
    m->len += n;
    m->buf[m->len] = 0;
}
static bool proc_fault(const char *name) {
    bool f = W.n_proc++ == W.f.proc || W.f.proc_name == name;
    if (f) W.fired_proc.push_back(name);
    if (f && strcmp(name, "hwrng_status") && strcmp(name, "instances") && !(strlen(name) == 36 && name[8] == '-')) W.reg_err.push_back(-ENOMEM);
    return f;
}
static proc_dir_entry *add(const char *name, unsigned short mode, proc_dir_entry *p, kw_show_t show, void *data) {
    if (!p) p = &W.proc_root;
    if (p->removed) bug("entry %s created below a removed directory", name);
    if (!*name) return nullptr;
    if (proc_fault(name)) return nullptr;
    for (auto c : p->kids) if (!c->removed && c->name == name) return nullptr;
    proc_dir_entry *e = new proc_dir_entry();
    e->name = name;
    e->parent = p;
    e->mode = mode;
    e->show = show;
    e->data = data;
    p->kids.push_back(e);
    return e;
}
proc_dir_entry *proc_mkdir(const char *name, proc_dir_entry *p) { return add(name, 0555, p, nullptr, nullptr); }
proc_dir_entry *proc_mkdir_mode(const char *name, unsigned short m, proc_dir_entry *p) { return add(name, m, p, nullptr, nullptr); }
proc_dir_entry *proc_create_single_data(const char *name, unsigned short mode, proc_dir_entry *p, kw_show_t show, void *data) {
    return add(name, mode, p, show, data);
}
static void prm(proc_dir_entry *e) {
    e->removed = true;
    for (auto c : e->kids) if (!c->removed) prm(c);
    wait_for([e] { return e->readers == 0; }, "readers of a status file");
}
void proc_remove(proc_dir_entry *e) {
    if (!e) return;
    if (e->removed) bug("proc entry %s removed twice", e->name.c_str());
    yield_point();
    prm(e);
}
void remove_proc_entry(const char *name, proc_dir_entry *p) {
    if (!p) p = &W.proc_root;
    for (auto c : p->kids) if (!c->removed && c->name == name) { proc_remove(c); return; }
}
int remove_proc_subtree(const char *name, proc_dir_entry *p) { remove_proc_entry(name, p); return 0; }
static dentry *dadd(const char *name, unsigned short mode, dentry *p, const file_operations *f) {
    if (!p) p = &W.dbg_root;
    if (p->removed) bug("debugfs entry created below a removed directory");
    if (W.n_dbg++ == W.f.dbg) { W.reg_err.push_back(W.f.dbg_err); return (dentry *)(long)W.f.dbg_err; }
    dentry *e = new dentry();
    e->name = name;
    e->parent = p;
    e->mode = mode;
    e->fops = f;
    p->kids.push_back(e);
    return e;
}
dentry *debugfs_create_dir(const char *name, dentry *p) { return dadd(name, 0755, p, nullptr); }
dentry *debugfs_create_file(const char *name, unsigned short m, dentry *p, void *, const file_operations *f) { return dadd(name, m, p, f); }
static void drm(dentry *e) { e->removed = true; for (auto c : e->kids) if (!c->removed) drm(c); }
void debugfs_remove(dentry *d) {
    if (!d || (unsigned long)d >= (unsigned long)-4095) return;
    if (d->removed) bug("debugfs entry removed twice");
    drm(d);
}
int hwrng_register(hwrng *r) {
    if (W.hw) bug("hwrng registered twice");
    if (W.f.hwrng) { W.reg_err.push_back(W.f.hwrng); return W.f.hwrng; }
    W.hw_quality = r->quality;
    if (!r->quality || r->quality > 1024) r->quality = 1024;
    W.hw = r;
    if (W.on_hw_register) W.on_hw_register();
    return 0;
}
void hwrng_unregister(hwrng *r) {
    if (W.hw != r) bug("unregistration of a hwrng that is not registered");
    if (W.on_hw_unregister) W.on_hw_unregister();
    yield_point();
    W.hw = nullptr;
    wait_for([] { return W.hw_readers == 0; }, "readers of the hwrng");
}
int crypto_register_rng(rng_alg *a) {
    if (W.alg) bug("algorithm registered twice");
    if (W.f.kcapi) { W.reg_err.push_back(W.f.kcapi); return W.f.kcapi; }
    W.alg = a;
    return 0;
}
void crypto_unregister_rng(rng_alg *a) { if (W.alg != a) bug("unregistration of an algorithm that is not registered"); W.alg = nullptr; }
void kw_param(const char *name, const char *type, void *p, int perm) { params().push_back({name, type, p, perm}); }
void kw_module(int (*i)(void), void (*e)(void)) { if (i) g_init = i; if (e) g_exit = e; }
int kw_smp_call(int, void (*f)(void *), void *arg) { f(arg); return 0; }
int kw_ncpu(void) { return 4; }
int kw_next_online(int c) { return c + 1 < 4 ? c + 1 : -1; }
int kw_this_cpu(void) { return 0; }
unsigned long long kw_read_sysreg(const char *) { return 0; }
void kw_write_sysreg(const char *, unsigned long long) {}
void kw_isb(void) {}
void kw_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    *a = *b = *c = *d = 0;
    if (leaf == 4 && sub == 0) { *a = 1 | (1 << 5); *b = (7u << 22) | 63; *c = 15; } // 8 KB of L1
}

// ---- the library as the interface calls it ----
ssize_t __real_jent_read_entropy_safe(rand_data **ec, char *data, size_t len);
ssize_t __real_jent_read_entropy(rand_data *ec, char *data, size_t len);
rand_data *__real_jent_entropy_collector_alloc(unsigned osr, unsigned flags);
rand_data *__real_jent_entropy_collector_alloc_raw(unsigned osr, unsigned flags);
void __real_jent_entropy_collector_free(rand_data *ec);
int __real_jent_entropy_init_ex(unsigned osr, unsigned flags);
int __real_jent_selftest(rand_data *ec);
int __real_jent_status(const rand_data *ec, char *buf, size_t n);
int __real_jent_sha3_tester(void);

static void secret2(uint64_t a, uint64_t b) {
    std::string s((char *)&a, 8);
    s.append((char *)&b, 8);
    W.secrets.push_back(s);
    if (W.secrets.size() > 48) W.secrets.erase(W.secrets.begin());
}
static ssize_t do_read(rand_data **ec, char *data, size_t len, bool safe) {
    int id = id_of(*ec, "read");
    if (id < 0) bug("read without a collector");
    if ((uintptr_t)data & TAG) bug("library asked to write to a user address");
    enter(id, "read");
    yield_point();
    if (W.stall == id && W.sched) { W.stall = -1; Task *s = self(); wait_for([s] { for (auto t : W.tasks) if (t != s && !t->done) return false; return true; }, "the other tasks"); }
    if (W.fired_sig) W.reads_after_sig++;
    int n = W.n_read++;
    ssize_t r;
    // the library recovers from a health failure by replacing the collector
    bool trouble = W.sched && safe && W.trouble_pct && pbt::splitmix(W.rng) % 100 < W.trouble_pct;
    if (n == W.f.lib) { W.fired_lib = true; r = W.f.lib_err; }
    else if (W.fake && !trouble && !W.failed.count(id)) { // (the gate behind a failed self test is the library's own)
        r = (ssize_t)len;
        for (size_t i = 0; i < len; i++) data[i] = (char)pbt::splitmix(W.rng);
    } else {
        rand_data *old = *ec;
        if (trouble) W.bad_left = 80 + (unsigned)(pbt::splitmix(W.rng) % 700);
        r = safe ? __real_jent_read_entropy_safe(ec, data, len) : __real_jent_read_entropy(*ec, data, len);
        if (*ec != old) {
            W.inst.erase(old);
            W.inst[*ec] = id;
            W.cur[(size_t)id] = *ec;
            W.reallocs++;
        }
        if (trouble) W.bad_left = 0;
    }
    LibCall &c = rec(LK_READ, id, r);
    if (r > 0) {
        c.bytes.assign(data, (size_t)r);
        W.secrets.push_back(c.bytes);
        if (W.secrets.size() > 48) W.secrets.erase(W.secrets.begin());
    }
    yield_point();
    leave(id);
    return r;
}
ssize_t __wrap_jent_read_entropy_safe(rand_data **ec, char *data, size_t len) { return do_read(ec, data, len, true); }
ssize_t __wrap_jent_read_entropy(rand_data *ec, char *data, size_t len) { return do_read(&ec, data, len, false); }
static rand_data *added(rand_data *e, int kind, unsigned osr, unsigned flags) {
    int id = -1;
    if (e) {
        id = (int)W.cur.size();
        W.cur.push_back(e);
        W.inst[e] = id;
    }
    LibCall &c = rec(kind, id, e ? 1 : 0);
    c.loop = osr;
    c.delta = flags;
    return e;
}
rand_data *__wrap_jent_entropy_collector_alloc(unsigned osr, unsigned flags) {
    self()->inlib++;
    rand_data *e = __real_jent_entropy_collector_alloc(osr, flags);
    self()->inlib--;
    yield_point();
    return added(e, LK_ALLOC, osr, flags);
}
rand_data *__wrap_jent_entropy_collector_alloc_raw(unsigned osr, unsigned flags) {
    self()->inlib++;
    rand_data *e = __real_jent_entropy_collector_alloc_raw(osr, flags);
    self()->inlib--;
    return added(e, LK_RAW, osr, flags);
}
void __wrap_jent_entropy_collector_free(rand_data *ec) {
    if (!ec) return;
    int id = id_of(ec, "free");
    auto b = W.busy.find(id);
    if (b != W.busy.end()) bug("collector freed while a task is inside it");
    self()->inlib++;
    __real_jent_entropy_collector_free(ec);
    self()->inlib--;
    W.inst.erase(ec);
    W.cur[(size_t)id] = nullptr;
    W.shared.erase(id);
    W.lockset.erase(id);
    rec(LK_FREE, id, 0);
    yield_point();
}
int __wrap_jent_entropy_init_ex(unsigned osr, unsigned flags) {
    self()->inlib++;
    int r = W.f.init ? W.f.init : __real_jent_entropy_init_ex(osr, flags);
    self()->inlib--;
    LibCall &c = rec(LK_INIT, -1, r);
    c.loop = osr;
    c.delta = flags;
    return r;
}
int __wrap_jent_selftest(rand_data *ec) {
    int id = id_of(ec, "self test");
    if (ec) enter(id, "self test", true); else self()->inlib++;
    yield_point();
    int r = __real_jent_selftest(ec);
    if (ec) leave(id); else self()->inlib--;
    if (r && id >= 0) W.failed.insert(id);
    rec(LK_SELFTEST, id, r);
    return r;
}
int __wrap_jent_status(const rand_data *ec, char *buf, size_t n) {
    int id = id_of(ec, "status");
    if (ec) enter(id, "status", true);
    yield_point();
    int r = __real_jent_status(ec, buf, n);
    if (ec) leave(id);
    rec(LK_STATUS, id, r);
    return r;
}
int __real_jent_uuid(const rand_data *ec, char *buf, size_t n);
int __wrap_jent_uuid(const rand_data *ec, char *buf, size_t n) {
    if (self()->inlib) return __real_jent_uuid(ec, buf, n);
    int id = id_of(ec, "uuid");
    if (ec) enter(id, "uuid", true);
    yield_point();
    int r = __real_jent_uuid(ec, buf, n);
    if (ec) leave(id);
    return r;
}
int __wrap_jent_sha3_tester(void) { return W.kat_fail ? 1 : __real_jent_sha3_tester(); }

#define MEASURE(N, K)                                                                          \
    unsigned __real_##N(rand_data *ec, uint64_t loop, uint64_t *d);                            \
    unsigned __wrap_##N(rand_data *ec, uint64_t loop, uint64_t *d) {                           \
        if (self()->inlib) return __real_##N(ec, loop, d);                                     \
        int id = id_of(ec, "measurement");                                                     \
        uint64_t x = 0;                                                                        \
        enter(id, "measurement");                                                              \
        unsigned r = __real_##N(ec, loop, &x);                                                 \
        leave(id);                                                                             \
        if (d) *d = x;                                                                         \
        LibCall &c = rec(LK_MEASURE, id, (long)r);                                             \
        c.delta = x;                                                                           \
        c.loop = loop;                                                                         \
        c.which = K;                                                                           \
        c.recorded = d != nullptr;                                                             \
        if (x > 100 && W.last_delta > 100) secret2(W.last_delta, x);                                       \
        W.last_delta = x;                                                                      \
        return r;                                                                              \
    }
MEASURE(jent_measure_jitter, 0)
MEASURE(jent_measure_jitter_ntg1_sha3, 1)
MEASURE(jent_measure_jitter_ntg1_memaccess, 2)
}
