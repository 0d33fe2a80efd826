#include "shim.hpp"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <mutex>

#define NOSAN __attribute__((no_sanitize("address", "undefined", "thread")))

namespace shim {
State S;
thread_local bool kat_fail_here = false;
static std::recursive_mutex mu;
#define LOCK std::lock_guard<std::recursive_mutex> lk(mu)
static std::map<int, std::string> vfds; // open virtual descriptors
static std::map<int, std::vector<Step>> vscripts;

void reset() {
    LOCK;
    S = State();
    vfds.clear();
    vscripts.clear();
}
size_t live_maps() {
    LOCK;
    size_t n = 0;
    for (auto &m : S.maps) n += m.live;
    return n;
}
size_t live_bytes() {
    LOCK;
    size_t n = 0;
    for (auto &m : S.maps) if (m.live) n += m.len;
    return n;
}
bool readable(const void *p, size_t n) {
    static char buf[4096];
    if (n > sizeof(buf)) n = sizeof(buf);
    struct iovec l = {buf, n}, r = {(void *)p, n};
    return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}
} // namespace shim
using namespace shim;

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_mprotect(void *, size_t, int);
int __real_madvise(void *, size_t, int);
int __real_mlock(const void *, size_t);
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);
long __real_sysconf(int);
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t *);
int __real_sched_yield(void);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
cpu_set_t *__real___sched_cpualloc(size_t);
void __real___sched_cpufree(cpu_set_t *);
ssize_t __real_getrandom(void *, size_t, unsigned);
__attribute__((weak)) int __real_jent_sha3_tester(void);
__attribute__((weak)) int __real_jent_gcd_selftest(unsigned int);
FILE *__real_fopen(const char *, const char *);
}
namespace shim {
void *sys_mmap(void *a, size_t b, int c, int d, int e, off_t f) { return __real_mmap(a, b, c, d, e, f); }
int sys_munmap(void *a, size_t b) { return __real_munmap(a, b); }
int sys_mprotect(void *a, size_t b, int c) { return __real_mprotect(a, b, c); }
}

static const size_t PG = 4096;

extern "C" {

void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
    if (S.passthru) return __real_mmap(a, len, prot, flags, fd, off);
    if (S.on_call) S.on_call();
    LOCK;
    int seq = S.n_mmap++;
    if (seq == S.fail_mmap_at || (S.fail_mmap_from >= 0 && seq >= S.fail_mmap_from)) {
        S.fired++;
        errno = S.fail_mmap_err;
        return MAP_FAILED;
    }
    void *p = __real_mmap(a, len, prot, flags, fd, off);
    if (p != MAP_FAILED && S.track) {
        Map m;
        m.base = (uint8_t *)p; m.len = len; m.live = true; m.seq = seq;
        size_t n = (len + PG - 1) / PG;
        m.prot.assign(n, (uint8_t)prot);
        m.dontdump.assign(n, 0);
        m.locked.assign(n, 0);
        S.maps.push_back(m);
    }
    return p;
}

static Map *find_map(const void *p) {
    for (auto it = S.maps.rbegin(); it != S.maps.rend(); ++it)
        if (it->live && (uint8_t *)p >= it->base && (uint8_t *)p < it->base + it->len) return &*it;
    return nullptr;
}
extern "C++" {
template <class F> static void pages(Map *m, const void *p, size_t len, F f) {
    size_t a = ((uint8_t *)p - m->base) / PG, b = ((uint8_t *)p - m->base + len + PG - 1) / PG;
    for (size_t i = a; i < b && i < m->prot.size(); i++) f(i);
}
}

NOSAN static size_t first_nonzero(const uint8_t *p, size_t n) {
    const uint64_t *q = (const uint64_t *)p;
    for (size_t i = 0; i < n / 8; i++)
        if (q[i]) {
            for (size_t k = 0; k < 8; k++) if (p[i * 8 + k]) return i * 8 + k;
        }
    return n;
}

int __wrap_munmap(void *p, size_t len) {
    if (S.passthru) return __real_munmap(p, len);
    if (S.on_call) S.on_call();
    LOCK;
    S.n_munmap++;
    if (S.track) {
        Map *m = find_map(p);
        if (!m) S.bad_unmap = true;
        else {
            if ((uint8_t *)p != m->base || ((len + PG - 1) / PG) != m->prot.size()) S.bad_unmap = true;
            pages(m, p, len, [&](size_t i) {
                if (!(m->prot[i] & PROT_READ)) return;
                size_t o = first_nonzero(m->base + i * PG, PG);
                if (o < PG && !S.dirty_unmap) {
                    S.dirty_unmap = true;
                    char b[160];
                    snprintf(b, sizeof(b), "mapping #%d of %zu bytes released with non-zero byte at offset %zu",
                             m->seq, m->len, i * PG + o);
                    S.dirty_msg = b;
                }
                if (S.on_unmap) S.on_unmap(m->base + i * PG, PG);
            });
            m->live = false;
        }
    }
    return __real_munmap(p, len);
}

int __wrap_mprotect(void *p, size_t len, int prot) {
    if (S.passthru) return __real_mprotect(p, len, prot);
    LOCK;
    int seq = S.n_mprotect++;
    if (seq == S.fail_mprotect_at) { S.fired++; errno = ENOMEM; return -1; }
    int r = __real_mprotect(p, len, prot);
    if (!r && S.track) {
        Map *m = find_map(p);
        if (m) pages(m, p, len, [&](size_t i) { m->prot[i] = (uint8_t)prot; });
    }
    return r;
}

int __wrap_madvise(void *p, size_t len, int adv) {
    if (S.passthru) return __real_madvise(p, len, adv);
    LOCK;
    int seq = S.n_madvise++;
    if (seq == S.fail_madvise_at || S.fail_madvise_at == -2) { S.fired++; errno = EINVAL; return -1; }
    int r = __real_madvise(p, len, adv);
    if (!r && S.track) {
        Map *m = find_map(p);
        if (m && adv == MADV_DONTDUMP) pages(m, p, len, [&](size_t i) { m->dontdump[i] = 1; });
        if (m && adv == MADV_DODUMP) pages(m, p, len, [&](size_t i) { m->dontdump[i] = 0; });
    }
    return r;
}

static int do_mlock(const void *p, size_t len) {
    if (S.passthru) return 0;
    LOCK;
    int seq = S.n_mlock++;
    if (S.mlock_mode == 2 || (S.mlock_mode == 1 && seq == S.fail_mlock_at) ||
        (S.mlock_mode == 3 && seq >= S.fail_mlock_at)) {
        S.fired++;
        errno = S.fail_mlock_err;
        return -1;
    }
    if (S.track) {
        Map *m = find_map(p);
        if (m) pages(m, p, len, [&](size_t i) { m->locked[i] = 1; });
    }
    return 0; // locking is pretended: the sandbox' limits must not matter
}
int __wrap_mlock(const void *p, size_t len) { return do_mlock(p, len); }
int __wrap_mlock2(const void *p, size_t len, unsigned) { return do_mlock(p, len); }
int __wrap_munlock(const void *p, size_t len) {
    if (S.passthru) return 0;
    LOCK;
    if (S.track) {
        Map *m = find_map(p);
        if (m) pages(m, p, len, [&](size_t i) { m->locked[i] = 0; });
    }
    return 0;
}

// ---------------------------------------------------------------- files ----
static bool is_virtual(const char *path) {
    if (S.files.count(path)) return true;
    if (S.vsysfs && !strncmp(path, "/sys/", 5)) return true;
    if (S.vfips && !strcmp(path, "/proc/sys/crypto/fips_enabled")) return true;
    return false;
}
static int vopen(const char *path) {
    S.n_open++;
    auto it = S.files.find(path);
    if (it == S.files.end() || !it->second.exists) { errno = ENOENT; return -1; }
    VFile &f = it->second;
    f.opened++;
    if (f.open_eintr > 0) { f.open_eintr--; S.fired++; errno = EINTR; return -1; }
    if (f.open_err) { S.fired++; errno = f.open_err; return -1; }
    int fd = memfd_create("v", 0);
    if (fd < 0) return -1;
    if (!f.data.empty() && write(fd, f.data.data(), f.data.size()) < 0) {}
    lseek(fd, 0, SEEK_SET);
    vfds[fd] = path;
    if (f.per_open) vscripts[fd] = f.reads; else vscripts.erase(fd);
    S.fds_open++;
    return fd;
}
int __wrap_open(const char *path, int flags, ...) {
    if (S.passthru) { if (!strncmp(path, "/sys/", 5) || !strncmp(path, "/proc/", 6)) { errno = ENOENT; return -1; } return __real_open(path, flags, 0600); }
    mode_t mode = 0;
    va_list ap;
    va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t);
    va_end(ap);
    LOCK;
    if (is_virtual(path)) return vopen(path);
    int fd = __real_open(path, flags, mode);
    if (fd >= 0) { vfds[fd] = ""; S.fds_open++; }
    return fd;
}
int __wrap_open64(const char *path, int flags, ...) {
    if (S.passthru) { if (!strncmp(path, "/sys/", 5) || !strncmp(path, "/proc/", 6)) { errno = ENOENT; return -1; } return __real_open(path, flags, 0600); }
    LOCK;
    if (is_virtual(path)) return vopen(path);
    int fd = __real_open(path, flags, 0600);
    if (fd >= 0) { vfds[fd] = ""; S.fds_open++; }
    return fd;
}
int __wrap_openat(int d, const char *path, int flags, ...) {
    if (S.passthru) { if (!strncmp(path, "/sys/", 5) || !strncmp(path, "/proc/", 6)) { errno = ENOENT; return -1; } return __real_open(path, flags, 0600); }
    LOCK;
    if (is_virtual(path)) return vopen(path);
    (void)d;
    int fd = __real_open(path, flags, 0600);
    if (fd >= 0) { vfds[fd] = ""; S.fds_open++; }
    return fd;
}
FILE *__wrap_fopen(const char *path, const char *mode) {
    if (S.passthru) { if (!strncmp(path, "/sys/", 5) || !strncmp(path, "/proc/", 6)) { errno = ENOENT; return nullptr; } return __real_fopen(path, mode); }
    LOCK;
    if (is_virtual(path)) {
        int fd = vopen(path);
        if (fd < 0) return nullptr;
        vfds.erase(fd);
        S.fds_open--;
        return fdopen(fd, mode);
    }
    return __real_fopen(path, mode);
}
static ssize_t script(std::vector<Step> &v, Step &out) {
    if (v.empty()) return 0;
    out = v.front();
    v.erase(v.begin());
    return 1;
}
ssize_t __wrap_read(int fd, void *buf, size_t n) {
    if (S.passthru) return __real_read(fd, buf, n);
    std::string path;
    {
        LOCK;
        auto it = vfds.find(fd);
        if (it != vfds.end() && !it->second.empty()) {
            path = it->second;
            VFile &f = S.files[path];
            Step s;
            if (script(vscripts.count(fd) ? vscripts[fd] : f.reads, s)) {
                if (s.kind == 1) { S.fired++; errno = s.err; return -1; }
                if (s.kind == 3) return 0;
                if (s.kind == 2 && s.n < n) n = s.n;
            }
        }
    }
    return __real_read(fd, buf, n);
}
int __wrap_close(int fd) {
    if (S.passthru) return __real_close(fd);
    LOCK;
    auto it = vfds.find(fd);
    if (it != vfds.end()) { vfds.erase(it); S.fds_open--; }
    int r = __real_close(fd);
    if (S.close_err) { errno = S.close_err; return -1; }
    return r;
}

// -------------------------------------------------------------- sysconf ----
long __wrap_sysconf(int name) {
    if (S.passthru) return name == _SC_LEVEL1_DCACHE_SIZE ? 2048 : name == _SC_LEVEL2_CACHE_SIZE || name == _SC_LEVEL3_CACHE_SIZE ? 0 : __real_sysconf(name);
    LOCK;
    auto it = S.sysconf_over.find(name);
    if (it != S.sysconf_over.end()) { if (it->second == -1) errno = EINVAL; return it->second; }
    return __real_sysconf(name);
}
int __wrap_sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
    if (S.passthru) return __real_sched_getaffinity(pid, sz, set);
    LOCK;
    S.n_getaff++;
    if (S.getaff_err) { S.fired++; errno = S.getaff_err; return -1; }
    if (!S.vcpus) return __real_sched_getaffinity(pid, sz, set);
    if (sz * 8 < (size_t)S.cpu_kernel_bits || (sz & 7)) { errno = EINVAL; return -1; }
    memset(set, 0, sz);
    for (int c : S.cpus) if (c >= 0 && (size_t)c < sz * 8) ((unsigned char *)set)[c / 8] |= (unsigned char)(1u << (c % 8));
    return 0;
}
int __wrap_sched_setaffinity(pid_t pid, size_t sz, const cpu_set_t *set) {
    if (S.passthru) return 0;
    LOCK;
    std::vector<int> v;
    for (size_t c = 0; c < sz * 8 && c < 200000; c++)
        if (((const unsigned char *)set)[c / 8] & (1u << (c % 8))) v.push_back((int)c);
    S.pinned.push_back(v);
    if (S.setaff_err) { errno = S.setaff_err; return -1; }
    if (S.vsetaff) return 0;
    return __real_sched_setaffinity(pid, sz, set);
}
int __wrap_pthread_setaffinity_np(pthread_t th, size_t sz, const cpu_set_t *set) {
    if (!pthread_equal(th, pthread_self())) { if (!S.passthru) { LOCK; S.pinned.push_back({}); } return ESRCH; } // not the caller: nothing bound
    return __wrap_sched_setaffinity(0, sz, set) ? errno : 0;
}
int __wrap_pthread_getaffinity_np(pthread_t, size_t sz, cpu_set_t *set) { return __wrap_sched_getaffinity(0, sz, set) ? errno : 0; }
cpu_set_t *__wrap___sched_cpualloc(size_t n) {
    if (S.passthru) return __real___sched_cpualloc(n);
    LOCK;
    int seq = S.n_cpualloc++;
    if (seq == S.fail_cpualloc_at) { S.fired++; return nullptr; }
    return __real___sched_cpualloc(n);
}
void __wrap___sched_cpufree(cpu_set_t *p) {
    if (S.passthru) { __real___sched_cpufree(p); return; }
    LOCK;
    S.n_cpufree++;
    __real___sched_cpufree(p);
}
int __wrap_sched_yield(void) {
    if (S.on_yield) { S.on_yield(); return 0; }
    return __real_sched_yield();
}

// --------------------------------------------------------------- random ----
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned flags) {
    if (S.passthru) return __real_getrandom(buf, n, flags);
    LOCK;
    S.n_getrandom++;
    if (!S.vrandom) return __real_getrandom(buf, n, flags);
    Step s;
    if (script(S.grnd, s)) {
        if (s.kind == 1) { S.fired++; errno = s.err; return -1; }
        if (s.kind == 3) return 0;
        if (s.kind == 2 && s.n < n) n = s.n;
    }
    for (size_t i = 0; i < n; i++) {
        uint8_t b;
        if (S.rnd_pos < S.rnd_bytes.size()) b = S.rnd_bytes[S.rnd_pos];
        else b = (uint8_t)((S.rnd_pos * 2654435761u) >> 13);
        S.rnd_pos++;
        ((uint8_t *)buf)[i] = b;
    }
    S.grnd_given += n;
    return (ssize_t)n;
}
int __wrap_getentropy(void *buf, size_t n) { return __wrap_getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }

// -------------------------------------------------------------- threads ----
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (S.passthru) return __real_pthread_create(t, a, f, arg);
    int seq;
    {
        LOCK;
        seq = S.n_pthread_create++;
        if (seq == S.fail_pthread_create_at || S.fail_pthread_create_at == -2) { S.fired++; return S.fail_pthread_err; }
        if (S.vthreads) {
            unsigned long id = 0x1000 + S.vts.size();
            S.vts.push_back({id, f, arg, false});
            *t = (pthread_t)id;
            return 0;
        }
    }
    return __real_pthread_create(t, a, f, arg);
}
int __wrap_pthread_join(pthread_t t, void **r) {
    if (S.passthru) return __real_pthread_join(t, r);
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    {
        LOCK;
        S.n_pthread_join++;
        if (S.vthreads) {
            for (auto &v : S.vts)
                if (v.id == (unsigned long)t && !v.joined) { v.joined = true; fn = v.fn; arg = v.arg; }
            if (!fn) { S.bad_join = true; return ESRCH; }
        }
    }
    if (fn) { // told to stop before it got the CPU: ends at once
        void *res = fn(arg);
        if (r) *r = res;
        return 0;
    }
    return __real_pthread_join(t, r);
}

// ----------------------------------------------------------- self tests ----
int __wrap_jent_sha3_tester(void) {
    if (kat_fail_here) return 1;
    if (!S.passthru) { S.n_kat++; if (S.kat_fail) return 1; }
    return &__real_jent_sha3_tester ? __real_jent_sha3_tester() : 0;
}
int __wrap_jent_gcd_selftest(unsigned int flags) {
    if (!S.passthru) { S.n_gcd++; if (S.gcd_fail) return 13; }
    return &__real_jent_gcd_selftest ? __real_jent_gcd_selftest(flags) : 0;
}

// ------------------------------------------------- process-wide latches ----
// (schedule points only; where the library has no such functions these are unused)
#define ATOMIC(R, NAME, ARGS, CALL) \
    __attribute__((weak)) R __real_##NAME ARGS; \
    R __wrap_##NAME ARGS { struct G { G() { if (S.on_atomic) S.on_atomic(); } ~G() { if (S.on_atomic) S.on_atomic(); } } g; return __real_##NAME CALL; }
ATOMIC(int, jent_atomic_load_int, (int *p), (p))
ATOMIC(void, jent_atomic_store_int, (int *p, int v), (p, v))
ATOMIC(uint32_t, jent_atomic_load_u32, (uint32_t *p), (p))
ATOMIC(void, jent_atomic_store_u32, (uint32_t *p, uint32_t v), (p, v))
ATOMIC(int, jent_atomic_exchange_int, (int *p, int v), (p, v))
ATOMIC(void, jent_atomic_set_once_u32, (uint32_t *p, uint32_t v), (p, v))
} // extern "C"
