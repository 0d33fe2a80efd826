// OS boundary of the library under test: every system interface the library
// uses is linked through these wrappers (-Wl,--wrap=...), which track memory,
// serve virtual files and inject faults. Harness code calls sys_*().
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <sys/types.h>

namespace shim {

struct Map {
    uint8_t *base;
    size_t len;
    bool live;
    int seq;
    // per-page protection as last set (PROT_*)
    std::vector<uint8_t> prot;
    std::vector<uint8_t> dontdump;   // page excluded from dumps
    std::vector<uint8_t> locked;     // page successfully locked
};

// one step of a scripted read()/getrandom() sequence
struct Step { int kind; size_t n; int err; }; // kind 0: pass, 1: error err, 2: at most n bytes, 3: EOF / zero bytes

struct VFile {
    bool exists = true;
    int open_err = 0;                // errno on open (0: ok)
    int open_eintr = 0;              // EINTR this many times first
    std::string data;
    std::vector<Step> reads;         // script for successive read()s, then pass
    bool per_open = false;           // the script starts over with every open
    int opened = 0;
};

struct State {
    bool track = false;
    // ---- memory ----
    std::vector<Map> maps;
    int n_mmap = 0, n_munmap = 0, n_mprotect = 0, n_mlock = 0, n_madvise = 0;
    int fail_mmap_at = -1, fail_mmap_err = 12;       // index of the failing call, -1 none
    int fail_mmap_from = -1;                          // this and every later call
    int fail_mprotect_at = -1;
    int fail_madvise_at = -1;                         // -2: all
    int mlock_mode = 0;              // 0 pretend success, 1 fail nth, 2 fail all, 3 fail from nth
    int fail_mlock_at = -1, fail_mlock_err = 12;
    bool dirty_unmap = false;        // non-zero bytes in released memory
    std::string dirty_msg;
    bool bad_unmap = false;          // unmap of something not (fully) mapped by us
    void (*on_unmap)(const uint8_t *p, size_t len) = nullptr; // called before release, readable part
    // ---- files ----
    bool vsysfs = false;             // /sys/devices/system/cpu is virtual
    bool vfips = true;               // /proc/sys/crypto/fips_enabled is virtual
    std::map<std::string, VFile> files;
    int fds_open = 0;
    int n_open = 0;
    int close_err = 0;
    std::vector<std::string> unknown_paths;
    // ---- sysconf / cpus ----
    std::map<int, long> sysconf_over;
    bool vcpus = false;
    std::vector<int> cpus;           // CPUs in the affinity mask
    int cpu_kernel_bits = 64;        // size of the kernel's mask
    int getaff_err = 0;
    int fail_cpualloc_at = -1;
    int n_cpualloc = 0, n_cpufree = 0;
    bool vsetaff = true;
    int setaff_err = 0;
    std::vector<std::vector<int>> pinned;
    int n_getaff = 0;
    // ---- random ----
    bool vrandom = false;            // getrandom() scripted
    std::vector<Step> grnd;          // script, then pass
    std::vector<uint8_t> rnd_bytes;  // bytes handed out in order (both sources), then xorshift
    size_t rnd_pos = 0;
    int n_getrandom = 0;
    size_t grnd_given = 0;
    // ---- threads ----
    int n_pthread_create = 0, n_pthread_join = 0;
    int fail_pthread_create_at = -1; // -2: all
    int fail_pthread_err = 11;
    // virtual threads: a created thread runs nothing until it is joined; then its
    // routine runs on the caller (it has been told to stop by then)
    bool vthreads = false, bad_join = false;
    struct VT { unsigned long id; void *(*fn)(void *); void *arg; bool joined; };
    std::vector<VT> vts;
    void (*on_yield)() = nullptr;    // called for every yield
    int fired = 0;                   // injected failures delivered so far
    // ---- self tests ----
    bool kat_fail = false;           // jent_sha3_tester reports a failure
    bool gcd_fail = false;           // jent_gcd_selftest reports EGCD
    int n_kat = 0, n_gcd = 0;
    int n_yield = 0;
    // ---- free-running threads: nothing is tracked, no locks are taken ----
    bool passthru = false;
    void (*on_call)() = nullptr;     // called on entry of the memory calls
    void (*on_atomic)() = nullptr;   // called around the accesses to process-wide state
};
extern State S;
extern thread_local bool kat_fail_here; // the known-answer test fails on this thread

void reset();
size_t live_maps();
size_t live_bytes();

void *sys_mmap(void *, size_t, int, int, int, off_t);
int sys_munmap(void *, size_t);
int sys_mprotect(void *, size_t, int);
// is [p, p+n) readable?
bool readable(const void *p, size_t n);

} // namespace shim
