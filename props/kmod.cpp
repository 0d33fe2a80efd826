// The kernel interface of the library (linux_kernel/) in a simulated kernel:
// histories of module load, device, hardware-RNG, crypto API, procfs, debugfs
// and timer operations with injected failures, each operation judged against a
// model that is fed by the log of what the library was asked to do.
#include "json.hpp"
#include "kworld.hpp"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/ioctl.h>

using kw::W;
using kw::bug;
using kw::LibCall;
using kw::Faults;
#define ERESTARTSYS 512

namespace {
struct StatusArg { uint64_t buf; uint32_t length, pad; };
struct Uuid { uint8_t b[37]; };
struct Output { uint64_t inv, bytes; };
enum : unsigned {
    IOCSTATUS = _IOWR('J', 1, StatusArg), IOCLOOPCNT = _IOW('J', 2, uint64_t), IOCUUID = _IOR('J', 3, Uuid),
    IOCVERSION = _IOR('J', 4, uint32_t), IOCOSR = _IOR('J', 5, uint32_t), IOCFLAGS = _IOR('J', 6, uint32_t),
    IOCHEALTH = _IOR('J', 7, uint32_t), IOCOUTPUT = _IOR('J', 8, Output), IOCREINIT = _IOR('J', 9, uint32_t),
    IOCSELFTEST = _IO('J', 10)
};
const unsigned F_NOMEM = 1 << 2, F_INTTIMER = 1 << 3, F_NOINT = 1 << 4, F_FIPS = 1 << 5, F_NTG1 = 1 << 6, F_CACHE = 1 << 7;
const unsigned HZ_ = 250;

bool permanent(long r) { return r == -6 || r == -7 || r == -8 || r == -10 || r == -11; }
int map_err(long r) {
    if (permanent(r)) return -EFAULT;
    if (r == -2 || r == -3 || r == -5 || r == -9) return -EAGAIN;
    if (r == -1 || r == -4) return -EINVAL;
    return -EFAULT;
}

enum Kind { CHARDEV, HWRNG, KCAPI, RAW };
struct Inst {
    int id;
    Kind kind;
    bool sticky = false;
    unsigned long due = 0;
    std::string uuid;
};
struct File {
    file f{};
    inode i{};
    int id = -1;
    bool raw = false;
    int users = 0;
    bool closing = false;
    // raw only
    int which = 0;
    uint64_t loop = 0;
    bool procfile = false;
};
struct Tfm {
    crypto_rng r{};
    int id = -1;
    int users = 0;
};

enum OpKind { O_OPEN, O_CLOSE, O_READ, O_HWREAD, O_TFM, O_GEN, O_TFMFREE, O_STATUS, O_FIELD, O_SELFTEST, O_BADIOCTL, O_PROC, O_TIME, O_KAT,
              O_ROPEN, O_RREAD, O_RIOCTL, O_RCLOSE, O_TPARAM, O_LOCKDOWN, O_CAP, O_N };
struct Prof {
    int w[O_N];
    int fault_pct = 30, fips_pct = 20, real_pct = 25, load_fault_pct = 5, interval_pct = 50, hook_pct = 30, inject_pct = 0, ff_pct = 17;
    int min_ops = 4, max_ops = 24;
};

struct K {
    pbt::Ctx &t;
    Prof p;
    unsigned osr = 0, flags = 0, eff = 0, verbose = 0, interval = 0, quality = 0, tosr = 0, tflags = 0;
    bool ntg1 = false, ff = false, ca = false;
    std::map<int, Inst> inst;
    std::vector<File *> files;
    std::vector<Tfm *> tfms;
    int hwid = -1;
    uint64_t runs = 0, failures = 0, opens = 0;
    int open_now = 0;
    bool dead = false, loaded = false;
    bool procdir = true, hwproc = true;
    // what happened, for the counts
    int n_ops = 0, n_faulty = 0, n_data = 0, n_err = 0, n_selftests = 0, n_truth = 0, n_raw = 0, n_part = 0;

    K(pbt::Ctx &t_, const Prof &p_) : t(t_), p(p_) { kw::reset(t); }

    // ---------------------------------------------------------- basics --
    size_t own_allocs() { size_t n = 0; for (auto &a : W.allocs) n += !a.second.lib; return n; }
    void panic_check() {
        if (!fips_enabled) bug("panic (%s) although the kernel does not run in FIPS mode", W.panic_msg.c_str());
        if (W.log.empty()) bug("panic without a cause: %s", W.panic_msg.c_str());
        auto &c = W.log.back();
        bool ok = (c.kind == kw::LK_READ && permanent(c.ret)) || (c.kind == kw::LK_SELFTEST && c.ret) || (c.kind == kw::LK_INIT && c.ret);
        if (!ok) bug("panic without a permanent failure: %s", W.panic_msg.c_str());
        t.label("panic");
        dead = true;
    }
    // bookkeeping after an operation; false when the machine is dead
    bool after(bool alive) {
        n_ops++;
        if (!alive) { panic_check(); return false; }
        if (fips_enabled)
            for (auto &c : W.log) {
                if (c.kind == kw::LK_READ && permanent(c.ret)) bug("permanent failure %ld in FIPS mode does not stop the machine", c.ret);
                if (c.kind == kw::LK_SELFTEST && c.ret) bug("failed self test in FIPS mode does not stop the machine");
            }
        note_selftests();
        return true;
    }
    void note_selftests() {
        for (auto &c : W.log)
            if (c.kind == kw::LK_SELFTEST) {
                runs++;
                n_selftests++;
                if (c.ret) {
                    failures++;
                    if (c.inst >= 0) inst[c.inst].sticky = true;
                }
            }
    }
    Faults faults(std::initializer_list<int> kinds, int extra = 0) {
        Faults f;
        if (!t.chance(p.fault_pct + extra, 100) || !kinds.size()) return f;
        int k = t.pick(kinds), at = (int)t.size(6);
        switch (k) {
        case 0: f.alloc = (int)t.size(3); break;
        case 1: f.copy_to = at; f.copy_left = (unsigned)t.u(100000); break;
        case 2: f.copy_from = 0; f.copy_left = (unsigned)t.u(100); break;
        case 3: f.intr = at; break;
        case 4: f.busy = (int)t.size(3); break;
        case 5: f.sig = at; break;
        case 6: f.lib = at; f.lib_err = t.chance(1, 10) ? -(int)t.range(12, 200) : -(int)t.range(1, 11); break;
        case 7: f.badclock = (unsigned)t.range(40, 1500); break;
        }
        n_faulty++;
        return f;
    }
    Inst *find(int id) { auto i = inst.find(id); return i == inst.end() ? nullptr : &i->second; }
    std::string truth(int id) { // what the library itself says
        static char b[8192];
        if (jent_status_real(W.cur[(size_t)id], b, sizeof(b))) bug("status of an instance failed");
        return b;
    }
    static int jent_status_real(const rand_data *ec, char *b, size_t n);
    static char pat(size_t i) { return (char)(0xA0 ^ (i * 37)); }

    // ------------------------------------------------------------ load --
    void gen_config() {
        osr = t.chance(1, 2) ? 0 : (unsigned)t.range(1, 6);
        if (t.chance(1, 40)) osr = (unsigned)t.range(7, 25);
        flags = 0;
        if (t.chance(1, 3)) flags |= F_FIPS;
        if (t.chance(1, 10)) flags |= F_NTG1;
        if (t.chance(1, 8)) flags |= F_CACHE;
        if (t.chance(1, 8) && (!(flags & (F_FIPS | F_NTG1)) || t.chance(1, 8))) flags |= F_NOMEM;
        if (t.chance(1, 8)) flags |= F_NOINT;
        if (t.chance(1, 80)) flags |= F_INTTIMER;
        if (t.chance(1, 3)) flags |= (unsigned)t.range(1, 12) << 27;
        else if (t.chance(1, 60)) flags |= (unsigned)t.range(13, 31) << 27;
        if (t.chance(1, 8)) flags |= (unsigned)t.range(1, 3) << 24;
        else if (t.chance(1, 60)) flags |= (unsigned)t.range(4, 7) << 24;
        ntg1 = t.chance(1, 10);
        ff = t.chance((uint64_t)p.ff_pct, 100);
        ca = t.chance(1, 8);
        verbose = t.chance(1, 3);
        interval = 0;
        if (t.chance(p.interval_pct, 100)) {
            interval = t.chance(1, 2) ? (unsigned)t.range(1, 100) : (unsigned)t.size(4000000);
            if (t.chance(1, 6)) interval = t.pick({2592000u, 2592001u, 2591999u, 4294967295u, 17179870u, 3000000u});
        }
        quality = t.chance(1, 2) ? (unsigned)t.size(1100) : t.pick({0u, 1024u, 1025u, 65536u, 65537u, 66560u, 4294967295u, 2048u});
        tosr = t.chance(1, 2) ? 0 : (unsigned)t.range(1, 8);
        gen_tflags();
        kw::set_param("osr", osr);
        kw::set_param("flags", flags);
        kw::set_param("ntg1", ntg1);
        kw::set_param("force_fips", ff);
        kw::set_param("cache_all", ca);
        kw::set_param("verbose", verbose);
        kw::set_param("selftest_interval", interval);
        kw::set_param("hwrng_quality", quality);
        set_tparams();
        eff = flags | (ntg1 ? F_NTG1 : 0) | (ff ? F_FIPS : 0) | (ca ? F_CACHE : 0);
        if (interval > 2592000) interval = 2592000;
        fips_enabled = t.chance(p.fips_pct, 100);
        W.lockdown = t.chance(1, 12);
        W.fake = !t.chance(p.real_pct, 100);
        W.resched = t.chance(1, 4);
        t.note("osr=%u flags=%#x%s%s%s%s interval=%u%s%s%s;", osr, flags, ntg1 ? " ntg1" : "", ff ? " force_fips" : "", ca ? " cache_all" : "",
               verbose ? " verbose" : "", interval, fips_enabled ? " FIPS" : "", W.lockdown ? " lockdown" : "", W.fake ? "" : " real");
    }
    void gen_tflags() {
        tflags = 0;
        if (t.chance(1, 3)) tflags |= 1u << 15;
        if (t.chance(1, 3)) tflags |= 1u << 16;
        if (t.chance(1, 5)) tflags |= F_NTG1;
        if (t.chance(1, 6)) tflags |= F_NOMEM;
        if (t.chance(1, 2)) tflags |= (unsigned)t.range(1, 4) << 27;
    }
    void set_tparams() {
        kw::set_param("testing_osr", tosr);
        kw::set_param("testing_flags", tflags);
    }
    std::vector<std::string> proc_names() {
        return {"jitterentropy", "jitterentropy/statistics", "jitterentropy/version", "jitterentropy/config", "jitterentropy/config/flags",
                "jitterentropy/config/flags_raw", "jitterentropy/config/osr", "jitterentropy/config/ntg1", "jitterentropy/config/fips",
                "jitterentropy/interfaces", "jitterentropy/interfaces/kcapi", "jitterentropy/interfaces/hwrng",
                "jitterentropy/interfaces/chardev", "jitterentropy/interfaces/testing"};
    }
    void nothing_left(const char *when) {
        if (W.misc) bug("%s: the character device is still registered", when);
        if (W.hw) bug("%s: the hwrng is still registered", when);
        if (W.alg) bug("%s: the crypto algorithm is still registered", when);
        if (kw::proc_count()) bug("%s: %zu proc entries are left", when, kw::proc_count());
        if (kw::dbg_count()) bug("%s: %zu debugfs entries are left", when, kw::dbg_count());
        if (kw::pending_works()) bug("%s: a self test is still scheduled", when);
        if (!W.inst.empty()) bug("%s: %zu collectors are left", when, W.inst.size());
        if (!W.allocs.empty()) bug("%s: %zu allocations (first of %zu bytes) are left", when, W.allocs.size(), W.allocs.begin()->second.n);
        for (auto m : W.main_task.held) { (void)m; bug("%s: a lock is held", when); }
    }
    bool load() {
        Faults f;
        bool faulty = t.chance(p.load_fault_pct, 100);
        if (faulty) {
            switch (t.u(10)) {
            case 9: f.init = (int)t.range(1, 20); break;
            case 0: f.kcapi = -(int)t.range(1, 100); break;
            case 1: f.hwrng = -(int)t.range(1, 100); break;
            case 2: f.misc = -(int)t.range(1, 100); break;
            case 3: f.dbg = (int)t.u(2); f.dbg_err = -(int)t.range(1, 100); break;
            case 4: case 5: f.proc = (int)t.u(17); break;
            case 6: f.alloc = (int)t.size(20); break;
            case 7: f.badclock = (unsigned)t.range(10, 4000); break;
            case 8: W.kat_fail = true; break;
            }
            t.note(" load with fault;");
        }
        File *early = nullptr;
        bool hook = t.chance(p.hook_pct, 100);
        int early_ret = 1;
        if (hook) {
            W.on_misc_register = [&] { // udev opens the device at once
                early = new File();
                early_ret = W.misc->fops->open ? W.misc->fops->open(&early->i, &early->f) : 0;
            };
            W.on_hw_register = [&] { // the core's thread reads at once
                char b[16];
                memset(b, 0, sizeof(b));
                int r = W.hw->read(W.hw, b, sizeof(b), true);
                if (W.fake && !W.f.badclock && W.f.alloc < 0 && r != 16) bug("a read as soon as the hwrng is registered gives %d", r);
            };
        }
        int ret = 0;
        kw::arm(f);
        bool alive = kw::op([&] { ret = W.init(); });
        W.on_misc_register = nullptr;
        W.on_hw_register = nullptr;
        n_ops++;
        if (!alive) { panic_check(); return false; }
        W.kat_fail = false;
        long init = -1000;
        int coll_failed = 0;
        for (auto &c : W.log) {
            if (c.kind == kw::LK_INIT) init = c.ret;
            if (c.kind == kw::LK_ALLOC) { if (!c.ret) coll_failed++; }
        }
        for (auto &c : W.log)
            if ((c.kind == kw::LK_INIT || c.kind == kw::LK_ALLOC) && (c.loop != osr || c.delta != eff))
                bug("the module is loaded with osr %u and flags %#x, the library is asked for %u and %#x", osr, eff, (unsigned)c.loop, (unsigned)c.delta);
        if (init == -1000 && ret == 0) bug("the module loads without the self tests of the library");
        if (early && early_ret == 0 && ret) bug("the load fails (%d) after the device could be opened", ret);
        int want = 0;
        if (init == -1000 && !W.reg_err.size() && !W.fired_alloc) bug("the module does not load (%d) and did not try", ret);
        if (init != -1000 && init != 0) {
            if (fips_enabled) bug("the library refuses the system (%ld) in FIPS mode and the machine keeps running", init);
            want = -EFAULT;
        } else if (!W.reg_err.empty()) want = W.reg_err[0];
        else if (coll_failed && !(early && early_ret)) want = -ENOMEM;
        if (want && !ret) bug("the module loads although a step failed with %d", want);
        if (want && ret != want) bug("the load fails with %d, the failed step gave %d", ret, want);
        if (ret > 0) bug("the load returns %d", ret);
        if (!want && ret && !W.fired_alloc) bug("the load fails with %d and no step failed", ret);
        if (ret) {
            nothing_left("after a failed load");
            t.label("load fails"); t.note(" load fails %d init %ld", ret, init);
            n_err++;
            if (early) delete early;
            dead = true;
            return false;
        }
        loaded = true;
        if (!W.misc) bug("loaded without the character device");
        if (!W.hw) bug("loaded without the hwrng");
        if (!W.alg) bug("loaded without the crypto algorithm");
        if (strcmp(W.misc->name, "jitterentropy")) bug("the device is called %s", W.misc->name);
        if (W.misc->mode & 0222) bug("the device is writable");
        for (auto &n : proc_names()) if (!kw::proc_find(n)) bug("/proc/%s is missing", n.c_str());
        hwproc = kw::proc_find("jitterentropy/hwrng_status");
        procdir = kw::proc_find("jitterentropy/instances");
        for (auto &n : W.fired_proc) { if (n == "hwrng_status") hwproc = true; if (n == "instances") procdir = true; }
        if (!hwproc || !procdir) bug("a status file of the interfaces is missing");
        hwproc = kw::proc_find("jitterentropy/hwrng_status");
        procdir = kw::proc_find("jitterentropy/instances");
        if (W.lockdown ? kw::dbg_count() != 0 : kw::dbg_count() < 2) bug("%s kernel: %zu debugfs entries", W.lockdown ? "locked down" : "open", kw::dbg_count());
        unsigned q = quality > 1024 ? 1024 : quality;
        if (W.hw_quality != q) bug("hwrng_quality=%u is registered as %u", quality, W.hw_quality);
        // the instance of the hwrng is the first collector
        for (auto &c : W.log) if (c.kind == kw::LK_ALLOC && c.ret) { hwid = c.inst; break; }
        if (hwid < 0) bug("loaded without an instance for the hwrng");
        add_inst(hwid, HWRNG);
        note_selftests();
        if (early) {
            if (early_ret == 0) {
                for (auto &c : W.log) if (c.kind == kw::LK_ALLOC && c.ret && c.inst != hwid) early->id = c.inst;
                Inst *ei = add_inst(early->id, CHARDEV);
                early->procfile = procdir && kw::proc_find("jitterentropy/instances/" + ei->uuid);
                files.push_back(early);
                opens++;
                open_now++;
            } else {
                if (!coll_failed && !W.fired_alloc) bug("an open as soon as the device is registered gives %d", early_ret);
                delete early;
            }
        }
        return true;
    }
    Inst *add_inst(int id, Kind k) {
        Inst i;
        i.id = id;
        i.kind = k;
        if (k != RAW && interval) i.due = kw_jiffies + (unsigned long)interval * HZ_;
        Json j;
        if (!j.parse(truth(id))) bug("status is not JSON: %s", j.err.c_str());
        i.uuid = j.v["uuid"];
        inst[id] = i;
        W.shared.insert(id);
        return &inst[id];
    }
    void unload() {
        Faults f;
        bool hook = t.chance(p.hook_pct, 100);
        if (hook) W.on_hw_unregister = [&] {
            char b[16];
            memset(b, 0, sizeof(b));
            int r = W.hw->read(W.hw, b, sizeof(b), false);
            (void)r;
        };
        kw::arm(f);
        bool alive = kw::op([&] { W.exit(); });
        W.on_hw_unregister = nullptr;
        if (!after(alive)) return;
        loaded = false;
        nothing_left("after unload");
        // nothing comes back later
        if (interval) {
            kw::arm(f);
            kw::op([&] { kw::advance((unsigned long)interval * HZ_ * 2 + 1); });
            if (!W.log.empty()) bug("a self test ran after the unload");
        }
    }

    // -------------------------------------------------------- chardev --
    File *open_file(const Faults &f) {
        File *F = new File();
        int ret = 0;
        size_t a0 = own_allocs(), l0 = W.allocs.size(), p0 = kw::proc_count(), w0 = kw::pending_works();
        if (!W.sched) kw::arm(f); else kw::begin();
        auto call = [&] { ret = W.misc->fops->open(&F->i, &F->f); };
        bool alive = true;
        if (W.sched) call(); else alive = kw::op(call);
        if (!W.sched && !after(alive)) return nullptr;
        int id = -1, failed = 0;
        for (auto &c : kw::mine()) if (c.kind == kw::LK_ALLOC) {
            if (c.loop != osr || c.delta != eff) bug("an instance is requested with osr %u and flags %#x instead of %u and %#x", (unsigned)c.loop, (unsigned)c.delta, osr, eff); if (c.ret) id = c.inst; else failed++; }
        if (ret) {
            if (ret > 0) bug("open returns %d", ret);
            if (id >= 0 && W.cur[(size_t)id]) bug("a failed open leaves a collector behind");
            if (!W.sched) {
                if (!failed && !W.fired_alloc) bug("open fails with %d without a cause", ret);
                if (ret != -ENOMEM) bug("open without resources fails with %d", ret);
                if (own_allocs() != a0 || W.allocs.size() != l0) bug("a failed open leaks memory");
                if (kw::proc_count() != p0) bug("a failed open leaves a status file");
                if (kw::pending_works() != w0) bug("a failed open leaves a scheduled self test");
                n_err++;
            } else if (!failed) bug("open fails with %d without a cause", ret);
            delete F;
            return nullptr;
        }
        if (id < 0) bug("open gives a device without an own instance");
        F->id = id;
        Inst *i = add_inst(id, CHARDEV);
        opens++;
        open_now++;
        std::string path = "jitterentropy/instances/" + i->uuid;
        F->procfile = kw::proc_find(path);
        if (procdir && !F->procfile && W.fired_proc.empty()) bug("no status file for an open instance");
        files.push_back(F);
        if (!W.sched && !W.f.badclock && f.badclock == 0) fresh_check(id);
        return F;
    }
    void fresh_check(int id) { // the configuration files describe the instances
        Json j;
        j.parse(truth(id));
        unsigned eo = osr < 3 ? 3 : osr;
        if (j.v["configuration.osr"] != std::to_string(eo)) { // the start may raise it; the file then is not exact for this instance
            if (strtoul(j.v["configuration.osr"].c_str(), nullptr, 10) < eo) bug("an instance runs with osr %s, configured is %u", j.v["configuration.osr"].c_str(), osr);
        }
        bool fips = (eff & (F_FIPS | F_NTG1)) || fips_enabled;
        if ((j.v["configuration.fipsMode"] == "true") != fips) bug("an instance has fipsMode=%s with flags %#x and fips=%d", j.v["configuration.fipsMode"].c_str(), eff, fips_enabled);
        if ((j.v["configuration.ntg1Mode"] == "true") != !!(eff & F_NTG1)) bug("an instance has ntg1Mode=%s with flags %#x", j.v["configuration.ntg1Mode"].c_str(), eff);
        if ((j.v["configuration.flags.JENT_CACHE_ALL"] == "true") != !!(eff & F_CACHE)) bug("an instance has JENT_CACHE_ALL=%s with flags %#x", j.v["configuration.flags.JENT_CACHE_ALL"].c_str(), eff);
        if ((j.v["configuration.flags.JENT_DISABLE_MEMORY_ACCESS"] == "true") != !!(eff & F_NOMEM)) bug("an instance does not follow the flags %#x", eff);
    }
    void close_file(File *F) {
        int ret = 0;
        if (!W.sched) kw::arm(Faults()); else kw::begin();
        int id = F->id;
        bool raw = F->raw;
        Inst *i = find(id);
        std::string path = raw || !i ? "" : "jitterentropy/instances/" + i->uuid;
        bool alive = true;
        auto call = [&] { ret = (raw ? raw_ops() : W.misc->fops)->release(&F->i, &F->f); };
        if (W.sched) call(); else alive = kw::op(call);
        if (!W.sched && !after(alive)) return;
        if (ret) bug("close returns %d", ret);
        if (W.cur[(size_t)id]) bug("close leaves the collector");
        if (!raw && kw::proc_find(path)) bug("close leaves the status file");
        inst.erase(id);
        if (!raw) open_now--;
        for (size_t k = 0; k < files.size(); k++) if (files[k] == F) { files.erase(files.begin() + (long)k); break; }
        delete F;
    }
    void read_file(File *F, size_t len, bool nb, const Faults &f) {
        std::string buf(len + 64, 0);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = pat(i);
        ssize_t ret = 0;
        loff_t pos = 0;
        size_t a0 = own_allocs();
        bool sched = W.sched;
        if (!sched) kw::arm(f); else kw::begin();
        bool alive = true;
        if (!sched) { if (nb) F->f.f_flags |= O_NONBLOCK; else F->f.f_flags &= ~(unsigned)O_NONBLOCK; }
        if (!sched && !nb && t.chance(1, 8)) { // fcntl() during the read, and somebody else takes the lock
            W.f.busy = (int)t.u(2);
            int at = (int)t.u(3);
            t.note(" fcntl@%d", at);
            W.on_copy = [F, at]() mutable { if (at-- == 0) F->f.f_flags |= O_NONBLOCK; };
        }
        auto call = [&] { ret = W.misc->fops->read(&F->f, (char *)kw::user(&buf[0]), len, &pos); };
        if (sched) call(); else alive = kw::op(call);
        W.on_copy = nullptr;
        auto log = kw::mine();
        std::string S;
        long err = 0;
        int nreads = 0;
        size_t maxc = 0;
        for (auto &c : log) {
            if (c.kind != kw::LK_READ) continue;
            if (c.inst != F->id) bug("a read of instance %d is served by instance %d", F->id, c.inst);
            if (err) bug("the library is asked again after it failed with %ld", err);
            nreads++;
            if (c.ret >= 0) { S += c.bytes; maxc = std::max(maxc, c.bytes.size()); }
            else err = c.ret;
        }
        if (!sched && !after(alive)) return;
        auto *me = kw::self();
        size_t last_n = 0, last_left = 0;
        bool cfault = false;
        for (auto &c : me->copies) { last_n = c.first; last_left = c.second; cfault = c.second != 0; if (cfault) break; }
        bool intr = !sched && W.fired_intr, busy = me->busy > 0, af = !sched && W.fired_alloc && !W.alloc_in_lib, sig = !sched && f.sig >= 0;
        if (ret > (ssize_t)len) bug("read of %zu bytes returns %zd", len, ret);
        size_t got = ret > 0 ? (size_t)ret : 0;
        if (got > S.size()) bug("read returns %zd bytes, the library generated %zu", ret, S.size());
        if (memcmp(buf.data(), S.data(), got)) bug("read of %zu bytes (%zd returned): the data is not what the instance generated", len, ret);
        size_t dirty = got;
        if (cfault) {
            dirty = got + (last_n - last_left);
            if (dirty > S.size() || memcmp(buf.data(), S.data(), dirty)) bug("data around a failing copy is not what the instance generated");
        }
        for (size_t i = dirty; i < buf.size(); i++)
            if (buf[i] != pat(i)) bug("read of %zu bytes (%zd returned) writes at offset %zu", len, ret, i);
        if (!cfault && S.size() != got) bug("read returns %zd, %zu bytes of the instance are lost", ret, S.size() - got);
        if (maxc > 4096) bug("one generation step of %zu bytes under the lock", maxc);
        if (nb) {
            if (me->sleeps) bug("a non-blocking read waits for a lock");
            if (nreads > 1) bug("a non-blocking read generates %d times", nreads);
            if (got > 256) bug("a non-blocking read delivers %zu bytes", got);
        }
        if (len == 0) {
            if (ret || nreads) bug("read of 0 bytes returns %zd after %d generations", ret, nreads);
        } else if (ret == 0) bug("read of %zu bytes returns 0 (end of file)", len);
        bool cause = err || cfault || intr || busy || af || sig || (!sched && W.fired_alloc);
        if (ret > 0 && got < len && !nb && !cause) bug("read of %zu bytes returns %zd without a cause", len, ret);
        if (ret < 0) {
            int want = err ? map_err(err) : cfault ? -EFAULT : intr ? -ERESTARTSYS : busy ? -EAGAIN : af ? -ENOMEM : 0;
            if (!want) bug("read fails with %zd without a cause", ret);
            if (ret != want) bug("read fails with %zd, the cause (library %ld) maps to %d", ret, err, want);
            n_err++;
        }
        if (!sched && sig && W.n_read > f.sig + 2) bug("a read goes on for %d steps after a signal", W.n_read - f.sig - 1);
        if (!sched && own_allocs() != a0) bug("read leaks memory");
        if (Inst *i = find(F->id)) if (i->sticky && S.size() && !sched) bug("an instance delivers after its self test failed");
        if (got) n_data++;
        if (got && got < len) n_part++;
    }

    // ---------------------------------------------------------- hwrng --
    void hw_read(size_t max, bool wait, const Faults &f) {
        std::string buf(max + 64, 0);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = pat(i);
        int ret = 0;
        bool sched = W.sched;
        if (!sched) kw::arm(f); else kw::begin();
        bool alive = true;
        auto call = [&] { ret = W.hw->read(W.hw, &buf[0], max, wait); };
        if (sched) call(); else alive = kw::op(call);
        std::string S;
        long err = 0;
        int nreads = 0;
        for (auto &c : kw::mine()) {
            if (c.kind != kw::LK_READ) continue;
            if (c.inst != hwid) bug("a read of the hwrng is served by instance %d", c.inst);
            nreads++;
            if (c.ret >= 0) S += c.bytes; else err = c.ret;
        }
        if (!sched && !after(alive)) return;
        auto *me = kw::self();
        if (!wait && me->sleeps) bug("a hwrng read without waiting waits for a lock");
        if (ret > (int)max) bug("hwrng read of %zu returns %d", max, ret);
        if (ret > 0 && ((size_t)ret != S.size() || memcmp(buf.data(), S.data(), S.size()))) bug("hwrng read of %zu returns %d: the data is not what the instance generated", max, ret);
        for (size_t i = max; i < buf.size(); i++) if (buf[i] != pat(i)) bug("hwrng read of %zu writes at offset %zu", max, i);
        bool intr = !sched && W.fired_intr;
        int want = (int)max;
        if (max == 0) want = 0;
        else if (err) want = map_err(err);
        else if (intr && wait) want = -ERESTARTSYS;
        else if (me->busy && !wait) want = 0;
        if (ret != want) bug("hwrng read of %zu (wait %d) returns %d instead of %d (library %ld)", max, wait, ret, want, err);
        if (Inst *i = find(hwid)) if (i->sticky && S.size() && !sched) bug("the hwrng delivers after its self test failed");
        if (ret > 0) n_data++;
        if (ret < 0) n_err++;
    }
    // ---------------------------------------------------------- kcapi --
    Tfm *new_tfm(const Faults &f) {
        Tfm *T = new Tfm();
        T->r.base.kw_ctx = calloc(1, W.alg->base.cra_ctxsize);
        int ret = 0;
        size_t a0 = W.allocs.size(), w0 = kw::pending_works();
        if (!W.sched) kw::arm(f); else kw::begin();
        bool alive = true;
        auto call = [&] { ret = W.alg->base.cra_init(&T->r.base); };
        if (W.sched) call(); else alive = kw::op(call);
        if (!W.sched && !after(alive)) return nullptr;
        int id = -1, failed = 0;
        for (auto &c : kw::mine()) if (c.kind == kw::LK_ALLOC) {
            if (c.loop != osr || c.delta != eff) bug("an instance is requested with osr %u and flags %#x instead of %u and %#x", (unsigned)c.loop, (unsigned)c.delta, osr, eff); if (c.ret) id = c.inst; else failed++; }
        if (ret) {
            if (ret != -ENOMEM || (!failed && !(!W.sched && W.fired_alloc))) bug("creation of a crypto instance fails with %d", ret);
            if (!W.sched && (W.allocs.size() != a0 || kw::pending_works() != w0)) bug("a failed creation of a crypto instance leaves something behind");
            if (!W.sched && W.fired_alloc && !W.alloc_in_lib && !failed) bug("creation of a crypto instance fails for want of a log buffer");
            n_err++;
            free(T->r.base.kw_ctx);
            delete T;
            return nullptr;
        }
        if (id < 0) bug("a crypto instance without an own collector");
        if (!W.sched && own_allocs() && W.fired_alloc == false) {}
        T->id = id;
        add_inst(id, KCAPI);
        tfms.push_back(T);
        return T;
    }
    void gen_tfm(Tfm *T, unsigned len, const Faults &f) {
        std::string buf(len + 64, 0);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = pat(i);
        int ret = 0;
        bool sched = W.sched;
        size_t a0 = own_allocs();
        if (!sched) kw::arm(f); else kw::begin();
        bool alive = true;
        auto call = [&] { ret = W.alg->generate(&T->r, nullptr, 0, (uint8_t *)&buf[0], len); };
        if (sched) call(); else alive = kw::op(call);
        std::string S;
        long err = 0;
        for (auto &c : kw::mine()) {
            if (c.kind != kw::LK_READ) continue;
            if (c.inst != T->id) bug("a request of crypto instance %d is served by instance %d", T->id, c.inst);
            if (c.ret >= 0) S += c.bytes; else err = c.ret;
        }
        if (!sched && !after(alive)) return;
        if (err) {
            if (ret != map_err(err)) bug("crypto request fails with %d, the library gave %ld", ret, err);
            n_err++;
        } else {
            if (ret) bug("crypto request returns %d without a failure", ret);
            if (S.size() != len || memcmp(buf.data(), S.data(), len)) bug("crypto request of %u bytes reports success with %zu bytes of the instance", len, S.size());
            n_data++;
        }
        for (size_t i = len; i < buf.size(); i++) if (buf[i] != pat(i)) bug("crypto request of %u writes at offset %zu", len, i);
        if (!sched && own_allocs() != a0) bug("crypto request leaks memory");
        if (Inst *i = find(T->id)) if (i->sticky && S.size() && !sched) bug("a crypto instance delivers after its self test failed");
        if (!sched && W.alg->seed && W.alg->seed(&T->r, (const uint8_t *)"seed", 4)) bug("seeding fails");
    }
    void free_tfm(Tfm *T) {
        if (!W.sched) kw::arm(Faults()); else kw::begin();
        bool alive = true;
        auto call = [&] { W.alg->base.cra_exit(&T->r.base); };
        if (W.sched) call(); else alive = kw::op(call);
        if (!W.sched && !after(alive)) return;
        if (W.cur[(size_t)T->id]) bug("a released crypto instance leaves its collector");
        inst.erase(T->id);
        char *b = (char *)T->r.base.kw_ctx;
        size_t n = W.alg->base.cra_ctxsize;
        for (auto w : W.works) if ((char *)w >= b && (char *)w < b + n && (w->pending || w->running)) bug("a released crypto instance leaves its self test scheduled");
        for (auto i = W.works.begin(); i != W.works.end();) if ((char *)*i >= b && (char *)*i < b + n) i = W.works.erase(i); else ++i;
        for (size_t k = 0; k < tfms.size(); k++) if (tfms[k] == T) { tfms.erase(tfms.begin() + (long)k); break; }
        memset(b, 0xdd, n);
        free(b);
        delete T;
    }

    // --------------------------------------------------------- ioctls --
    const file_operations *raw_ops() {
        for (auto d : W.dbg_root.kids) for (auto k : d->kids) if (k->fops) return k->fops;
        return nullptr;
    }
    long ioctl_raw(File *F, unsigned cmd, void *arg, const Faults &f, bool &alive) {
        long ret = 0;
        if (!W.sched) kw::arm(f); else kw::begin();
        bool inside = W.busy.count(F->id);
        unsigned ses = W.session[F->id];
        auto call = [&] { ret = (F->raw ? raw_ops() : W.misc->fops)->unlocked_ioctl(&F->f, cmd, (unsigned long)arg); };
        alive = true;
        if (W.sched) call(); else alive = kw::op(call);
        if (!W.sched) alive = after(alive);
        if (inside && W.busy.count(F->id) && W.session[F->id] == ses && ret == 0 && cmd != IOCVERSION && cmd != IOCLOOPCNT && !(F->raw && cmd == IOCSELFTEST))
            bug("request %#x is answered from an instance while another task works on it", cmd);
        return ret;
    }
    void status(File *F, const Faults &f) {
        std::string want = W.sched ? "" : truth(F->id);
        size_t need = want.size() + 1;
        size_t room = 0;
        switch (t.u(5)) {
        case 0: room = 4096; break;
        case 1: room = t.size(4096); break;
        case 2: room = need; break;
        case 3: room = need - 1; break;
        case 4: room = 0; break;
        }
        if (W.sched) room = 4096;
        std::string buf(8192, 0);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = pat(i);
        StatusArg a;
        memset(&a, 0x77, sizeof(a));
        bool nullbuf = !W.sched && t.chance(1, 15);
        a.buf = nullbuf ? 0 : (uint64_t)kw::user(&buf[0]);
        a.length = (uint32_t)room;
        StatusArg before = a;
        bool nullarg = !W.sched && t.chance(1, 25);
        size_t a0 = own_allocs();
        bool alive;
        long ret = ioctl_raw(F, IOCSTATUS, nullarg ? nullptr : kw::user(&a), f, alive);
        if (!alive) return;
        if (!W.sched && own_allocs() != a0) bug("status request leaks memory");
        size_t used = 0;
        for (size_t i = 0; i < buf.size(); i++) if (buf[i] != pat(i)) used = i + 1;
        if (W.sched) {
            if (ret) bug("status request fails with %ld", ret);
            if (a.length == 0 || a.length > 4096 || buf[a.length - 1] || strlen(buf.c_str()) + 1 != a.length) bug("status request reports a length of %u", a.length);
            Json j;
            if (!j.parse(buf.c_str())) bug("status is not JSON: %s", j.err.c_str());
            if (find(F->id) && j.v["uuid"] != find(F->id)->uuid) bug("status describes another instance");
            return;
        }
        if (W.fired_copyfrom || nullarg) { if (ret != -EFAULT || used) bug("status request with a bad argument gives %ld", ret); n_err++; return; }
        if (W.fired_alloc) { if (ret != -ENOMEM || used) bug("status request without memory gives %ld", ret); n_err++; return; }
        if (W.fired_intr) { if (ret != -ERESTARTSYS || used) bug("interrupted status request gives %ld", ret); n_err++; return; }
        if (room < need) {
            if (used) bug("a status of %zu bytes is written to a buffer of %zu", used, room);
            if (W.fired_copyto) { if (ret != -EFAULT) bug("status request with a failing copy gives %ld", ret); return; }
            if (ret != -EOVERFLOW) bug("status request with %zu of %zu bytes gives %ld", room, need, ret);
            if (a.length != need) bug("a short status buffer is told %u bytes are needed instead of %zu", a.length, need);
            if (a.buf != before.buf) bug("status request changes the address");
            n_err++;
            n_truth++;
            return;
        }
        if (W.fired_copyto || nullbuf) {
            if (ret != -EFAULT) bug("status request with a failing copy gives %ld", ret);
            n_err++;
            return;
        }
        if (ret) bug("status request gives %ld", ret);
        if (a.length != need || used > need) bug("status request reports %u bytes (wrote %zu) instead of %zu", a.length, used, need);
        if (want != buf.c_str()) bug("status request differs from the status of the instance:\n%s\n%s", buf.c_str(), want.c_str());
        if (a.buf != before.buf) bug("status request changes the address");
        n_truth++;
    }
    void field(File *F, const Faults &f) {
        unsigned cmd = t.pick({(unsigned)IOCUUID, (unsigned)IOCVERSION, (unsigned)IOCOSR, (unsigned)IOCFLAGS, (unsigned)IOCHEALTH, (unsigned)IOCOUTPUT, (unsigned)IOCREINIT});
        std::string tr = W.sched ? "" : truth(F->id);
        Json j;
        if (!W.sched && !j.parse(tr)) bug("status is not JSON");
        char buf[128];
        for (size_t i = 0; i < sizeof(buf); i++) buf[i] = pat(i);
        size_t sz = cmd == IOCUUID ? 37 : cmd == IOCOUTPUT ? 16 : 4;
        bool alive;
        bool nullarg = !W.sched && t.chance(1, 25);
        long ret = ioctl_raw(F, cmd, nullarg ? nullptr : kw::user(buf), f, alive);
        if (!alive) return;
        size_t used = 0;
        for (size_t i = 0; i < sizeof(buf); i++) if (buf[i] != pat(i)) used = i + 1;
        if (used > sz) bug("field request %#x writes %zu bytes", cmd, used);
        if (W.sched) { if (ret) bug("field request %#x gives %ld", cmd, ret); return; }
        if (W.fired_intr) { if (ret != -ERESTARTSYS || used) bug("interrupted field request gives %ld", ret); n_err++; return; }
        if (cmd == IOCUUID && F->raw) { if (ret != -ENODATA || used) bug("the UUID of a raw instance gives %ld", ret); n_err++; return; }
        if (W.fired_copyto || nullarg) { if (ret != -EFAULT) bug("field request with a failing copy gives %ld", ret); n_err++; return; }
        if (ret) bug("field request %#x gives %ld", cmd, ret);
        uint32_t v = 0;
        memcpy(&v, buf, 4);
        auto num = [&](const char *k) { return strtoull(j.v[k].c_str(), nullptr, 10); };
        switch (cmd) {
        case IOCUUID:
            if (buf[36] || j.v["uuid"] != std::string(buf, 36)) bug("UUID %.37s, status says %s", buf, j.v["uuid"].c_str());
            break;
        case IOCVERSION: {
            unsigned a = 0, b = 0, c = 0;
            sscanf(j.v["version"].c_str(), "%u.%u.%u", &a, &b, &c);
            if (v != a * 1000000 + b * 10000 + c * 100) bug("version %u, status says %s", v, j.v["version"].c_str());
            break;
        }
        case IOCOSR: if (v != num("configuration.osr")) bug("osr %u, status says %s", v, j.v["configuration.osr"].c_str()); break;
        case IOCREINIT: if (v != num("reinitializations")) bug("reinitializations %u, status says %s", v, j.v["reinitializations"].c_str()); break;
        case IOCFLAGS: {
            static const std::pair<const char *, unsigned> fl[] = {{"JENT_DISABLE_MEMORY_ACCESS", F_NOMEM}, {"JENT_FORCE_INTERNAL_TIMER", F_INTTIMER},
                {"JENT_DISABLE_INTERNAL_TIMER", F_NOINT}, {"JENT_FORCE_FIPS", F_FIPS}, {"JENT_NTG1", F_NTG1}, {"JENT_CACHE_ALL", F_CACHE}, {"JENT_FORCE_SECURE_MEM", 1u << 8}};
            for (auto &x : fl)
                if ((j.v[std::string("configuration.flags.") + x.first] == "true") != !!(v & x.second)) bug("flags %#x, status says %s=%s", v, x.first, j.v[std::string("configuration.flags.") + x.first].c_str());
            break;
        }
        case IOCHEALTH: {
            static const std::pair<const char *, unsigned> hf[] = {{"rct", 1}, {"apt", 2}, {"lag", 4}, {"rctMemory", 8}};
            for (auto &x : hf) {
                std::string k = std::string("healthFailure.") + x.first;
                if (!j.v.count(k + ".permanent")) continue;
                if ((j.v[k + ".intermittent"] == "true") != !!(v & x.second) || (j.v[k + ".permanent"] == "true") != !!(v & (x.second << 16))) bug("health mask %#x, status says otherwise for %s", v, x.first);
            }
            break;
        }
        case IOCOUTPUT: {
            Output o;
            memcpy(&o, buf, 16);
            if (o.inv != num("output.invocations") || o.bytes != num("output.bytes")) bug("output %llu/%llu, status says %s/%s", (unsigned long long)o.inv, (unsigned long long)o.bytes,
                                                                                    j.v["output.invocations"].c_str(), j.v["output.bytes"].c_str());
            break;
        }
        }
        n_truth++;
    }
    void selftest_ioctl(File *F, const Faults &f) {
        Inst *i = find(F->id);
        bool was = i && i->sticky && !F->raw;
        bool alive;
        long ret = ioctl_raw(F, IOCSELFTEST, nullptr, f, alive);
        if (!alive) return;
        int n = 0;
        long verdict = 0;
        for (auto &c : kw::mine())
            if (c.kind == kw::LK_SELFTEST) {
                n++;
                verdict = c.ret;
                if (c.inst != (F->raw ? -1 : F->id)) bug("a self test requested on instance %d is bound to %d", F->raw ? -1 : F->id, c.inst);
            }
        if (!W.cap) { if (ret != -EPERM || n) bug("self test request without privilege gives %ld after %d runs", ret, n); n_err++; return; }
        if (!W.sched && W.fired_intr) { if (ret != -ERESTARTSYS || n) bug("interrupted self test request gives %ld", ret); n_err++; return; }
        if (was) { if (ret != -EFAULT || n) bug("self test request on a failed instance gives %ld after %d runs", ret, n); n_err++; return; }
        if (n != 1 && !W.sched) bug("a self test request makes %d runs", n);
        if (n == 1 && ret != (verdict ? -EFAULT : 0)) bug("self test request gives %ld, the run gave %ld", ret, verdict);
        if (!W.sched && !!verdict != W.kat_fail) bug("a self test gives %ld with %s conditioning", verdict, W.kat_fail ? "broken" : "intact");
    }
    void bad_ioctl(File *F) {
        unsigned cmd = 0;
        switch (t.u(4)) {
        case 0: cmd = F->raw ? _IOW('J', 3, uint64_t) : IOCLOOPCNT; break;
        case 1: cmd = _IOC((unsigned)t.u(4), 'J', (unsigned)t.range(11, 255), (unsigned)t.u(64)); break;
        case 2: cmd = _IOC((unsigned)t.u(4), (unsigned)t.range(0, 'J' - 1), (unsigned)t.u(16), 4); break;
        case 3: cmd = t.pick({(unsigned)_IOW('J', 4, uint32_t), (unsigned)_IOR('J', 5, uint64_t), (unsigned)_IO('J', 1), (unsigned)_IOR('J', 10, int), (unsigned)_IO('J', 0)}); break;
        }
        char buf[128];
        for (size_t i = 0; i < sizeof(buf); i++) buf[i] = pat(i);
        bool alive;
        long ret = ioctl_raw(F, cmd, kw::user(buf), Faults(), alive);
        if (!alive) return;
        if (ret != -ENOTTY) bug("unknown request %#x gives %ld", cmd, ret);
        for (size_t i = 0; i < sizeof(buf); i++) if (buf[i] != pat(i)) bug("unknown request %#x writes to the caller", cmd);
        if (!W.sched) for (auto &c : W.log) { (void)c; bug("unknown request %#x has an effect", cmd); }
    }

    // ----------------------------------------------------------- proc --
    std::string line(const std::string &s, const std::string &key) {
        size_t p0 = 0;
        while (p0 < s.size()) {
            size_t e = s.find('\n', p0);
            if (e == std::string::npos) e = s.size();
            std::string l = s.substr(p0, e - p0);
            if (l.compare(0, key.size(), key) == 0 && l.size() > key.size() && l[key.size()] == ' ') {
                size_t b = l.find_first_not_of(' ', key.size());
                return b == std::string::npos ? "" : l.substr(b);
            }
            p0 = e + 1;
        }
        return "(no such line)";
    }
    void proc(const Faults &f) {
        auto names = proc_names();
        std::vector<std::string> v;
        for (auto &n : names) if (auto e = kw::proc_find(n)) if (e->show) v.push_back(n);
        for (int k = 0; k < 4; k++) v.push_back("jitterentropy/statistics");
        if (hwproc) v.push_back("jitterentropy/hwrng_status"), v.push_back("jitterentropy/hwrng_status");
        for (auto F : files) if (!F->raw && F->procfile && find(F->id)) v.push_back("jitterentropy/instances/" + find(F->id)->uuid);
        std::string n = t.pick(v);
        proc_one(n, f);
    }
    void proc_one(const std::string &n, const Faults &f) {
        auto e = kw::proc_find(n);
        if (!e) { if (!W.sched) bug("/proc/%s is missing", n.c_str()); return; }
        if (e->mode & 0222) bug("/proc/%s is writable", n.c_str());
        int ret = 0;
        std::string s;
        size_t a0 = own_allocs();
        bool sched = W.sched;
        if (!sched) kw::arm(f); else kw::begin();
        bool alive = true;
        auto call = [&] { s = kw::proc_read(e, &ret); };
        if (sched) call(); else alive = kw::op(call);
        if (!sched && !after(alive)) return;
        if (!sched && own_allocs() != a0) bug("reading /proc/%s leaks memory", n.c_str());
        std::string b = n.substr(strlen("jitterentropy/"));
        bool isst = b == "hwrng_status" || b.compare(0, 10, "instances/") == 0;
        if (!sched && W.fired_alloc && isst) { if (ret != -ENOMEM || !s.empty()) bug("/proc/%s without memory gives %d", n.c_str(), ret); n_err++; return; }
        if (!sched && W.fired_intr && isst) { if (ret != -ERESTARTSYS || !s.empty()) bug("/proc/%s interrupted gives %d", n.c_str(), ret); n_err++; return; }
        if (ret) bug("/proc/%s gives %d", n.c_str(), ret);
        char w[64];
        unsigned eo = osr < 3 ? 3 : osr;
        auto eq = [&](const char *want) { if (s != want) bug("/proc/%s says %s, expected %s", n.c_str(), s.c_str(), want); n_truth++; };
        if (isst) {
            if (sched) { Json j; if (!j.parse(s)) bug("/proc/%s is not JSON", n.c_str()); return; }
            int id = hwid;
            if (b != "hwrng_status") { id = -1; for (auto &x : inst) if (b == "instances/" + x.second.uuid) id = x.first; }
            std::string want = truth(id);
            if (s != want) bug("/proc/%s differs from the status of its instance:\n%s\n%s", n.c_str(), s.c_str(), want.c_str());
            n_truth++;
        } else if (b == "version") {
            Json j;
            j.parse(truth(hwid));
            eq((j.v["version"] + "\n").c_str());
        } else if (b == "config/flags_raw") { snprintf(w, sizeof(w), "0x%08x\n", eff); eq(w); }
        else if (b == "config/osr") { snprintf(w, sizeof(w), "%u\n", eo); eq(w); }
        else if (b == "config/ntg1") eq(eff & F_NTG1 ? "1\n" : "0\n");
        else if (b == "config/fips") eq(((eff & (F_FIPS | F_NTG1)) || fips_enabled) ? "1\n" : "0\n");
        else if (b.compare(0, 11, "interfaces/") == 0) eq("1\n");
        else if (b == "config/flags") {
            snprintf(w, sizeof(w), "0x%08x", eff);
            auto is = [&](const char *k, const std::string &v) { std::string g = line(s, k); if (g != v) bug("/proc/%s: %s %s with flags %#x", n.c_str(), k, g.c_str(), eff); };
            is("flags:", w);
            is("JENT_DISABLE_MEMORY_ACCESS:", eff & F_NOMEM ? "on" : "off");
            is("JENT_FORCE_INTERNAL_TIMER:", eff & F_INTTIMER ? "on" : "off");
            is("JENT_DISABLE_INTERNAL_TIMER:", eff & F_NOINT ? "on" : "off");
            is("JENT_FORCE_FIPS:", eff & F_FIPS ? "on" : "off");
            is("JENT_NTG1:", eff & F_NTG1 ? "on" : "off");
            is("JENT_CACHE_ALL:", eff & F_CACHE ? "on" : "off");
            unsigned ms = eff >> 27, hl = (eff >> 24) & 7;
            std::string m = ms == 0 ? "auto (derived from cache size)" : ms <= 10 ? std::to_string(1u << (ms - 1)) + " kB" : ms <= 20 ? std::to_string(1u << (ms - 11)) + " MB" : "invalid (" + std::to_string(ms) + ")";
            is("max memory size:", m);
            is("hash loop count:", hl ? std::to_string(1u << hl) : "default");
            n_truth++;
        } else if (b == "statistics") {
            Json j;
            if (!j.parse(s)) bug("/proc/%s is not JSON: %s\n%s", n.c_str(), j.err.c_str(), s.c_str());
            if (sched) return;
            auto is = [&](const char *k, uint64_t v) { if (j.v[k] != std::to_string(v)) bug("statistics: %s is %s, expected %llu", k, j.v[k].c_str(), (unsigned long long)v); };
            is("charDevice.openInstances", (uint64_t)open_now);
            is("charDevice.cumulativeOpens", opens);
            is("selfTest.intervalSeconds", interval);
            is("selfTest.runs", runs);
            is("selfTest.failures", failures);
            n_truth++;
        }
    }

    // ----------------------------------------------------------- time --
    void time_passes() {
        unsigned long iv = (unsigned long)interval * HZ_, dt;
        if (interval) {
            dt = t.chance(1, 3) ? iv : t.chance(1, 2) ? t.u(iv + 2) : iv * (unsigned long)t.range(1, 4) + t.u(iv + 1);
        } else dt = t.size(1ul << 40);
        unsigned long end = kw_jiffies + dt;
        std::multiset<std::pair<int, unsigned long>> want, got;
        std::vector<int> unlucky;
        for (auto &x : inst) {
            Inst &i = x.second;
            while (i.due && i.due <= end) {
                if (i.sticky) { i.due = 0; break; }
                want.insert({i.id, i.due});
                if (W.kat_fail) { i.due = 0; unlucky.push_back(i.id); break; }
                i.due += iv;
            }
        }
        kw::arm(Faults());
        bool alive = kw::op([&] { kw::advance(dt); });
        if (!alive) { after(false); return; }
        for (auto &c : W.log) if (c.kind == kw::LK_SELFTEST) got.insert({c.inst, c.when});
        else if (c.kind == kw::LK_READ || c.kind == kw::LK_ALLOC) bug("time alone makes an instance work");
        if (got != want) {
            std::string m;
            for (auto &x : want) if (!got.count(x)) m += " missing: instance " + std::to_string(x.first) + " at " + std::to_string(x.second);
            for (auto &x : got) if (!want.count(x)) m += " unexpected: instance " + std::to_string(x.first) + " at " + std::to_string(x.second);
            bug("self tests with interval %u s until %lu:%s", interval, end, m.c_str());
        }
        after(true);
    }

    // ------------------------------------------------------ raw noise --
    File *open_raw(const Faults &f) {
        if (!raw_ops()) return nullptr;
        File *F = new File();
        F->raw = true;
        int ret = 0;
        size_t a0 = W.allocs.size();
        if (!W.sched) kw::arm(f); else kw::begin();
        bool alive = true;
        unsigned tf = tflags;
        auto call = [&] { ret = raw_ops()->open(&F->i, &F->f); };
        if (W.sched) call(); else alive = kw::op(call);
        if (!W.sched && !after(alive)) return nullptr;
        int id = -1, failed = 0;
        for (auto &c : kw::mine()) if (c.kind == kw::LK_RAW) {
            if (!W.sched && (c.loop != tosr || c.delta != tf)) bug("raw noise is recorded with osr %u and flags %#x instead of %u and %#x", (unsigned)c.loop, (unsigned)c.delta, tosr, tf); if (c.ret) id = c.inst; else failed++; }
        if (ret) {
            if (id >= 0 && W.cur[(size_t)id]) bug("a failed open of the raw interface leaves a collector");
            if (!W.sched) {
                if (W.allocs.size() != a0) bug("a failed open of the raw interface leaks memory");
                int want = W.lockdown ? -EPERM : W.fired_intr ? -ERESTARTSYS : (failed || W.fired_alloc) ? -ENOMEM : 0;
                if (ret != want) bug("open of the raw interface gives %d instead of %d", ret, want);
            }
            n_err++;
            delete F;
            return nullptr;
        }
        if (W.lockdown) bug("the raw interface opens on a locked down kernel");
        if (id < 0) bug("the raw interface opens without an own instance");
        F->id = id;
        F->which = tf & (1u << 15) ? 1 : tf & (1u << 16) ? 2 : 0;
        add_inst(id, RAW);
        Json j;
        j.parse(truth(id));
        if (!W.sched && j.v["configuration.fipsMode"] != "true") bug("raw noise is recorded without the health tests");
        unsigned eo = tosr < 3 ? 3 : tosr;
        if (!W.sched && j.v["configuration.osr"] != std::to_string(eo)) bug("raw noise is recorded with osr %s instead of %u", j.v["configuration.osr"].c_str(), eo);
        files.push_back(F);
        return F;
    }
    void read_raw(File *F, size_t len, const Faults &f) {
        std::string buf(len + 64, 0);
        for (size_t i = 0; i < buf.size(); i++) buf[i] = pat(i);
        ssize_t ret = 0;
        loff_t pos0 = (loff_t)(t.chance(1, 2) ? 0 : 8 * t.size(5000)), pos = pos0;
        size_t a0 = own_allocs();
        bool sched = W.sched, alive = true;
        uint64_t loop = F->loop;
        if (!sched) kw::arm(f); else kw::begin();
        auto call = [&] { ret = raw_ops()->read(&F->f, (char *)kw::user(&buf[0]), len, &pos); };
        if (sched) call(); else alive = kw::op(call);
        if (!sched && !after(alive)) return;
        if (!sched && own_allocs() != a0) bug("reading raw noise leaks memory");
        auto log = kw::mine();
        auto &cp = kw::self()->copies;
        size_t nm = 0;
        for (auto &c : log) if (c.kind == kw::LK_MEASURE) { nm++; if (c.inst != F->id) bug("raw noise of instance %d comes from instance %d", F->id, c.inst); }
        if (ret > (ssize_t)len) bug("raw read of %zu returns %zd", len, ret);
        size_t got = ret > 0 ? (size_t)ret : 0;
        if (pos != pos0 + (ret > 0 ? ret : 0)) bug("raw read at %lld returns %zd and leaves the position at %lld", (long long)pos0, ret, (long long)pos);
        size_t copied = 0;
        std::string S;
        bool cfault = false;
        for (size_t k = 0; k < cp.size(); k++) {
            if (cp[k].first % 8) bug("a partial sample of raw noise is delivered");
            size_t n = cp[k].first / 8;
            std::vector<const LibCall *> g;
            for (auto &c : log) if (c.kind == kw::LK_MEASURE && c.copies == k) g.push_back(&c);
            if (g.size() < n + (F->which == 0 ? 1 : 0)) bug("%zu samples from %zu measurements%s", n, g.size(), F->which == 0 ? " (the first must be primed)" : "");
            for (size_t q = g.size() - n; q < g.size(); q++) {
                if (g[q]->which != F->which) bug("raw noise of source %d is recorded instead of source %d", g[q]->which, F->which);
                if (!sched && g[q]->loop != loop) bug("raw noise is recorded with loop count %llu instead of %llu", (unsigned long long)g[q]->loop, (unsigned long long)loop);
                uint64_t d = g[q]->delta;
                S.append((char *)&d, 8);
            }
            copied += cp[k].first - cp[k].second;
            if (cp[k].second) { if (k + 1 != cp.size()) bug("a raw read goes on after a failing copy"); cfault = true; }
        }
        if (memcmp(buf.data(), S.data(), copied)) bug("raw samples are not what was measured");
        for (size_t i = copied; i < buf.size(); i++) if (buf[i] != pat(i)) bug("raw read of %zu (%zd returned) writes at offset %zu", len, ret, i);
        if (ret >= 0 && got != copied) bug("raw read returns %zd, delivered %zu", ret, copied);
        bool intr = !sched && W.fired_intr, af = !sched && W.fired_alloc, sig = !sched && W.fired_sig;
        if (!sched && f.sig_copy >= 0 && (int)cp.size() > f.sig_copy + 1) bug("a raw read makes %zu copies, a signal is pending since copy %d", cp.size(), f.sig_copy);
        if (len % 8) { if (ret != -EINVAL || nm) bug("raw read of %zu bytes gives %zd", len, ret); n_err++; return; }
        if (len == 0) { if (ret || nm) bug("raw read of 0 bytes gives %zd", ret); return; }
        if (ret < 0) {
            int want = af ? -ENOMEM : intr ? -ERESTARTSYS : cfault ? -EFAULT : sig ? -ERESTARTSYS : 0;
            if (ret != want) bug("raw read fails with %zd instead of %d", ret, want);
            if (copied) bug("raw read fails although samples were delivered");
            n_err++;
            return;
        }
        if (got < len && !cfault && !sig) bug("raw read of %zu returns %zd without a cause", len, ret);
        if (ret == 0) bug("raw read of %zu returns 0", len);
        n_raw++;
    }
    void loopcnt(File *F, const Faults &f) {
        uint64_t v = t.chance(1, 2) ? t.size(12) : t.pick({(uint64_t)0xffffffffull, (uint64_t)0x100000000ull, (uint64_t)0x100000003ull, (uint64_t)-1ll, (uint64_t)0x8000000000000000ull});
        if (v == 0xffffffffull) v = 12; // accepted, but recording with it takes too long
        uint64_t arg = v;
        bool alive;
        long ret = ioctl_raw(F, IOCLOOPCNT, kw::user(&arg), f, alive);
        if (!alive) return;
        if (W.sched) { if (ret && v <= 0xffffffffull) bug("loop count request gives %ld", ret); return; }
        if (W.fired_copyfrom) { if (ret != -EFAULT) bug("loop count request with a bad argument gives %ld", ret); return; }
        if (v > 0xffffffffull) { if (ret != -EINVAL) bug("a loop count of %llu gives %ld", (unsigned long long)v, ret); n_err++; return; }
        if (W.fired_intr) { if (ret != -ERESTARTSYS) bug("interrupted loop count request gives %ld", ret); n_err++; return; }
        if (ret) bug("a loop count of %llu gives %ld", (unsigned long long)v, ret);
        F->loop = v;
    }

    // -------------------------------------------------------- histories --
    File *some(bool raw) {
        std::vector<File *> v;
        for (auto F : files) if (F->raw == raw) v.push_back(F);
        return v.empty() ? nullptr : t.pick(v);
    }
    size_t gen_len() {
        size_t m = W.fake ? 700 : 80;
        if (t.chance(1, 4)) return t.pick({(size_t)1, (size_t)31, (size_t)32, (size_t)33, (size_t)64, (size_t)65, (size_t)0, (size_t)256, (size_t)257}) % (m + 1);
        return t.size(m);
    }
    void step() {
        int total = 0;
        for (int w : p.w) total += w;
        int r = (int)t.u((uint64_t)total), k = 0;
        while (r >= p.w[k]) r -= p.w[k++];
        bool real = !W.fake;
        switch (k) {
        case O_OPEN: if (files.size() < 5) open_file(real ? faults({0, 0, 7}) : faults({0})); break;
        case O_CLOSE: if (File *F = some(false)) close_file(F); break;
        case O_READ: {
            File *F = some(false);
            if (!F) { open_file(Faults()); break; }
            bool nb = t.chance(1, 3);
            Faults f = real ? faults({0, 1, 3, 4, 5, 7, 7, 7}, p.inject_pct) : faults({0, 1, 3, 4, 5, 6, 6}, p.inject_pct);
            size_t len = gen_len();
            t.note(" read(%zu%s)", len, nb ? ",nonblock" : "");
            read_file(F, len, nb, f);
            break;
        }
        case O_HWREAD: hw_read(gen_len() % 300, t.chance(1, 2), real ? faults({3, 4, 7, 7}, p.inject_pct) : faults({3, 4, 6, 6}, p.inject_pct)); break;
        case O_TFM: if (tfms.size() < 3) new_tfm(real ? faults({0, 7}) : faults({0})); break;
        case O_GEN:
            if (tfms.empty()) new_tfm(Faults());
            else gen_tfm(t.pick(tfms), (unsigned)(gen_len() % 300), real ? faults({0, 7, 7}, p.inject_pct) : faults({6, 6, 0}, p.inject_pct));
            break;
        case O_TFMFREE: if (!tfms.empty()) free_tfm(t.pick(tfms)); break;
        case O_STATUS: if (File *F = some(false)) status(F, faults({0, 1, 2, 3})); break;
        case O_FIELD: if (File *F = some(false)) field(F, faults({1, 3})); break;
        case O_SELFTEST: if (File *F = some(false)) selftest_ioctl(F, faults({3})); break;
        case O_BADIOCTL: if (File *F = some(t.chance(1, 3))) bad_ioctl(F); break;
        case O_PROC: proc(faults({0, 3})); break;
        case O_TIME: time_passes(); break;
        case O_KAT: W.kat_fail = !W.kat_fail; t.note(W.kat_fail ? " break" : " repair"); break;
        case O_ROPEN: { size_t n = 0; for (auto F : files) n += F->raw; if (n < 3) open_raw(faults({0, 0, 3})); break; }
        case O_RREAD: {
            File *F = some(true);
            if (!F) { open_raw(Faults()); break; }
            size_t n = t.chance(1, 6) ? t.range(990, 2100) : t.size(60);
            if (F->loop > 4 && n > 60) n = 60;
            size_t len = n * 8 + (t.chance(1, 8) ? t.range(1, 7) : 0);
            t.note(" raw(%zu)", len);
            Faults f = faults({0, 1, 1, 3, 5});
            int rounds = (int)(n + 999) / 1000;
            if (f.copy_to >= rounds) f.copy_to = rounds - 1;
            if (f.copy_to >= 0 && t.chance(1, 2)) f.copy_left = (unsigned)t.range(1, 9);
            if (f.sig >= 0) { f.sig_copy = f.sig >= rounds ? rounds - 1 : f.sig; f.sig = -1; }
            read_raw(F, len, f);
            break;
        }
        case O_RIOCTL: {
            File *F = some(true);
            if (!F) break;
            switch (t.u(5)) {
            case 0: status(F, faults({0, 1, 2, 3})); break;
            case 1: field(F, faults({1, 3})); break;
            case 2: case 3: loopcnt(F, faults({2, 3})); break;
            case 4: selftest_ioctl(F, Faults()); break;
            }
            break;
        }
        case O_RCLOSE: if (File *F = some(true)) close_file(F); break;
        case O_TPARAM: tosr = t.chance(1, 2) ? 0 : (unsigned)t.range(1, 8); gen_tflags(); set_tparams(); break;
        case O_LOCKDOWN: W.lockdown = true; break;
        case O_CAP: W.cap = !W.cap; break;
        }
    }
    void run() {
        gen_config();
        if (!load()) return;
        t.label(W.fake ? "fake" : "real");
        int n = (int)t.range((uint64_t)p.min_ops, (uint64_t)p.max_ops);
        for (int i = 0; i < n && !dead; i++) step();
        if (dead) return;
        finish();
    }
    // ---------------------------------------------------- concurrency --
    struct CSlot { File *f = nullptr; Tfm *t = nullptr; bool gone = false; int users = 0; };
    std::vector<CSlot> slots;
    int n_conc = 0, n_again = 0;
    bool use(size_t i, const std::function<void()> &fn) {
        CSlot &s = slots[i];
        if (s.gone) return false;
        s.users++;
        fn();
        s.users--;
        return true;
    }
    void conc_op(int task, size_t stalled, bool stall, bool timer) {
        int k = (int)t.u(10);
        size_t i = slots.empty() ? 0 : t.u(slots.size());
        bool hwst = stall && stalled == slots.size();
        n_conc++;
        switch (k) {
        case 0: case 1: case 2:
            if (slots.empty()) break;
            if (slots[i].t && stall && stalled == i && task) break;
            use(i, [&] {
                if (slots[i].t) gen_tfm(slots[i].t, (unsigned)t.range(1, 60), Faults());
                else if (slots[i].f->raw) read_raw(slots[i].f, 8 * t.range(1, 12), Faults());
                else read_file(slots[i].f, t.range(1, 100), slots[i].f->f.f_flags & O_NONBLOCK, Faults());
            });
            break;
        case 3: {
            bool wait = !hwst && t.chance(1, 2);
            if (!W.hw) break;
            W.hw_readers++;
            hw_read(t.range(1, 40), wait, Faults());
            W.hw_readers--;
            break;
        }
        case 4:
            if (slots.empty() || !slots[i].f || (stall && stalled == i)) break;
            use(i, [&] {
                File *F = slots[i].f;
                switch (t.u(4)) {
                case 0: status(F, Faults()); break;
                case 1: if (!F->raw) field(F, Faults()); break;
                case 2: selftest_ioctl(F, Faults()); break;
                case 3: bad_ioctl(F); break;
                }
            });
            break;
        case 5:
            if (slots.empty() || !slots[i].f || slots[i].f->raw || (stall && stalled == i) || slots[i].gone) break;
            if (Inst *x = find(slots[i].f->id)) proc_one("jitterentropy/instances/" + x->uuid, Faults());
            break;
        case 6:
            if (!hwst && t.chance(1, 2)) proc_one("jitterentropy/hwrng_status", Faults());
            else proc_one(t.chance(1, 2) ? "jitterentropy/statistics" : "jitterentropy/config/flags", Faults());
            break;
        case 7:
            if (timer && !stall) { kw::run_due_work(); kw::run_due_work(); }
            break;
        case 8: {
            if (slots.empty() || (stall && stalled == i) || slots[i].gone) break;
            slots[i].gone = true;
            CSlot *s = &slots[i];
            kw::wait_until([s] { return s->users == 0; }, "the users of a file");
            if (slots[i].t) free_tfm(slots[i].t); else close_file(slots[i].f);
            break;
        }
        case 9:
            if (t.chance(1, 3)) { W.kat_fail = true; break; }
            if (File *F = open_file(Faults())) { read_file(F, 33, false, Faults()); if (t.chance(1, 2)) close_file(F); }
            break;
        }
    }
    void run_conc() {
        gen_config();
        fips_enabled = 0;
        W.lockdown = false;
        if (!load()) return;
        int nf = (int)t.range(1, 3);
        for (int i = 0; i < nf; i++) if (File *F = open_file(Faults())) { CSlot s; s.f = F; slots.push_back(s); }
        if (t.chance(1, 2)) if (Tfm *T = new_tfm(Faults())) { CSlot s; s.t = T; slots.push_back(s); }
        if (t.chance(1, 4)) if (File *F = open_raw(Faults())) { CSlot s; s.f = F; slots.push_back(s); }
        for (auto &s : slots) if (s.f && !s.f->raw && t.chance(1, 2)) s.f->f.f_flags |= O_NONBLOCK;
        bool stall = t.chance(1, 3);
        size_t st = t.u(slots.size() + 1);
        if (stall) {
            if (st < slots.size() && slots[st].f && slots[st].f->raw) stall = false;
            else {
                W.stall = st == slots.size() ? hwid : slots[st].f ? slots[st].f->id : slots[st].t->id;
                if (st < slots.size() && slots[st].f) slots[st].f->f.f_flags |= O_NONBLOCK;
                t.label("stalled");
            }
        }
        bool timer = interval != 0;
        if (t.chance(1, 2)) { W.trouble_pct = 40; t.label("trouble"); }
        kw::arm(Faults());
        int nt = (int)t.range(2, 4);
        std::vector<std::function<void()>> fns;
        for (int i = 0; i < nt; i++)
            fns.push_back([=] {
                if (i == 0 && stall) {
                    if (st == slots.size()) { W.hw_readers++; hw_read(20, false, Faults()); W.hw_readers--; }
                    else if (slots[st].t) gen_tfm(slots[st].t, 20, Faults());
                    else read_file(slots[st].f, 20, true, Faults());
                }
                int n = (int)t.range(1, 4);
                for (int k = 0; k < n; k++) conc_op(i, st, stall, timer);
            });
        kw::run_tasks(fns);
        if (W.reallocs) t.label("replaced");
        note_selftests();
        W.stall = -1;
        t.note(" %d tasks, %u switches", nt, W.switches);
        W.kat_fail = false;
        while (!files.empty() && !dead) close_file(files.back());
        while (!tfms.empty() && !dead) free_tfm(tfms.back());
        if (dead) return;
        // unload while the status files, the hwrng and the timers are in use
        unsigned sw = W.switches;
        kw::arm(Faults());
        fns.clear();
        fns.push_back([=] { W.exit(); });
        int nu = (int)t.range(1, 3);
        for (int i = 0; i < nu; i++)
            fns.push_back([=] {
                int n = (int)t.range(1, 3);
                for (int k = 0; k < n; k++)
                    switch (t.u(4)) {
                    case 0: proc_one("jitterentropy/hwrng_status", Faults()); break;
                    case 1: proc_one(t.chance(1, 2) ? "jitterentropy/statistics" : "jitterentropy/version", Faults()); break;
                    case 2: if (W.hw) { W.hw_readers++; hw_read(t.range(1, 40), t.chance(1, 2), Faults()); W.hw_readers--; } break;
                    case 3: if (timer) kw::run_due_work(); break;
                    }
            });
        kw::run_tasks(fns);
        nothing_left("after unload");
        t.note(" unload %u switches", W.switches - sw);
    }

    void finish() {
        W.kat_fail = false;
        while (!files.empty() && !dead) close_file(files.back());
        while (!tfms.empty() && !dead) free_tfm(tfms.back());
        if (dead) return;
        if (t.chance(1, 2)) proc_one("jitterentropy/statistics", Faults());
        unload();
    }
};
} // namespace
extern "C" int __real_jent_status(const rand_data *ec, char *buf, size_t n);
int K::jent_status_real(const rand_data *ec, char *b, size_t n) { return __real_jent_status(ec, b, n); }

//                O C R H T G F S F S B P T K O R I C P L C
PBT_PROP(D01, delivery, 1, 1, 25, "data was delivered by at least 2 reads, at least one of them short or failed") {
    Prof p = {{4, 2, 24, 2, 0, 0, 0, 1, 1, 1, 0, 0, 2, 1, 0, 0, 0, 0, 0, 0, 0}};
    p.fault_pct = 60; p.fips_pct = 5; p.load_fault_pct = 0; p.real_pct = 20;
    K k(t, p);
    k.run();
    if (k.n_data >= 2 && (k.n_part || k.n_err)) t.nontrivial();
    t.fp((uint64_t)k.n_data * 1000 + (uint64_t)k.n_err * 10 + (uint64_t)k.n_part);
}
PBT_PROP(D02, errors, 1, 1, 25, "an interface reported a failure or the machine was stopped") {
    Prof p = {{3, 1, 12, 12, 3, 12, 1, 0, 0, 2, 0, 0, 3, 2, 0, 0, 0, 0, 0, 0, 1}};
    p.fault_pct = 55; p.inject_pct = 20; p.fips_pct = 35; p.load_fault_pct = 2; p.real_pct = 20;
    K k(t, p);
    k.run();
    if (k.n_err || k.dead) t.nontrivial();
    t.fp((uint64_t)k.n_err * 100 + (uint64_t)k.n_ops);
}
PBT_PROP(D03, load, 1, 1, 25, "a load failed, or the module was used and unloaded") {
    Prof p = {{4, 2, 3, 3, 3, 3, 2, 1, 0, 1, 0, 1, 3, 0, 3, 1, 0, 1, 0, 1, 0}};
    p.fault_pct = 20; p.fips_pct = 20; p.load_fault_pct = 75; p.hook_pct = 60; p.real_pct = 10; p.min_ops = 0; p.max_ops = 8;
    K k(t, p);
    k.run();
    if (k.dead || k.n_ops > 2) t.nontrivial();
    t.fp((uint64_t)k.n_ops * 3 + k.dead);
}
PBT_PROP(D04, selftest, 1, 1, 25, "at least 2 self tests ran on instances") {
    Prof p = {{6, 3, 4, 3, 3, 3, 2, 0, 0, 8, 0, 4, 16, 4, 2, 0, 2, 1, 0, 0, 1}};
    p.fault_pct = 15; p.fips_pct = 15; p.load_fault_pct = 3; p.interval_pct = 90; p.real_pct = 5; p.min_ops = 8; p.max_ops = 40;
    K k(t, p);
    k.run();
    if (k.n_selftests >= 2) t.nontrivial();
    t.fp((uint64_t)k.runs * 100 + k.failures);
}
PBT_PROP(D05, reports, 1, 1, 25, "at least 3 reports were compared with the state of the library") {
    Prof p = {{5, 2, 5, 2, 1, 1, 1, 10, 12, 2, 3, 14, 2, 1, 3, 0, 7, 1, 0, 0, 1}};
    p.fault_pct = 25; p.fips_pct = 15; p.load_fault_pct = 3; p.real_pct = 70;
    K k(t, p);
    k.run();
    if (k.n_truth >= 3) t.nontrivial();
    t.fp((uint64_t)k.n_truth * 100 + (uint64_t)k.n_data);
}
PBT_PROP(D06, raw, 1, 1, 25, "raw samples were recorded at least twice") {
    Prof p = {{1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 5, 20, 9, 3, 4, 2, 1}};
    p.fault_pct = 35; p.fips_pct = 10; p.load_fault_pct = 0; p.real_pct = 0; p.hook_pct = 5;
    K k(t, p);
    k.run();
    if (k.n_raw >= 2) t.nontrivial();
    t.fp((uint64_t)k.n_raw * 100 + (uint64_t)k.n_err);
}
PBT_PROP(D07, tasks, 1, 1, 25, "at least 5 switches between tasks inside operations") {
    Prof p = {{0}};
    p.fips_pct = 0; p.load_fault_pct = 0; p.real_pct = 8; p.ff_pct = 50; p.interval_pct = 60; p.hook_pct = 0; p.fault_pct = 0;
    K k(t, p);
    k.run_conc();
    if (W.switches >= 5) t.nontrivial();
    t.fp(W.switches * 64 + (uint64_t)k.n_conc);
}
