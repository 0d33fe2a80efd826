// Simulated kernel around the kernel interface of the library: registrations,
// locks, memory, user copies, delayed work on virtual time, tasks that are
// switched deterministically, injected failures, and a log of what the
// interface asked the library to do.
#pragma once
#include "../kstub/kw.h"
#include "pbt.hpp"
#include <csetjmp>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct rand_data;
struct proc_dir_entry {
    std::string name;
    proc_dir_entry *parent = nullptr;
    kw_show_t show = nullptr;
    void *data = nullptr;
    unsigned short mode = 0;
    bool removed = false;
    int readers = 0;
    std::vector<proc_dir_entry *> kids;
};
struct dentry {
    std::string name;
    dentry *parent = nullptr;
    const file_operations *fops = nullptr;
    unsigned short mode = 0;
    bool removed = false;
    std::vector<dentry *> kids;
};

namespace kw {
[[noreturn]] void bug(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

enum LibKind { LK_READ, LK_ALLOC, LK_RAW, LK_FREE, LK_SELFTEST, LK_STATUS, LK_UUID, LK_INIT, LK_MEASURE };
struct LibCall {
    int kind, inst;
    long ret;
    std::string bytes;              // LK_READ: what was generated
    uint64_t delta = 0, loop = 0;   // LK_MEASURE
    int which = 0;                  // LK_MEASURE: 0 common, 1 hash, 2 memory
    bool recorded = false;
    int task = 0;
    unsigned locks = 0;             // locks held by the caller
    size_t copies = 0;              // user copies the task made in this operation before this call
    unsigned long when = 0;         // virtual time
};
struct Faults {
    int alloc = -1, copy_to = -1, copy_from = -1, intr = -1, busy = -1, sig = -1, lib = -1, proc = -1, dbg = -1;
    std::string proc_name;          // creation of this entry fails
    int sig_copy = -1;              // a signal is pending once so many copies were made
    unsigned copy_left = 0;         // how much of a failing copy is not copied
    int lib_err = 0;
    int kcapi = 0, hwrng = 0, misc = 0, dbg_err = 0; // registration errors
    int init = 0;                   // verdict of the library on the system
    unsigned badclock = 0;          // clock readings without variation
};
struct Param { std::string name, type; void *p; int perm; };
struct Alloc { size_t n; bool lib; unsigned op; int task; };

struct Task {
    int id = 0;
    std::function<void()> fn;
    bool done = false, started = false;
    std::function<bool()> wait;     // runnable when empty or true
    const char *why = "";
    pthread_t th;
    std::set<mutex *> held;
    int inlib = 0;
    // of the operation the task is in
    int sleeps = 0, busy = 0;
    std::vector<std::pair<size_t, size_t>> copies; // size, not copied
    size_t log0 = 0;
};

struct World {
    pbt::Ctx *t = nullptr;
    std::vector<Param> params;
    int (*init)() = nullptr;
    void (*exit)() = nullptr;
    std::map<void *, Alloc> allocs;
    std::vector<LibCall> log;        // of the current operation
    Faults f;
    // counters of the current operation
    int n_alloc = 0, n_copyto = 0, n_copyfrom = 0, n_intr = 0, n_try = 0, n_sig = 0, n_read = 0, n_proc = 0, n_dbg = 0;
    bool fired_alloc = false, fired_copyto = false, fired_copyfrom = false, fired_intr = false, fired_busy = false, fired_sig = false, fired_lib = false;
    bool alloc_in_lib = false;
    std::vector<std::string> fired_proc;
    std::vector<int> reg_err;
    int reads_after_sig = 0;
    unsigned op = 0;
    bool cap = true, lockdown = false, procfs = true, fake = true, kat_fail = false, resched = false;
    // registrations
    miscdevice *misc = nullptr;
    hwrng *hw = nullptr;
    unsigned short hw_quality = 0;
    rng_alg *alg = nullptr;
    proc_dir_entry proc_root;
    dentry dbg_root;
    std::set<delayed_work *> works;
    std::vector<std::string> printk;
    std::function<void()> on_hw_register, on_hw_unregister, on_misc_register, on_copy;
    int hw_readers = 0;
    // panic
    bool panicked = false;
    std::string panic_msg;
    jmp_buf *jmp = nullptr;
    // library instances
    std::map<rand_data *, int> inst;
    std::vector<rand_data *> cur;      // by instance; null once freed
    std::map<int, unsigned> session;   // uses of an instance so far
    std::map<int, int> busy;           // instance -> number of tasks reading it, -1: one task has it for itself
    std::map<int, std::set<unsigned>> lockset; // locks common to all calls so far
    std::set<int> shared;              // instances that are published
    std::vector<std::string> secrets;
    std::set<int> failed;              // instances with a failed self test
    unsigned trouble_pct = 0, reallocs = 0; // reads of a task that meet a health failure
    int stall = -1;                    // a read of this instance stalls until the others are done
    uint64_t last_delta = 0;
    uint64_t rng = 1;
    // clock
    uint64_t now = 1000000, crng = 5;
    unsigned bad_left = 0;
    uint64_t bad_used = 0;
    uint64_t clock_reads = 0;
    // tasks
    bool sched = false;
    std::vector<Task *> tasks;
    Task main_task;
    Task *curr = nullptr;
    unsigned switches = 0;
    unsigned yields = 0;
    unsigned mserial = 0;
    std::map<mutex *, unsigned> mutexes;
};
extern World W;
void reset(pbt::Ctx &t);
void arm(const Faults &f);             // start of an operation
void begin();                          // start of an operation of a task
std::vector<LibCall> mine();           // library calls of the task in this operation
void run_due_work();                   // runs one scheduled work item, if any
bool op(const std::function<void()> &fn); // runs fn; false when the machine panicked
bool set_param(const char *name, unsigned v);
bool has_param(const char *name);
void *user(void *p);                   // the address user space passes to the kernel for p
void advance(unsigned long jiffies, const std::function<void(delayed_work *)> &after = nullptr);
proc_dir_entry *proc_find(const std::string &path);
std::string proc_read(proc_dir_entry *e, int *ret);
size_t proc_count();
size_t dbg_count();
size_t pending_works();
void run_tasks(std::vector<std::function<void()>> fns); // interleaves them to completion
void wait_until(const std::function<bool()> &c, const char *why);
Task *self();
} // namespace kw
