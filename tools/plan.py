"""What each check runs: (variant, harness files, quick seconds, thorough seconds, minimum cases)."""
SIM = ["the operating system below the wrapped calls behaves as documented",
       "the mock timer is the library's own test hook; hardware timers are not exercised",
       "the reference model in lib/model.hpp restates the documented behaviour"]


def plan(files, fast=14, san=8, tfast=240, tsan=120, level="exploration", assumptions=SIM, minc=0, extra=()):
    ph = []
    if fast:
        ph.append(("fast", files, fast, tfast, minc))
    if san:
        ph.append(("san", files, san, tsan, minc // 10))
    return dict(phases=ph + list(extra), level=level, assumptions=assumptions)


PLAN = {k: plan(["sim.cpp"]) for k in "H02 H03 H04 H05 S01 S02 S03 E01 E02 A02 A03 J01 K01 T02 N01".split()}
for k in ("H01", "H02"):
    PLAN[k] = plan(["sim.cpp", "direct.cpp", "glue_health.c"])
PLAN["J01"] = plan(["sim.cpp", "doc.cpp", "glue_status.c"])
for k in "H03 H04 S02".split():
    PLAN[k] = plan(["sim.cpp", "os.cpp", "glue_timer.c"], fast=18)
PLAN["S01"] = plan(["sim.cpp"], fast=12, san=6, extra=[("notimer", ["sim.cpp"], 6, 90, 0)])
for k in "A02 A03 S03 J01 T02".split():  # also without the internal timer compiled in
    PLAN[k]["phases"].append(("notimer", ["sim.cpp"], 5, 60, 0))
for k in "H03 H04 S02".split():
    PLAN[k]["phases"].append(("notimer", ["sim.cpp"], 5, 60, 0))
for k in "F01 M01 M02 T01".split():
    PLAN[k] = plan(["os.cpp", "glue_timer.c"], level="fault_enumeration" if False else "exploration")
for k in "X01 X02 U01 G01 A01".split():
    PLAN[k] = plan(["env.cpp", "glue_timer.c"])
PLAN["X03"] = plan(["cache.cpp"] + ["glue_cache_%s.c" % x for x in "x86 arm bare apple win aix".split()], fast=10, san=8,
                   assumptions=["the processors and system calls in props/cache.cpp behave as their manuals say", "totals below 2 GB"])
PLAN["M03"] = plan(["mem.cpp"] + ["glue_mem_%s.c" % x for x in "gcry ossl aws win bare kern".split()], fast=10, san=8,
                   assumptions=["libgcrypt, OpenSSL, AWS-LC, Windows and kernel allocators behave as documented (props/mem.cpp)"])
PLAN["X04"] = plan(["sys.cpp"] + ["glue_sys_%s.c" % x for x in "gcry ossl aws win bare kern apple unix musl".split()], fast=10, san=8,
                   assumptions=["the crypto libraries' and systems' calls behave as documented (props/sys.cpp)"])
PLAN["X05"] = plan(["thread.cpp"] + ["glue_thr_%s.c" % x for x in "win apple fbsd nbsd obsd other bare linux".split()], fast=10, san=8,
                   assumptions=["the systems' thread and affinity calls behave as documented (props/thread.cpp)"])
PLAN["X06"] = plan(["stamp.cpp"] + ["glue_time_%s.c" % x for x in "generic mach qpc aix kern kx86 x86".split()] + ["glue_at_%s.c" % x for x in "gcc msvc plain kern".split()], fast=10, san=8,
                   assumptions=["the systems' clocks behave as documented (props/stamp.cpp); counter instructions other than x86's cannot be executed here"])
PLAN["C01"] = plan(["hash.cpp", "glue_sha3.c"], fast=10, san=8, assumptions=["the independent sponge of lib/keccak.hpp implements FIPS 202 (the check compares it with published vectors first)"])
PLAN["C02"] = dict(phases=[("fast", ["sec.cpp"], 12, 240, 0), ("o0", ["sec.cpp"], 12, 240, 0)], level="exploration",
                   assumptions=SIM + ["registers and single spilled words are not searched; copies on the process heap are not searched"])
PLAN["L01"] = dict(phases=[("fast", ["conc.cpp"], 14, 240, 0), ("tsan", ["conc.cpp"], 14, 240, 0)], level="exploration",
                   assumptions=SIM + ["deterministic schedules switch threads at clock readings, memory calls and accesses to process-wide latches; finer interleavings are left to the thread sanitizer"])

KERN = ["the kernel functions in kstub/ and lib/kworld.cpp behave as the kernel's own do (locks, user copies, delayed work, proc, debugfs, hwrng and crypto registration)",
        "one kernel version and configuration (x86, procfs, debugfs, all interfaces); preemption only at locks, user copies, library calls and clock readings"]
for k in "D01 D02 D03 D04 D05 D06 D07".split():
    PLAN[k] = dict(phases=[("kmod", ["kmod.cpp"], 14, 240, 0), ("kmodsan", ["kmod.cpp"], 9, 150, 0)], level="exploration", assumptions=KERN)

TECH = {"*": "model-based property testing: generated call histories and clock programs executed against an independent reference model, coverage-guided mutation, shrinking to a replay file"}
NOTE = {"*": "generated-input search against an explicit oracle; sampling, not proof"}

KT = "model-based property testing of the kernel interface on a simulated kernel: generated histories of operations with injected faults%s, checked against a model of the interfaces and the log of library calls; shrinking to a replay file"
for k in "D01 D02 D03 D04 D05 D06 D07".split():
    TECH[k] = KT % (" and generated task interleavings" if k == "D07" else "")
    NOTE[k] = "generated-input search; the kernel itself is simulated (kstub/, lib/kworld.cpp), the interface code and the library are the real ones"

PT = "property testing of the platform layer: the source compiled for each platform against simulated system calls, driven with generated systems, histories and refusals, compared with a reference reading of the platform's documentation; shrinking to a replay file"
for k in "X03 X04 X05 X06 M03".split():
    TECH[k] = PT
    NOTE[k] = "generated-input search; the other platforms' headers and calls are simulated (pstub/, kstub/ and the property's own file), the library source is the real one"
