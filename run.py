#!/usr/bin/env python3
"""Driver: builds the library from /repo's working tree together with the
harness, runs the generated-input search for one property and reports.

  run.py check ID [--tier quick|thorough] [--seed N] [--time S]
  run.py replay FILE
  run.py setup            (warms the compiler; nothing depends on it)
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
KWRAPS = """jent_read_entropy_safe jent_read_entropy jent_entropy_collector_alloc jent_entropy_collector_alloc_raw
jent_entropy_collector_free jent_entropy_init_ex jent_selftest jent_status jent_uuid jent_sha3_tester jent_measure_jitter
jent_measure_jitter_ntg1_sha3 jent_measure_jitter_ntg1_memaccess""".split()
KDEFS = ["-DLINUX_KERNEL", "-DCONFIG_X86", "-DCONFIG_PROC_FS", "-DCONFIG_DEBUG_FS", "-DJENT_CONF_ENABLE_MOCK_TIMER"] + \
        ["-DCONFIG_EXTERNAL_JITTERENTROPY_" + x for x in ("TESTINTERFACE", "KCAPI", "CHARDEV", "HWRNG")]
WRAPS = """mmap munmap mprotect madvise mlock mlock2 munlock open open64 openat fopen read close sysconf
sched_getaffinity sched_setaffinity pthread_setaffinity_np pthread_getaffinity_np sched_yield pthread_create pthread_join __sched_cpualloc __sched_cpufree
getrandom getentropy jent_sha3_tester jent_gcd_selftest jent_atomic_load_int jent_atomic_store_int jent_atomic_load_u32
jent_atomic_store_u32 jent_atomic_exchange_int jent_atomic_set_once_u32""".split()
DEFS = ["-DJENT_CONF_ENABLE_INTERNAL_TIMER", "-DJENT_CONF_ENABLE_MOCK_TIMER"]
LIBW = ["-w", "-g", "-fwrapv", "-fno-omit-frame-pointer"]
VARIANTS = {
    # library optimisation, extra library flags, harness flags, link flags
    "fast": dict(opt="-O2", cov=True, lib=[], har=[], link=[]),
    "san": dict(opt="-O1", cov=True, lib=["-fsanitize=address,undefined", "-fno-sanitize=unsigned-integer-overflow",
                                          "-fno-sanitize-recover=all"],
                har=[], link=["-fsanitize=address,undefined"]),
    "o0": dict(opt="-O0", cov=False, lib=["-fstack-protector-strong"], har=[], link=[]),
    "tsan": dict(opt="-O1", cov=False, lib=["-fsanitize=thread"], har=["-fsanitize=thread"], link=["-fsanitize=thread"]),
    # without the internal timer / without the mock timer: other build configurations
    # the kernel interface of the library on a simulated kernel (kstub/, lib/kworld.cpp)
    "kmod": dict(opt="-O2", cov=True, lib=[], har=[], link=[], kernel=True),
    "kmodsan": dict(opt="-O1", cov=True, lib=["-fsanitize=address,undefined", "-fno-sanitize=unsigned-integer-overflow,alignment",
                                              "-fno-sanitize-recover=all"],
                    har=[], link=["-fsanitize=address,undefined"], kernel=True),
    "notimer": dict(opt="-O2", cov=True, lib=[], har=[], link=[], defs=["-DJENT_CONF_ENABLE_MOCK_TIMER"]),
}
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources():
    return sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/arch/*.c"))


def ksources():
    """What the kernel build compiles: the objects named in Kbuild.source."""
    k = REPO + "/linux_kernel/"
    fs = []
    try:
        for o in re.findall(r"[\w./-]+\.o\b", open(k + "Kbuild.source").read()):
            o = o[len("CFLAGS_"):] if o.startswith("CFLAGS_") else o
            c = os.path.normpath(k + o[:-2] + ".c")
            if os.path.exists(c) and c not in fs:
                fs.append(c)
    except OSError:
        pass
    return fs


def tree_key(extra):
    h = hashlib.sha256()
    files = sources() + sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/arch/*.h") + glob.glob(REPO + "/*.h"))
    files += sorted(glob.glob(V + "/lib/*") + glob.glob(V + "/props/*")) + [os.path.abspath(__file__)]
    files += sorted(glob.glob(REPO + "/linux_kernel/*.[ch]") + glob.glob(REPO + "/linux_kernel/Kbuild*"))
    files += sorted(glob.glob(V + "/kstub/**/*.h", recursive=True) + glob.glob(V + "/pstub/**/*.h", recursive=True))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:  # another build just removed it
        return 0


class BuildError(Exception):
    pass


def glue_flags(f, v):
    """A glue file may ask for compiler flags in its first line: /* cflags: ... */"""
    with open(f) as fp:
        m = re.match(r"/\* cflags: (.*) \*/", fp.readline())
    if not m:
        return []
    # flags of its own mean that it contains code of the library: instrument it like the rest
    return m.group(1).replace("{V}", V).split() + v["lib"] + (["-fsanitize-coverage=trace-pc-guard"] if v["cov"] else [])


def build(variant, props):
    """Builds the harness binary of the given property file; returns its path."""
    v = VARIANTS[variant]
    key = tree_key((variant, sorted(props)))
    d = os.path.join(BUILD, variant + "-" + key)
    exe = os.path.join(d, "t")
    if os.path.exists(exe):
        try:
            os.utime(d)
        except OSError:
            pass
        return exe
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if not x.startswith("tmp-")), key=mtime)
    for x in old[:-12]:
        shutil.rmtree(x, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        kern = v.get("kernel")
        defs = KDEFS if kern else v.get("defs", DEFS)
        jobs, objs, glue = [], [], []
        inc = ["-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/arch"]
        if kern:
            inc = ["-I" + V + "/kstub", "-I" + REPO + "/linux_kernel"] + inc
        for f in ksources() if kern else sources():
            base = os.path.basename(f)
            o = os.path.join(tmp, "l_" + base[:-2] + ".o")
            opt = "-O0" if base == "jitterentropy-base.c" else v["opt"]
            cov = ["-fsanitize-coverage=trace-pc-guard"] if v["cov"] else []
            cmd = ["clang", opt] + LIBW + v["lib"] + cov + defs + inc + ["-c", f, "-o", o]
            jobs.append((cmd, [c if c != opt else "-O0" for c in cmd]))
            objs.append(o)
        for f in [V + "/lib/pbt.cpp", V + ("/lib/kworld.cpp" if kern else "/lib/shim.cpp")] + [V + "/props/" + p for p in props]:
            o = os.path.join(tmp, "h_" + os.path.basename(f) + ".o")
            if f.endswith(".cpp"):
                cmd = ["clang++", "-std=c++17", "-O2", "-g1", "-Wall", "-Wno-unused-function"] + v["har"] + ([] if kern else defs) + \
                      ["-I" + V + "/lib", "-I" + REPO, "-c", f, "-o", o]
            else:
                cmd = ["clang", "-O1", "-g1", "-w"] + v["har"] + defs + inc + ["-I" + V + "/lib"] + glue_flags(f, v) + ["-c", f, "-o", o]
                glue.append((o, cmd + ["-DGLUE_STUB"]))
            jobs.append((cmd, cmd + ["-DGLUE_STUB"] if f.endswith(".c") else None))
            objs.append(o)

        def one(j):
            r = sh(j[0])
            if r.returncode and j[1]:
                r = sh(j[1])
            o = j[0][-1]
            if r.returncode == 0 and os.path.basename(o).startswith("h_glue_"):
                # helpers of the library's files that such a file includes are its own affair
                own = [x for x in re.findall(r"^[0-9a-f]+ [TDBRC] (\w+)$", sh(["nm", o]).stdout, re.M)
                       if not re.match(r"g[a-z]*_|__", x)]
                if own:
                    sh(["objcopy"] + ["--localize-symbol=" + x for x in own] + [o])
            return r
        with ThreadPoolExecutor(8) as ex:
            for j, r in zip(jobs, ex.map(one, jobs)):
                if r.returncode:
                    raise BuildError(" ".join(j[0]) + "\n" + r.stdout)
        wraps = KWRAPS if kern else WRAPS
        if variant == "tsan":
            # the sanitizer runtime calls some of these itself before it is up: redirect the library's calls only
            wraps = [w for w in WRAPS if w.startswith("jent_")]
            for o in objs:
                base = os.path.basename(o)
                if base.startswith("l_"):
                    m = ["--redefine-sym=%s=__wrap_%s" % (w, w) for w in WRAPS if w not in wraps]
                elif base == "h_shim.cpp.o":
                    m = ["--redefine-sym=__real_%s=%s" % (w, w) for w in WRAPS if w not in wraps]
                else:
                    continue
                r = sh(["objcopy"] + m + [o])
                if r.returncode:
                    raise BuildError(r.stdout)
        link = ["clang++", "-o", os.path.join(tmp, "t")] + v["link"] + objs + ["-lpthread", "-Wl,-z,now"] + \
               ["-Wl,--wrap=" + w for w in wraps]
        r = sh(link)
        if r.returncode and glue:  # the tree no longer offers what a glue file needs
            for which in ([g for g in glue if os.path.basename(g[0]) in r.stdout], glue):
                for g in which:
                    sh(g[1])
                r = sh(link)
                if r.returncode == 0:
                    break
        if r.returncode:
            raise BuildError(r.stdout)
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(exe):
                raise
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_env(variant, scratch):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0:second_deadlock_stack=1"
    return env


def campaign(exe, variant, spec, seed, secs, minc, thorough, scratch):
    out = os.path.join(scratch, "out.json")
    cmd = [exe, "--prop", spec, "--seed", str(seed), "--time", str(secs), "--min", str(minc), "--workers", "8", "--out", out,
           "--scratch", scratch, "--shrink", "120" if thorough else "45"]
    if thorough:
        cmd.append("--thorough")
    if variant in ("san", "tsan", "kmodsan"):
        cmd.append("--san")
    # address layout is fixed so that a run depends on code and seed alone
    r = subprocess.run(["setarch", "-R"] + cmd if shutil.which("setarch") and ok_setarch() else cmd,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=run_env(variant, scratch))
    sys.stderr.write(r.stderr[-4000:])
    if not os.path.exists(out):
        raise RuntimeError("harness produced no result (exit %d)\n%s" % (r.returncode, r.stderr[-3000:]))
    with open(out) as f:
        res = json.load(f)
    os.unlink(out)
    return res


_sa = None


def ok_setarch():
    global _sa
    if _sa is None:
        _sa = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    return _sa


def check(pid, tier, seed, tscale):
    t0 = time.time()
    plan = PLAN[pid]
    thorough = tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    subs, samples, cases, distinct, nontriv, viol = [], [], 0, 0, 0, []
    known = [l for l in open(os.path.join(V, "KNOWN_FINDINGS")) if l.startswith("known: property=%s " % pid)]
    try:
        phases = plan["phases"]
        with ThreadPoolExecutor(2) as ex:   # build the variants side by side
            exes = list(ex.map(lambda p: build(p[0], p[1]), phases))
        for (variant, files, secs, tsecs, minc), exe in zip(phases, exes):
            s = (tsecs if thorough else secs) * tscale
            res = campaign(exe, variant, pid, seed * 1000 + len(subs), s, minc, thorough, scratch)
            for sub in res["subs"]:
                sub["variant"] = variant
                for x in sub.pop("samples"):
                    if len(samples) < 12:
                        samples.append("%s/%s: %s" % (sub["name"], variant, x[:600]))
                subs.append(sub)
            cases += res["cases"]
            distinct += res["distinct"]
            nontriv += res["nontrivial"]
            if res["found"]:
                f = res["found"]
                rp = os.path.join(V, "replays", "%s-%s-%d.replay" % (pid, f["sub"], seed))
                with open(rp, "w") as fp:
                    fp.write("prop %s/%s\nvariant %s\nfiles %s\n" % (pid, f["sub"], variant, " ".join(files)))
                    for l in f["msg"].split("\n"):
                        fp.write("# %s\n" % l)
                    for c in f["choices"]:
                        fp.write("c %d\n" % c)
                viol.append(dict(sub=f["sub"], variant=variant, message=f["msg"][:3000], replay=rp))
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    rule = "; ".join("%s: %s" % (n, r) for n, r in {s["name"]: s["rule"] for s in subs}.items())
    ev = dict(property=pid, tier=tier, seed=seed, level=plan["level"],
              coverage=dict(evaluations=cases, distinct_nontrivial=distinct, nontrivial=nontriv, rule=rule, samples=samples,
                            subs=subs),
              assumptions=plan["assumptions"], wall_s=round(time.time() - t0, 1), violations=viol)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in known:
        print("KNOWN-FINDING: " + l[len("known: "):].strip())
    print("%s %s: %d cases, %d non-trivial, %d distinct, %.0f s" % (pid, tier, cases, nontriv, distinct, time.time() - t0))
    for s in subs:
        print("  %-12s %-6s cases %-7d nontrivial %-7d discarded %-5d unreproduced %d edges %d %s" % (
            s["name"], s["variant"], s["cases"], s["nontrivial"], s["discarded"], s["unreproduced"], s["edges"], s["labels"]))
    for v in viol:
        print(v["message"])
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    return 1 if viol else 0


def replay(path):
    variant, files, = "fast", []
    for l in open(path):
        if l.startswith("variant "):
            variant = l.split()[1]
        elif l.startswith("files "):
            files = l.split()[1:]
    exe = build(variant, files)
    cmd = [exe, "--replay", path] + (["--san"] if variant in ("san", "tsan", "kmodsan") else [])
    return subprocess.run((["setarch", "-R"] if ok_setarch() else []) + cmd, env=run_env(variant, "/tmp")).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "setup"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--tscale", type=float, default=1.0)
    a = ap.parse_args()
    if a.cmd == "setup":
        for t in ("clang", "clang++"):
            if not shutil.which(t):
                print("missing " + t)
                return 1
        return 0
    if a.cmd == "replay":
        return replay(a.arg)
    try:
        return check(a.arg, a.tier, a.seed, a.tscale)
    except BuildError as e:
        print("BUILD FAILED (no verdict)\n" + str(e)[-6000:])
        return 3


if __name__ == "__main__":
    sys.exit(main())
