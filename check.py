#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Builds the harnesses that property needs from /repo's current working tree (own build folder, own
compiler flags), runs its workloads in parallel under their monitors, writes evidence/<id>.json and
prints one VIOLATION line (exit 1) if a monitor or a sanitizer reported something.
Exit 0: held on everything explored.  Exit 2: the check itself could not run (no verdict)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from plan import PLAN, BINARIES, VARIANTS   # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


class Trouble(Exception):
    pass


# --- build -----------------------------------------------------------------------------------------
def lib_sources():
    c = sorted(f for f in glob.glob(REPO + "/filehash/*.c") if os.path.basename(f).startswith("ffdb_"))
    cxx = sorted(f for f in glob.glob(REPO + "/src/*.cpp") if "Test" not in os.path.basename(f))
    if not c:
        raise Trouble("no C sources found under %s/filehash" % REPO)
    return c, cxx


def build(names, out):
    """compile every library/harness object once per variant, then link"""
    c_src, cxx_src = lib_sources()
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + REPO + "/filehash", "-I" + REPO + "/src", "-I" + out, "-I" + VERIF + "/mon"]
    internal = os.path.join(out, "filedb_config_internal.h")
    with open(internal, "w") as f:
        f.write("".join('#define %s "x"\n' % d for d in ("PACKAGE", "PACKAGE_BUGREPORT", "PACKAGE_NAME", "PACKAGE_STRING", "PACKAGE_TARNAME", "PACKAGE_VERSION", "VERSION")))
    todo, links = {}, []

    def obj(src, variant, extra=()):
        v = VARIANTS[variant]
        cpp = src.endswith(".cpp")
        key = hashlib.sha1((src + variant + " ".join(extra)).encode()).hexdigest()[:10]
        o = os.path.join(out, "%s-%s-%s.o" % (os.path.basename(src), variant, key))
        base = ["-D_FILE_OFFSET_BITS=64", "-D_FILEDB_LITTLE_ENDIAN", "-pthread", "-w", "-g", "-fno-omit-frame-pointer"]
        std = ["-std=c++17"] if src.startswith(VERIF) else ["-std=c++14"]
        todo[o] = ([v["cxx"] if cpp else v["cc"]] + v["flags"] + base + (std if cpp else []) + inc + list(extra) + ["-c", src, "-o", o])
        return o

    for n in names:
        b = BINARIES[n]
        v = b["variant"]
        libx = b.get("libflags", [])
        objs = [obj(s, v, libx) for s in c_src]
        if b.get("cxxlib"):
            objs += [obj(s, v, libx) for s in cxx_src]
        objs += [obj(os.path.join(VERIF, "mon", s), v, b.get("flags", [])) for s in b["src"]]
        links.append((n, [VARIANTS[v]["cxx"]] + VARIANTS[v]["flags"] + ["-pthread", "-g"] + objs + b.get("ldflags", []) + ["-o", os.path.join(out, n)]))

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Trouble("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, todo.values()))
        list(ex.map(run, [l[1] for l in links]))


# --- run -------------------------------------------------------------------------------------------
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks={leaks}:handle_abort={abort}:allocator_may_return_null=1:max_allocation_size_mb=2500:hard_rss_limit_mb=6000:malloc_context_size=12:detect_stack_use_after_return=1:log_path={log}",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:log_path={log}",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4:log_path={log}",
    "LSAN_OPTIONS": "exitcode=99:max_leaks=5",
    "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "",
}


def asleep(sid):
    """CPU ticks used so far by the session if every one of its threads is asleep, else None (running, runnable or waiting for the disk)"""
    total, seen = 0, 0
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            st = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
            if int(st[3]) != sid:
                continue
            for t in os.listdir("/proc/%s/task" % d):
                f = open("/proc/%s/task/%s/stat" % (d, t)).read().rsplit(")", 1)[1].split()
                if f[0] not in "SZ":
                    return None
                total, seen = total + int(f[11]) + int(f[12]), seen + 1
        except (OSError, IndexError, ValueError):
            continue
    return total if seen else None


def run_cmd(job, frm, to, scratch, bindir, trace=False, timeout=None):
    """one process; returns dict(rc, out, san, err, timeout, stats, last)"""
    d = tempfile.mkdtemp(dir=scratch)
    os.makedirs(d + "/w")
    log = d + "/san"
    env = dict(os.environ)
    for k, v in SAN_ENV.items():
        if v:
            env[k] = v.format(leaks=1 if job.get("leaks") else 0, log=log, abort=job.get("abort", 1))
    if os.path.exists(VERIF + "/mon/lsan.supp"):
        env["LSAN_OPTIONS"] += ":suppressions=" + VERIF + "/mon/lsan.supp"
    cmd = list(job.get("wrap", []))
    cmd = [c.format(log=log) for c in cmd]
    cmd += [os.path.join(bindir, job["bin"]), "--profile", job["profile"], "--seed", str(SEED), "--from", str(frm), "--to", str(to),
            "--dir", d + "/w", "--stats", d + "/stats", "--progress", d + "/progress"] + [a.format(verif=VERIF) for a in job.get("args", [])]
    if trace:
        cmd.append("--trace")
    r = {"cmd": " ".join(cmd), "timeout": False, "stats": None, "last": frm}
    with open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=d + "/w", start_new_session=True)
        end, idle, used0 = time.time() + (timeout or job.get("timeout", 120)), 0, None
        while True:
            try:
                r["rc"] = p.wait(2)
                break
            except subprocess.TimeoutExpired:
                pass
            used = asleep(p.pid)
            if used is None or used0 is None or used - used0 > 5:
                idle, used0 = 0, used
            else:
                idle += 1
            if idle >= 15 or time.time() > end:
                r["timeout"], r["blocked"] = True, idle >= 15
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                r["rc"] = p.wait()
                break
    rd = lambda f: open(f, errors="replace").read() if os.path.exists(f) else ""
    r["out"], r["err"] = rd(d + "/out")[-20000:], rd(d + "/err")[-4000:]
    r["san"] = "".join(rd(f) for f in sorted(glob.glob(log + "*")))[:12000]
    try:
        r["last"] = int(rd(d + "/progress").split()[0])
    except (IndexError, ValueError):
        pass
    try:
        r["stats"] = json.loads(rd(d + "/stats"))
    except ValueError:
        pass
    shutil.rmtree(d, ignore_errors=True)
    return r


def judge(r):
    """None = quiet, else (kind, text)"""
    if r["timeout"]:
        if r.get("blocked"):
            return ("blocked", "every thread asleep for 30 s with nothing left to wake it: the operation under way never returns")
        return ("hang", "did not finish within the time limit")
    if r["rc"] == 0 and "DONE" in r["out"] and not san_report(r["san"]):
        return None
    m = re.search(r"^MONITOR (\S+) (.*)$", r["out"], re.M)
    if r["rc"] == 88:
        raise Trouble("harness: " + r["out"][-500:])
    if r["rc"] == 77 and m:
        return ("monitor:" + m.group(1), m.group(2))
    s = san_report(r["san"])
    if s:
        return ("sanitizer", s)
    if r["rc"] < 0:
        return ("signal", "process ended by signal %d; %s" % (-r["rc"], r["err"].strip().splitlines()[-1:] or ""))
    return ("exit", "process ended with status %d in the middle of a legal history; %s" % (r["rc"], r["err"].strip().splitlines()[-1:] or ""))


def san_report(t):
    for pat in (r"runtime error: .*", r"ERROR: AddressSanitizer: .*", r"ERROR: LeakSanitizer: .*", r"WARNING: ThreadSanitizer: .*", r"AddressSanitizer: hard rss limit.*",
                r"(Invalid (read|write) of size.*|Conditional jump or move depends.*|Use of uninitialised.*|Syscall param .*uninitialised.*|Syscall param .*unaddressable.*)"):
        m = re.search(pat, t)
        if m:
            summ = re.search(r"SUMMARY: .*", t)
            frame = re.search(r"#0 .*?in (\S+) .*|by 0x\S+: (\S+)", t)
            return m.group(0)[:200] + (" | " + summ.group(0)[:200] if summ else "") + ("" if summ or not frame else " | " + frame.group(0)[:120])
    return None


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    plan = PLAN[pid]
    jobs = [dict(j) for j in plan["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    bindir = os.path.join(VERIF, "build", "%s-%d" % (pid, os.getpid()))
    scratch = tempfile.mkdtemp(prefix="filedb-%s-" % pid)
    viol = None
    trouble = None
    agg = {"counts": {}, "sigs": set(), "cases": set(), "samples": []}
    lock = threading.Lock()
    ran = {}
    try:
        build(sorted({j["bin"] for j in jobs}), bindir)
        tb = time.time()
        budget = plan.get("budget", {}).get(tier, 240 if tier == "quick" else 600)
        chunks = []
        for j in jobs:
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = max(1, int(j["n"][0 if tier == "quick" else 1] * scale))
            if j.get("first") and scale < 1:
                continue
            if isinstance(j.get("timeout"), tuple):
                j["timeout"] = j["timeout"][0 if tier == "quick" else 1]
            ch = j.get("chunk", 10)
            chunks.append([(j, a, min(a + ch, n)) for a in range(0, n, ch)])
        # interleave the jobs so that every profile gets its share before the deadline
        order = []
        total = sum(len(c) for c in chunks)
        keyed = [(0 if x[0].get("first") else (i + 0.5) / len(c), k, x) for k, c in enumerate(chunks) for i, x in enumerate(c)]
        order = [x for _, _, x in sorted(keyed, key=lambda t: (t[0], t[1]))]
        stop = threading.Event()

        def one(x):
            j, a, b = x
            if stop.is_set() or time.time() - tb > budget:
                return None
            r = run_cmd(j, a, b, scratch, bindir)
            if j.get("first") and (r["timeout"] or r["rc"] == -9):     # the very large values: a machine too slow or too small for them is no finding
                with lock:
                    agg["counts"]["skipped_slow"] = agg["counts"].get("skipped_slow", 0) + 1
                return None
            v = judge(r)
            if v and v[0] == "hang":        # a slow machine is no endless loop: repeat alone with a long limit
                if stop.is_set():
                    return None
                r2 = run_cmd(j, r["last"], r["last"] + 1, scratch, bindir, timeout=max(120, j.get("timeout", 120)))
                v = judge(r2)
                if v:
                    r = r2
                    r["last"] = r["last"]
            elif r["rc"] == -9 and not r["timeout"]:
                r2 = run_cmd(j, r["last"], r["last"] + 1, scratch, bindir)
                v = judge(r2)
                if v and r2["rc"] == -9:
                    raise Trouble("killed by the system (memory?)")
                r = r2
            with lock:
                s = r["stats"] or {}
                for k, n in s.get("counts", {}).items():
                    agg["counts"][k] = agg["counts"].get(k, 0) + n
                agg["sigs"].update(s.get("sigs", []))
                agg["cases"].update("%s/%s" % (j["profile"], c) for c in s.get("cases", []))
                if len(agg["samples"]) < 12:
                    agg["samples"] += [j["profile"] + ": " + q for q in s.get("samples", [])][:2]
                ran[j["profile"]] = ran.get(j["profile"], 0) + (b - a)
            if v:
                stop.set()
                return (j, r, v)
            return None
        with cf.ThreadPoolExecutor(max(1, JOBS // plan.get("weight", 1))) as ex:
            for f in [ex.submit(one, x) for x in order]:
                res = f.result()
                if res and not viol:
                    viol = res
        if viol:
            j, r, v = viol
            rep = os.path.join(VERIF, "replays")
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, "%s-%s-%d.txt" % (pid, j["profile"], r["last"]))
            single = run_cmd(j, r["last"], r["last"] + 1, scratch, bindir, trace=True, timeout=20 if v[0] in ("hang", "blocked") else min(150, j.get("timeout", 120)))
            v1 = None
            try:
                v1 = judge(single)
            except Trouble:
                pass
            with open(path, "w") as f:
                f.write("property %s\nworkload %s case %d seed %d\nverdict %s: %s\ncommand (binary from check.py's build): %s\n" % (pid, j["profile"], r["last"], SEED, v[0], v[1], single["cmd"]))
                f.write("replayed alone: %s\n" % (v1 or "quiet (depends on the schedule or on preceding cases)",))
                f.write("\n--- sanitizer log\n%s\n--- operations of the replay\n%s\n--- stderr\n%s\n" % (r["san"] or single["san"], single["out"], r["err"]))
    except Trouble as e:
        trouble = str(e)
    finally:
        shutil.rmtree(bindir, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    if trouble:
        print("TROUBLE %s: %s" % (pid, trouble))
        sys.exit(2)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    c = agg["counts"]
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": plan["level"],
          "coverage": {"evaluations": int(c.get("cases", 0)), "distinct_nontrivial": len(agg["cases"]), "rule": plan["rule"],
                       "samples": agg["samples"][:12], "observed": dict(sorted(c.items())), "cases_per_workload": ran,
                       "distinct_behaviours": len(agg["sigs"]), "behaviour_samples": sorted(agg["sigs"])[:: max(1, len(agg["sigs"]) // 25)][:30]},
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for line in open(VERIF + "/known-findings.txt"):
        if line.startswith("KNOWN-FINDING: property=%s " % pid):
            print(line.strip())
    if viol:
        print("%s: %s (workload %s, case %d)" % (viol[2][0], viol[2][1], viol[0]["profile"], viol[1]["last"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    print("%s %s: quiet; %d cases, %d distinct non-trivial, %d behaviours, %.0f s" % (pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(agg["sigs"]), time.time() - T0))


if __name__ == "__main__":
    main()
