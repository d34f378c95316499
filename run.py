#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks:  run.py <ID> [--tier quick|thorough] [--seed N]
                                             run.py replay <file>
Builds the harness of the property from /repo's current headers with the sanitizer set the
property needs, runs the workload in parallel shards, collects what the monitors observed,
writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violation, 2 the machinery itself failed."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
HARN = os.path.join(HERE, "harness")
NPROC = os.cpu_count() or 4
sys.path.insert(0, HERE)
from checks import CHECKS, TYPES  # noqa: E402

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none")
SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # additionally annotates the unused capacity of vectors
    "asanv": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_mpi = {}


def mpiflags():
    if not _mpi:
        _mpi["c"] = sh(["mpicxx", "--showme:compile"]).stdout.split()
        _mpi["l"] = sh(["mpicxx", "--showme:link"]).stdout.split()
    return _mpi["c"], _mpi["l"]


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), HARN):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


SLOTS = threading.BoundedSemaphore(NPROC)


def compile_unit(args):
    src, outp, flags, log = args
    if os.path.exists(outp):
        return None
    with SLOTS:
        return compile_one(src, outp, flags)


def compile_one(src, outp, flags):
    tmp = outp + ".tmp%d.%d.o" % (os.getpid(), threading.get_ident())
    r = sh(["g++", "-std=c++14", "-w", "-fopenmp", "-c", src, "-o", tmp] + flags)
    if r.returncode:
        return "compile of %s failed:\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, outp)
    return None


def build(cid, cfg, tier):
    """returns {type: executable}"""
    mc, ml = mpiflags()
    san = cfg.get("san", "asan")
    th = tree_hash()
    bdir = os.path.join(BUILD, th)
    os.makedirs(bdir, exist_ok=True)
    # drop stale builds (development convenience)
    for d in glob.glob(os.path.join(BUILD, "*")):
        if d != bdir and os.path.isdir(d) and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)
    base = SAN[san] + mc + ["-I" + os.path.join(REPO, "include"), "-I" + HARN] + cfg.get("flags", [])
    jobs = []
    exes = {}
    more = {}
    tag = hashlib.sha256(" ".join(base).encode()).hexdigest()[:8]
    extra = []
    for e in cfg.get("extra_src", ["blas_monitor.cpp"] if san.startswith("asan") else []):
        o = os.path.join(bdir, "%s-%s.o" % (os.path.splitext(e)[0], tag))
        ef = SAN["plain"] + ["-I" + HARN] if e.startswith("nosan_") else base
        jobs.append((os.path.join(HARN, e), o, ef, None))
        extra.append(o)
    for src in cfg["src"]:
        for t in cfg.get("types_of", {}).get(src, cfg.get("types", "dzsc")):
            o = os.path.join(bdir, "%s-%s-%s.o" % (os.path.splitext(src)[0], t, tag))
            jobs.append((os.path.join(HARN, src), o, base + ["-DVT=" + TYPES[t]], None))
            exes[(src, t)] = o
            for e, ef in cfg.get("typed_extra", []):  # further units of the same program, compiled for its scalar type
                q = os.path.join(bdir, "%s-%s-%s.o" % (os.path.splitext(e)[0], t, tag))
                jobs.append((os.path.join(HARN, e), q, base + ["-DVT=" + TYPES[t]] + ef, None))
                more.setdefault(o, []).append(q)
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(compile_unit, jobs) if e]
    if errs:
        raise HarnessError(errs[0])
    res = {}

    def link(kv):
        (src, t), o = kv
        exe = o[:-2] + ".exe"
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            r = sh(["g++"] + SAN[san] + ["-fopenmp", o] + more.get(o, []) + extra + ["-o", tmp] + cfg.get("ldflags", []) + ml + ["-llapack", "-lblas", "-ldl", "-lpthread"])
            if r.returncode:
                return "link failed: " + r.stdout[-3000:]
            os.replace(tmp, exe)
        res[(src, t)] = exe
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(link, exes.items()) if e]
    if errs:
        raise HarnessError(errs[0])
    return res


def run_env(cfg, scratch):
    env = dict(os.environ)
    env.update(MPI_ENV)
    env["OMP_WAIT_POLICY"] = "passive"
    env["OMP_NUM_THREADS"] = str(cfg.get("threads", 2))
    env["OMP_DYNAMIC"] = "false"
    env["TMPDIR"] = scratch
    env["OMPI_MCA_orte_tmpdir_base"] = scratch
    # malloc fill 0xff: uninitialised floating point data reads as NaN, which no oracle accepts
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=268435456:malloc_fill_byte=255:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:suppressions=" + os.path.join(HARN, "tsan.supp")
    env.update(cfg.get("env", {}))
    return env


VGFRAME = re.compile(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((/\S+?):(\d+)\)")
FRAME = re.compile(r"#\d+\s+0x[0-9a-f]+\s+(?:in\s+)?(.+?)\s+(/\S+?):(\d+)")


def crash_signature(err):
    kind = "abort"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    elif "runtime error:" in err:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.search(r"runtime error: (.{0,40})", err).group(1).lower()).strip("-")
        kind = re.sub(r"(-x)?-[0-9a-f]+$", "", kind)
    elif "VF-BLAS-MONITOR" in err:
        kind = "blas-" + ("xerbla" if "invalid argument" in err else "bounds")
    elif "ThreadSanitizer" in err:
        m = re.search(r"ThreadSanitizer: ([a-z -]+)", err)
        kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    elif re.search(r"==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid|Mismatched|Source and dest)", err):
        kind = "memcheck-" + re.sub(r"[^a-z]+", "-", re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Syscall param|Invalid|Mismatched|Source and dest)[ a-z]*)", err).group(1).lower()).strip("-")
    elif "Assertion" in err:
        kind = "assert"
    elif "terminate called" in err:
        kind = "exception"
    where = ""
    for m in (VGFRAME if kind.startswith("memcheck") else FRAME).finditer(err):
        if "/include/htool/" in m.group(2):
            fn = re.sub(r"<.*", "", m.group(1)).split("(")[0].split("::")[-1].strip()
            where = os.path.basename(m.group(2)) + ":" + fn
            break
    return "crash:" + kind + (":" + where if where else "")


def run_shard(exe, cfg, tier, seed, a, b, idx, scratch, deadline, ranks=None):
    """run cases [a,b); restart after crashes. Returns (violations, summaries, notes)"""
    viols, sums, notes = [], [], []
    restarts = 0
    k = a
    while k < b:
        outp = os.path.join(scratch, "out.%d.%d" % (idx, k))
        prog = os.path.join(scratch, "prog.%d" % idx)
        sdir = os.path.join(scratch, "s%d" % idx)
        os.makedirs(sdir, exist_ok=True)
        for f in glob.glob(outp + "*") + [prog]:
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "--from", str(k), "--to", str(b), "--seed", str(seed), "--tier", tier, "--out", outp, "--prog", prog, "--scratch", sdir]
        if cfg.get("mpi"):
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(ranks)] + cmd
        if cfg.get("wrap"):
            cmd = cfg["wrap"] + cmd
        env = run_env(cfg, scratch)
        env["VF_UNTIL"] = str(int(deadline - 60))  # a slow machine explores less instead of running into the limit
        tmo = max(30, deadline - time.time())
        errp = os.path.join(scratch, "err.%d" % idx)
        with open(errp, "w") as ef, open(os.path.join(scratch, "stdout.%d" % idx), "w") as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, cwd=sdir, start_new_session=True)
            try:
                rc = p.wait(timeout=tmo)
                hung = False
            except subprocess.TimeoutExpired:
                hung = True
                for sig, wait in ((signal.SIGTERM, 8), (signal.SIGKILL, 30)):  # mpirun needs SIGTERM to end its ranks
                    try:
                        os.killpg(p.pid, sig)
                    except OSError:
                        pass
                    try:
                        p.wait(timeout=wait)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                rc = -9
        for f in glob.glob(outp + "*"):
            for line in open(f, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "v" in d:
                    d["ranks"] = ranks
                    viols.append(d)
                elif "summary" in d:
                    sums.append(d)
        err = open(errp, errors="replace").read()
        if rc == 0:
            break
        if rc == 66 and cfg.get("san") == "tsan":
            break  # reports are parsed by the caller below
        cur, desc = k, ""
        if os.path.exists(prog):
            t = open(prog, errors="replace").read().split("\n", 1)
            if t[0].strip().isdigit():
                cur = int(t[0])
                desc = t[1].strip() if len(t) > 1 else ""
            else:
                notes.append("no progress recorded")
        else:
            raise HarnessError("harness did not start (rc %s): %s" % (rc, err[-3000:]))
        if hung:
            notes.append("shard %d timed out at case %d" % (idx, cur))
            viols.append(dict(hang=1, case=cur, key="hang", msg="no progress within the watchdog", desc=desc, ranks=ranks, exe=exe))
            break
        viols.append(dict(case=cur, key=crash_signature(err), msg=("rc=%s " % rc) + err[-5000:] if len(err) < 9000 else ("rc=%s " % rc) + err[:6000] + "\n...\n" + err[-2500:], desc=desc, ranks=ranks,
                          type=os.path.basename(exe).split("-")[-2]))
        restarts += 1
        if restarts >= cfg.get("max_restarts", 4):
            notes.append("stopped shard %d after %d crashes" % (idx, restarts))
            break
        k = cur + 1
    return viols, sums, notes


def parse_tsan(scratch, idx):
    res = {}
    p = os.path.join(scratch, "err.%d" % idx)
    txt = open(p, errors="replace").read() if os.path.exists(p) else ""
    for block in txt.split("=================="):
        if "WARNING: ThreadSanitizer" not in block:
            continue
        res.setdefault(crash_signature(block), block.strip()[:4000])
    return res


def run_check(cid, tier, seed, only=None):
    t0 = time.time()
    cfg = CHECKS[cid]
    mpiflags()
    stages = [dict(cfg, **st) for st in cfg.get("stages", [{}])]
    with ThreadPoolExecutor(len(stages)) as ex:  # compilations of all stages share the compile slots
        built = list(ex.map(lambda c: build(cid, c, tier), stages))
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % cid, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    budget = cfg.get("timeout", {"quick": 600, "thorough": 3600})[tier]
    deadline = time.time() + budget
    tasks = []
    idx = 0
    viols, sums, notes = [], [], []
    try:
        for si, (sc, exes) in enumerate(zip(stages, built)):
            for (src, t), exe in sorted(exes.items()):
                n = sc["cases"][tier]
                if isinstance(n, dict):
                    n = n.get(t, n.get("*", 0))
                if only is not None:
                    if t != only["type"] or only.get("stage", 0) != si or (only.get("src") and only["src"] != src):
                        continue
                for ranks in (sc.get("ranks", {}).get(tier, [2]) if sc.get("mpi") else [None]):
                    if only is not None and sc.get("mpi") and only.get("ranks") not in (None, ranks):
                        continue
                    a, b = (0, n) if only is None else (only["case"], only["case"] + 1)
                    nsh = 1 if only is not None or sc.get("mpi") else max(1, min(sc.get("shards", 2 if len(exes) >= 4 else 8 // max(1, len(exes))), b - a))
                    for s in range(nsh):
                        lo = a + (b - a) * s // nsh
                        hi = a + (b - a) * (s + 1) // nsh
                        if lo < hi:
                            tasks.append((exe, sc, tier, seed, lo, hi, idx, scratch, deadline, ranks, (si, src)))
                            idx += 1
        par = cfg.get("parallel", NPROC)
        with ThreadPoolExecutor(par) as ex:
            for (v, s, n_), tk in zip(ex.map(lambda a: run_shard(*a[:-1]), tasks), tasks):
                for x in v:
                    x["stage"], x["src"] = tk[10]
                viols += v
                sums += s
                notes += n_
        for tk in tasks:
            if tk[1].get("san") == "tsan":
                for key, blk in parse_tsan(scratch, tk[6]).items():
                    viols.append(dict(case=tk[4], key=key, msg=blk, desc="thread sanitizer report", type=os.path.basename(tk[0]).split("-")[-2], stage=tk[10][0], src=tk[10][1]))
        # hangs: confirm once, alone, before reporting
        conf = []
        for v in viols:
            if v.get("hang"):
                vv, ss, nn = run_shard(v["exe"], stages[v["stage"]], tier, seed, v["case"], v["case"] + 1, 900, scratch, time.time() + 120, v.get("ranks"))
                sums += ss
                for x in vv:
                    x["stage"], x["src"] = v["stage"], v["src"]
                if any(x.get("hang") for x in vv):
                    v.pop("exe")
                    v["type"] = "?"
                    conf.append(v)
                else:
                    conf += vv
                    notes.append("case %d: watchdog fired once, not reproduced: inconclusive" % v["case"])
            else:
                conf.append(v)
        viols = conf
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # aggregate
    ev = sum(s["evals"] for s in sums if s.get("rank", 0) == 0)
    sigs = set()
    counters, maxima, samples = {}, {}, []
    for s in sums:
        sigs.update(s["sigs"])
        for c, n in s["counters"].items():
            counters[c] = counters.get(c, 0) + n
        for c, n in s["maxima"].items():
            maxima[c] = max(maxima.get(c, 0), n)
        for x in s["samples"]:
            if len(samples) < 6 and s.get("rank", 0) == 0:
                samples.append(x)
    if ev == 0 and not viols and only is None:
        raise HarnessError("no case was evaluated: " + "; ".join(notes))
    if not sigs and not viols and only is None:
        raise HarnessError("the monitors observed no non-trivial case")
    for need in cfg.get("require", []):
        if not counters.get(need) and not viols and only is None:
            raise HarnessError("monitor counter %s stayed at zero" % need)
    known = {}
    kp = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kp):
        for k in json.load(open(kp)).get("findings", []):
            known[(k["property"], k["key"])] = k
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    new, seen, kf = [], {}, {}
    for v in viols:
        if (cid, v["key"]) in known:
            kf.setdefault(v["key"], v)
            continue
        if v["key"] not in seen:
            seen[v["key"]] = v
            new.append(v)
    lines = []
    if only is None:
        for f in glob.glob(os.path.join(EVID, "replay", cid + "-*.json")):
            os.unlink(f)
    for i, v in enumerate(new):
        rp = os.path.join("evidence", "replay", "%s-%d.json" % (cid, i))
        if only is None:
            v.update(property=cid, seed=seed, tier=tier, replay_cmd="python3 run.py replay " + rp)
            json.dump(v, open(os.path.join(HERE, rp), "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (cid, rp))
        print("  key=%s type=%s case=%s ranks=%s" % (v["key"], v.get("type"), v.get("case"), v.get("ranks")))
        print("  desc: %s" % v.get("desc", "")[:700])
        print("  msg: %s" % (v.get("msg", "")[:1500]))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (cid, known[(cid, k)]["what"]))
    wall = time.time() - t0
    if only is None:
        evd = dict(property=cid, tier=tier, seed=seed, level="exploration",
                   coverage=dict(evaluations=ev, distinct_nontrivial=len(sigs), rule=cfg["rule"], samples=samples or ["(none completed)"],
                                 observed=counters, max_error_to_bound={k[6:]: v for k, v in maxima.items() if k.startswith("ratio:")},
                                 maxima={k: v for k, v in maxima.items() if not k.startswith("ratio:")},
                                 scalar_types=sorted({s["type"] for s in sums}), ranks=sorted({r for st in stages for r in (st.get("ranks", {}).get(tier) or [])}) or None, build_s=round(tb, 1), notes=notes),
                   assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
        json.dump(evd, open(os.path.join(EVID, cid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print("%s %s: %d cases, %d distinct non-trivial, %d violation(s), build %.1fs, total %.1fs %s" % (cid, tier, ev, len(sigs), len(new), tb, wall, "; ".join(notes)))
    return 1 if new else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        v = json.load(open(a[1]))
        return run_check(v["property"], v["tier"], v["seed"], only=dict(case=v["case"], type=v.get("type", "d"), ranks=v.get("ranks"), stage=v.get("stage", 0), src=v.get("src")))
    if a[0] == "setup":
        for t in ("g++", "mpicxx", "mpirun", "valgrind"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        print("setup ok: harnesses are rebuilt from %s by each check" % REPO)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        rcs = [run_check(c, tier, seed) for c in (a[0].split(","))]
        return max(rcs)
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
