"""Check driver: compiles the harnesses of a property from /repo's current
sources, executes every entry symbolically, replays counterexamples natively and
writes the evidence file."""
import gc
import json, faulthandler
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
DUNE = "/opt/dune/venv"
NPROC = int(os.environ.get("VP_JOBS", "8"))
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
if os.environ.get("VP_FH"): faulthandler.dump_traceback_later(int(os.environ["VP_FH"]), exit=True)


def flags(cfgdir):
    return ["-std=c++20", "-DHAVE_CONFIG_H", "-I" + cfgdir, "-I" + os.path.join(ROOT, "harness", "pymock"), "-I" + REPO, "-I" + DUNE + "/include",
            "-I" + os.path.join(ROOT, "harness"), "-w"]


def config_dir(tmp):
    """config.h of the configured build, or a minimal stand-in"""
    d = os.path.join(tmp, "cfg")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(HERE, "config.h"), os.path.join(d, "config.h"))
    return d


def clang_ir(src, out, cfgdir, extra):
    cmd = ["clang++", "-O1", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-ffp-contract=off", "-fno-math-errno", "-g0"] + flags(cfgdir) + extra + [src, "-o", out]
    return subprocess.run(cmd, capture_output=True, text=True)


def runtime_ir(out):
    """parts of the C++ runtime library that the headers leave to the shared library"""
    return clang_ir(os.path.join(HERE, "rt.cc"), out, HERE, [])


def link_runtime(bc, rt):
    r = subprocess.run(["llvm-link", bc, "--only-needed", rt, "-o", bc + ".l"], capture_output=True, text=True)
    if r.returncode == 0:
        os.replace(bc + ".l", bc)
    return r


def native(srcs, out, cfgdir, extra, san):
    objs = []
    f = ["-O1", "-g"] + (["-fsanitize=" + (san if san is not True else "address"), "-fno-omit-frame-pointer"] if san else [])
    jobs = []
    for s in srcs + [os.path.join(ROOT, "harness", "vp_native.cc")]:
        o = out + "." + os.path.basename(s) + ".o"
        objs.append(o)
        jobs.append(["g++"] + f + flags(cfgdir) + extra + ["-c", s, "-o", o])
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs):
            if r.returncode:
                return r
    libs = ["-L" + DUNE + "/lib", "-Wl,-rpath," + DUNE + "/lib", "-ldunecommon", "-ldl", "-llapack", "-lblas", "-pthread"]
    r = subprocess.run(["g++"] + f + ["-rdynamic"] + objs + libs + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        libs = [l for l in libs if l not in ("-llapack", "-lblas")]
        r = subprocess.run(["g++"] + f + ["-rdynamic"] + objs + libs + ["-o", out], capture_output=True, text=True)
    return r


# ---------------------------------------------------------------- exploration of one bitcode file

def explore(bc, opts, outpath, tier, jobfds, only, budget):
    """runs in its own process: load the module, run the global constructors,
    then one forked process per entry"""
    import core
    import trans
    import stubs
    E = core.E
    E.ieee = opts.get("ieee", False)
    E.timeout = opts.get("timeout", 20000)
    E.maxconc = opts.get("maxconc", 5000)
    E.outfd = os.open(outpath, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    E.jobr, E.jobw = jobfds
    stubs.TIER = tier
    m = trans.Module(bc)
    stubs.install(m)
    if opts.get("rounding"):
        import rounding
        rounding.install(m)
    entries = sorted(n[4:] for n in m.byname if n.startswith("vpe_"))
    if only:
        entries = [e for e in entries if e in only]
    elif not tier:
        # entries named ..._T belong to the thorough tier
        entries = [e for e in entries if not e.endswith("_T")]
    E.steps[1] = 1 << 60
    run_ctors(m, E)
    E.steps[1] = opts.get("maxsteps", 3_000_000)
    scout(m, E, entries, opts.get("scout", 4))
    gc.collect()
    gc.freeze()
    pids = []
    for e in entries:
        while True:
            try:
                t = os.read(E.jobr, 1)
                break
            except BlockingIOError:
                time.sleep(0.02)
        pid = os.fork()
        if pid == 0:
            E.owntoken = True
            E.deadline = time.time() + budget
            signal.alarm(int(budget) + 60)
            run_entry(m, E, e)
            os._exit(0)
        pids.append((pid, e))
    for pid, e in pids:
        _, s = os.waitpid(pid, 0)
        if s:
            E.emit(dict(kind="crash", status=s, entry=e))


def scout(m, E, entries, seconds):
    """paths are processes and functions are translated when they are first
    called: find out which functions the entries reach by exploring for a short
    time, and translate them once for all paths"""
    if not seconds:
        return
    rd, wr = os.pipe()
    top = os.fork()
    if top == 0:
        os.setpgid(0, 0)
        os.close(rd)
        E.outfd = os.open("/dev/null", os.O_WRONLY)
        E.jobr, E.jobw = os.pipe()
        os.set_blocking(E.jobr, False)
        os.write(E.jobw, b"x" * NPROC)
        translate = m.translate

        def logged(n):
            f = translate(n)
            os.write(wr, (n + "\n").encode())
            return f
        m.translate = logged
        kids = []
        for e in entries:
            pid = os.fork()
            if pid == 0:
                E.owntoken = False
                E.deadline = time.time() + seconds
                signal.alarm(int(seconds) + 5)
                run_entry(m, E, e)
                os._exit(0)
            kids.append(pid)
        for k in kids:
            os.waitpid(k, 0)
        os._exit(0)
    try:
        os.setpgid(top, top)
    except OSError:
        pass
    os.close(wr)
    os.set_blocking(rd, False)
    names, stop, rest = [], time.time() + seconds, b""
    while time.time() < stop:
        try:
            d = os.read(rd, 1 << 16)
            if not d:
                break
            *full, rest = (rest + d).split(b"\n")
            names += [f.decode() for f in full]
        except BlockingIOError:
            time.sleep(0.01)
    try:
        os.killpg(top, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(top, 0)
    os.close(rd)
    for n in dict.fromkeys(names):
        try:
            m.callable(n)
        except Exception:
            pass


def run_ctors(m, E):
    import llvmc as L
    g = m.globals.get("llvm.global_ctors")
    if not g:
        return
    init = L.GetInitializer(g)
    n = L.GetNumOperands(init)
    fs = []
    for i in range(n):
        s = L.GetAggregateElement(init, i)
        fs.append((L.ConstIntGetZExtValue(L.GetAggregateElement(s, 0)), i, L.GetAggregateElement(s, 1)))
    for _, _, f in sorted(fs):
        m.callable(L.name(f))()


def run_entry(m, E, entry):
    import core
    from core import CxxThrow, PathEnd, MemError, EngineError
    from real import Inconclusive
    E.entry = entry
    emit0 = E.emit
    E.emit = lambda d: emit0(dict(d, entry=entry))
    status, detail = "ok", ""
    try:
        try:
            m.callable("vpe_" + entry)()
        except CxxThrow as ex:
            o = E.objs.get(ex.tinfo >> core.SHIFT)
            E.candidate("uncaught exception " + (o.name if o else "?"), None)
            status = "exception"
        except MemError as ex:
            E.candidate("memory error: " + str(ex), None)
            status = "memory"
    except PathEnd as ex:
        status, detail = ex.status, ex.detail
    except Inconclusive as ex:
        status, detail = "inconclusive", str(ex)
    except EngineError as ex:
        status, detail = "engine", str(ex) + where(ex)
    except RecursionError:
        status, detail = "engine", "recursion limit"
    except Exception as ex:
        status, detail = "engine", repr(ex) + where(ex)
    try:
        E.finish(status, detail)
    except Exception as ex:
        emit0(dict(kind="crash", status=-1, entry=entry, detail=repr(ex) + where(ex)))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    s = " <- ".join("%s:%d" % (f.filename.replace(HERE + "/", "")[:90], f.lineno) for f in reversed(tb[-6:]))
    return " @ " + s


# ---------------------------------------------------------------- replay

def write_sets(path, models):
    with open(path, "w") as f:
        for m in models:
            for name, kind, v in m:
                f.write("%s %s\n" % (name, v))
            f.write("--\n")


def run_native(exe, entry, models, tmp, tier, timeout=20, wrap=(), env={}):
    path = os.path.join(tmp, "in.%d.%s.txt" % (threading.get_ident(), entry))
    write_sets(path, models)
    env = dict(os.environ, VP_TIER=str(tier), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", **env)
    try:
        r = subprocess.run(list(wrap) + [exe, entry, path, str(timeout)], capture_output=True, text=True, env=env,
                           timeout=timeout * len(models) + 60)
        return r.stdout.splitlines(), r.stderr
    except subprocess.TimeoutExpired:
        return ["TIMEOUT"] * len(models), ""


def main():
    prop = sys.argv[1]
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    tier_name = args[0] if args else os.environ.get("VERIF_TIER", "quick")
    only = args[1:]
    verbose = "-v" in sys.argv
    keep = "-k" in sys.argv
    tier = 0 if tier_name == "quick" else 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    import registry
    cfg = registry.CHECKS[prop]
    if "python" in cfg:
        import pysym
        sys.exit(pysym.main(prop, tier, tier_name, cfg, seed, REPO, verbose))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    rc = 2
    try:
        rc = check(prop, tier, tier_name, cfg, only, seed, tmp, t0, verbose)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)
    sys.exit(rc)


def check(prop, tier, tier_name, cfg, only, seed, tmp, t0, verbose):
    cfgdir = config_dir(tmp)
    srcs = [os.path.join(ROOT, "harness", s) for s in cfg["src"]]
    units = []
    for s in srcs:
        for i, d in enumerate(cfg.get("variants", [[]])):
            units.append((s, d, os.path.join(tmp, os.path.basename(s) + ".%d.bc" % i)))
    natres = {}

    def build_native(k, d, san):
        exe = os.path.join(tmp, "native%d%s" % (k, "a" if san else ""))
        r = native(srcs, exe, cfgdir, d, san)
        natres[(k, san)] = (exe, r)

    # symbolic side
    pool = ThreadPoolExecutor(NPROC)
    rt = os.path.join(tmp, "rt.bc")
    rtjob = pool.submit(runtime_ir, rt)
    irs = list(pool.map(lambda u: clang_ir(u[0], u[2], cfgdir, u[1]), units))
    for u, r in zip(units, irs):
        if r.returncode:
            print("harness does not compile against the current tree: %s\n%s" % (u[0], r.stderr[-3000:]))
            return 2
    if rtjob.result().returncode == 0:
        list(pool.map(lambda u: link_runtime(u[2], rt), units))
    t_ir = time.time() - t0
    nat_threads = []
    for k, d in enumerate(cfg.get("variants", [[]])):
        th = threading.Thread(target=build_native, args=(k, d, True))
        th.start()
        nat_threads.append(th)
    jr, jw = os.pipe()
    os.set_inheritable(jr, True)
    os.set_inheritable(jw, True)
    os.set_blocking(jr, False)
    os.write(jw, b"x" * NPROC)
    budget = cfg.get("budget", (500, 5400))[tier]
    procs = []
    recs = []
    bad = []
    for k, u in enumerate(units):
        out = os.path.join(tmp, "out%d.jsonl" % k)
        job = dict(bc=u[2], opts=cfg.get("opts", {}), out=out, tier=tier, fds=[jr, jw], only=only, budget=budget)
        so = open(os.path.join(tmp, "explore%d.log" % k), "w+")
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "run.py"), "--explore", json.dumps(job)],
                             pass_fds=(jr, jw), stdout=so, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        procs.append((p, u, out, k, so))

    def killall(*_):
        for p, *_ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def terminated(*_):
        killall()
        shutil.rmtree(tmp, ignore_errors=True)
        os._exit(2)

    signal.signal(signal.SIGTERM, terminated)
    # once there is a candidate the property either fails or has no answer:
    # the rest of the exploration is cut short
    grace = cfg.get("grace", 60) if not any(k["property"] == prop for k in load_known()) else None
    first = None
    stop = time.time() + budget + 90
    seek = {}
    cut = False
    while any(p.poll() is None for p, *_ in procs):
        time.sleep(0.05)
        if first is None and grace is not None:
            for p, u, out, k, so in procs:
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        f.seek(seek.get(k, 0))
                        d = f.read()
                    seek[k] = seek.get(k, 0) + d.rfind(b"\n") + 1
                    if b'"kind": "cand"' in d and first is None:
                        first = time.time()
        if time.time() > stop or (first is not None and time.time() > first + grace):
            cut = True
            break
    if cut:
        bad.append("exploration cut short")
    killall()
    for p, u, out, k, sof in procs:
        p.wait()
        sof.seek(0)
        so = sof.read()
        sof.close()
        if verbose and so:
            print(so)
        if p.returncode and not cut:
            bad.append("explorer of %s failed (%d): %s" % (os.path.basename(u[0]), p.returncode, so[-1500:]))
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    bad.append("unreadable record")
                    continue
                r["unit"] = k
                r["variant"] = k % len(cfg.get("variants", [[]]))
                recs.append(r)
    t_sym = time.time() - t0 - t_ir
    for th in nat_threads:
        th.join()
    for (k, san), (exe, r) in natres.items():
        if r.returncode:
            print("native harness does not build: " + r.stderr[-3000:])
            return 2
    return judge(prop, tier, tier_name, cfg, seed, tmp, t0, recs, bad, natres, units, srcs, cfgdir, dict(ir=t_ir, sym=t_sym), verbose, only)


BADST = ("engine", "inconclusive", "timeout")


def judge(prop, tier, tier_name, cfg, seed, tmp, t0, recs, bad, natres, units, srcs, cfgdir, times, verbose, only):
    paths = [r for r in recs if r["kind"] == "path"]
    cands = [r for r in recs if r["kind"] == "cand"]
    infos = [r for r in recs if r["kind"] == "info"]
    for r in recs:
        if r["kind"] == "crash":
            bad.append("process died: %s" % r)
        if r["kind"] == "undecided":
            bad.append("undecided query: %s/%s" % (r.get("entry"), r["label"]))
    for r in paths:
        if r["status"] in BADST:
            bad.append("%s: path ended with %s %s" % (r.get("entry"), r["status"], r["detail"]))
    # vacuity: every entry has completed paths with checks
    ent = {}
    for r in paths:
        e = ent.setdefault((r["unit"], r["entry"]), dict(ok=0, viol=0, checks=0, paths=0, reached=set()))
        e["paths"] += 1
        if r["status"] == "ok":
            e["ok"] += 1
        if r["status"] != "infeasible":
            e["reached"] |= set(r["reached"])
        e["checks"] += r["newchecks"]
    for (u, e), d in ent.items():
        if d["ok"] == 0 and not any(c["unit"] == u and c.get("entry") == e for c in cands):
            bad.append("entry %s: no feasible completed path (vacuous)" % e)
        need = set(cfg.get("must", {}).get(e, [])) - d["reached"]
        if need and not any(c["unit"] == u and c.get("entry") == e for c in cands):
            bad.append("entry %s: never reached %s" % (e, sorted(need)))
    # replay candidates
    viols, notrep, refuted = [], [], []
    seen = {}
    for c in cands:
        # addresses and offsets do not distinguish failures
        key = re.sub(r"0x[0-9a-f]+|\d+", "#", c["label"]) if c["label"].startswith("memory error") else c["label"]
        seen.setdefault((c["unit"], c["entry"], key), []).append(c)
    known = load_known()
    knownhit = set()
    nreplay = 0
    valgrind = None

    def failing_line(label, l):
        # a run that hangs only counts where the claim is about termination or
        # where memory outside of an object was used
        return l.startswith(("VIOL", "DIED")) or \
            (l.startswith("TIMEOUT") and any(w in label for w in ("termination", "memory", "bounds", "pointer")))

    racing = {}

    def replay_race(item):
        """under the thread sanitizer, with either thread delayed"""
        (u, e, label), cs = item
        v = cs[0]["variant"]
        models = [m for c in cs for m in c["models"]][:40]
        exe, r = racing[v]
        lines, err = [], ""
        if r.returncode:
            return ["MISSING"], r.stderr
        for m in models[:4]:
            for k in (1, 2, 0, 0):
                ls, err = run_native(exe, e, [m], tmp, tier, 20, env=dict(VP_STAGGER=str(k), TSAN_OPTIONS="exitcode=66:halt_on_error=1"))
                if "data race" in err and any(l.startswith("DIED") for l in ls):
                    return lines + ["VIOL " + label + " (thread sanitizer)"], err[:2000]
            lines += ls[:1] or ["MISSING"]
        return lines, err

    def replay1(item):
        (u, e, label), cs = item
        if label.startswith("data race"):
            return replay_race(item)
        exe = natres[(cs[0]["variant"], True)][0]
        many = label.startswith("round-off")
        models = [m for c in cs for m in c["models"]][:400 if many else 40]
        lines, err, n, t = [], "", 0, time.time()
        # a few at a time: one reproduced failure is enough
        step = 40 if many else 4
        for i in range(0, len(models), step):
            ls, err = run_native(exe, e, models[i:i + step], tmp, tier, 10)
            lines += ls + ["MISSING"] * (len(models[i:i + step]) - len(ls))
            if any(failing_line(label, l) for l in ls) or time.time() - t > 60:
                break
        return lines, err

    items = list(seen.items())
    for v in sorted({cs[0]["variant"] for (u, e, label), cs in items if label.startswith("data race")}):
        ex2 = os.path.join(tmp, "native_race%d" % v)
        racing[v] = (ex2, native(srcs, ex2, cfgdir, cfg.get("variants", [[]])[v], "thread"))
    with ThreadPoolExecutor(NPROC) as ex:
        replays = list(ex.map(replay1, items))
    for ((u, e, label), cs), (lines, err) in zip(items, replays):
        models = [m for c in cs for m in c["models"]][:400 if label.startswith("round-off") else 40]
        if not models:
            notrep.append((e, label, "no model"))
            continue
        nreplay += len(lines)
        hit = [(m, l) for m, l in zip(models, lines) if failing_line(label, l)]
        if not hit and not viols and ("uninitialised" in label or "memory" in label) and shutil.which("valgrind"):
            key = (cs[0]["variant"], False)
            if key not in natres:
                ex2 = os.path.join(tmp, "native_plain%d" % key[0])
                r = native(srcs, ex2, cfgdir, cfg.get("variants", [[]])[key[0]], False)
                natres[key] = (ex2, r)
            ex2, r = natres[key]
            if r.returncode == 0:
                for m in models[:2]:
                    path = os.path.join(tmp, "vg.txt")
                    write_sets(path, [m])
                    try:
                        rr = subprocess.run(["valgrind", "-q", "--trace-children=yes", "--error-exitcode=9", ex2, e, path, "60"],
                                            capture_output=True, text=True, env=dict(os.environ, VP_TIER=str(tier)), timeout=120)
                    except subprocess.TimeoutExpired:
                        continue
                    if "uninitialised" in rr.stderr:
                        hit = [(m, "VIOL uninitialised value (valgrind)")]
                        err = rr.stderr
                        break
                    bad_use = [l for l in rr.stderr.splitlines() if "Invalid read" in l or "Invalid write" in l or "Invalid free" in l]
                    if bad_use:
                        hit = [(m, "VIOL " + bad_use[0].split("==")[-1].strip() + " (valgrind)")]
                        err = rr.stderr
                        break
        if not hit and label.startswith(("data race", "round-off")) and any(l.startswith("OK") for l in lines) and \
                all(l.startswith(("OK", "SKIP")) for l in lines):
            # the traces ignore that the data decide about the branches taken;
            # error bounds ignore that errors may cancel
            refuted.append((e, label))
            continue
        if not hit:
            notrep.append((e, label, "%s on %s" % (lines[:2], json.dumps(models[0])[:600])))
            continue
        hits = []
        for m, l in hit:
            k = match_known(known, prop, e, label, l, m)
            if k is not None:
                knownhit.add(k)
            else:
                hits.append((m, l))
        if hits:
            viols.append((u, e, label, hits[0][0], hits[0][1], err[-2000:]))
    # validate path witnesses natively
    val = dict(total=0, ok=0, skip=0, mismatch=0, fail=0)
    failing = []
    byent = {}
    for r in paths:
        if r["status"] == "ok" and r["witness"] is not None:
            byent.setdefault((r["unit"], r["entry"]), []).append(r)
    lim = cfg.get("witnesses", (60, 400))[tier]
    jobs = []
    for (u, e), rs in byent.items():
        step = max(1, len(rs) // lim)
        rs = rs[::step][:lim]
        for i in range(0, len(rs), 25):
            jobs.append((u, e, rs[i:i + 25]))

    def val1(j):
        u, e, rs = j
        exe = natres[(rs[0]["variant"], True)][0]
        return j, run_native(exe, e, [r["witness"] for r in rs], tmp + "", tier, 60)

    with ThreadPoolExecutor(NPROC) as ex:
        for (u, e, rs), (lines, err) in ex.map(val1, jobs):
            for r, l in zip(rs, lines):
                val["total"] += 1
                if l.startswith("OK"):
                    p = l.split()
                    if r.get("obs") is not None:
                        s, mag, cnt = r["obs"]
                        if abs(s - float(p[1])) > 1e-6 * (1 + mag) or cnt != int(p[3]):
                            val["mismatch"] += 1
                            if verbose:
                                print("MISMATCH", e, r["obs"], l, r["witness"])
                            continue
                    val["ok"] += 1
                elif l.startswith("SKIP"):
                    val["skip"] += 1
                else:
                    val["fail"] += 1
                    failing.append((u, e, r["witness"], l, err[-1500:]))
    for u, e, w, l, err in failing:
        k = match_known(known, prop, e, l, l, w)
        if k is not None:
            knownhit.add(k)
        else:
            # the real code violates a check on a concrete input although the
            # real-arithmetic encoding does not: rounding, reported as inconclusive
            bad.append("native run of a path witness fails: %s %s %s" % (e, l, json.dumps(w)[:500]))
    wall = time.time() - t0
    nq = {"sat": 0, "unsat": 0, "unknown": 0}
    for r in paths:
        for k in nq:
            nq[k] += r["nq"][k]
    qtime = sum(r["qtime"] for r in paths)
    funcs = sorted({f for i in paths for f in i.get("funcs", [])})
    ok = [r for r in paths if r["status"] == "ok"]
    cov = dict(
        states=sum(1 for r in paths if r["status"] != "infeasible"),
        transitions=sum(r["steps"] for r in paths),
        traces_validated_against_impl=val["ok"],
        samples=0,
        entries={"%s" % e: dict(paths=d["paths"], completed=d["ok"], checks=d["checks"]) for (u, e), d in ent.items()},
        checks_discharged=sum(r["newchecks"] for r in paths),
        closed_by_normal_form=sum(r["trivial"] for r in paths),
        queries=nq, solver_time_s=round(qtime, 2),
        solver="z3 (python bindings of the tooling environment)",
        bounds=cfg.get("bounds", {}).get(tier_name) if isinstance(cfg.get("bounds"), dict) else cfg.get("bounds"),
        outside_bounds=cfg.get("outside", ""),
        functions_encoded=[f for f in demangle(funcs) if "Dune::" in f and "std::" != f[:5]][:400],
        functions_encoded_total=len(funcs),
        path_witnesses=val, counterexamples_replayed=nreplay,
        undecided=len([b for b in bad if b.startswith("undecided")]),
        times=dict((k, round(v, 1)) for k, v in times.items()),
        explanation="states = symbolic paths explored to their end (each covers all inputs satisfying its path condition); "
                    "transitions = executed basic-block transitions of the encoded LLVM IR; traces = path witnesses re-executed "
                    "on the natively compiled code with the same outcome and the same observed values")
    if not cov["states"]:
        cov["explanation"] += "; nothing explored"
    ev = dict(property=prop, tier=tier_name, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2),
              assumptions=cfg.get("assumptions", []) + COMMON_ASSUMPTIONS, violations=len(viols))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d paths (%d completed), %d checks, queries %s, solver %.1fs, witnesses %s, wall %.1fs (ir %.1f sym %.1f)" %
          (prop, tier_name, len(paths), len(ok), cov["checks_discharged"], nq, qtime, val, wall, times["ir"], times["sym"]))
    if verbose:
        for (u, e), d in sorted(ent.items(), key=str):
            q = sum(r["qtime"] for r in paths if r["entry"] == e and r["unit"] == u)
            ub = sum(r["ub"] for r in paths if r["entry"] == e and r["unit"] == u)
            print("   %-28s paths %d ok %d checks %d qtime %.1f ub %d" % (e, d["paths"], d["ok"], d["checks"], q, ub))
        from collections import Counter
        print("   statuses", Counter(r["status"] for r in paths))
        slow = sorted((s for r in paths for s in r["slow"]), reverse=True)[:8]
        print("   slow", slow)
    for k in known:
        if k["id"] in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    rc = 0
    if viols:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (u, e, label, m, l, err) in enumerate(viols):
            path = os.path.join(rd, "%s_%s_%d.json" % (prop, tier_name, n))
            with open(path, "w") as f:
                json.dump(dict(property=prop, entry=e, label=label, source=units[u][0], native_outcome=l, inputs=m,
                               tier=tier, stderr=err,
                               how="compile the harness with harness/vp_native.cc and run: prog ENTRY FILE" +
                               (" (with -fsanitize=thread)" if label.startswith("data race") else "")), f, indent=1)
            print("  %s/%s: %s  [%s]  inputs: %s" % (os.path.basename(units[u][0]), e, label, l,
                                                    ", ".join("%s=%s" % (a, c) for a, _, c in m)[:500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif bad or notrep:
        rc = 2
    for b in sorted(set(bad))[:20]:
        print("INCONCLUSIVE: " + b[:1200])
    for e, label in refuted[:20]:
        print("REFUTED: %s: %s (not possible in the real code)" % (e, label))
    for e, label, why in notrep[:20]:
        print("NOT REPRODUCED: %s: %s: %s" % (e, label, why))
    return rc


COMMON_ASSUMPTIONS = [
    "double arithmetic is interpreted over the reals (no rounding) unless the entry runs in IEEE mode with concrete operands",
    "code compiled by clang 18 at -O1 (x86-64); the C++ runtime, operator new/delete, libm sqrt/fabs/pow and std::map rebalancing "
    "are modelled by stubs (engine/stubs.py); the text of exception messages is not modelled",
    "memory allocation never fails",
    "single-threaded execution, except for the two threads of C26",
]


def demangle(names):
    try:
        r = subprocess.run(["c++filt", "-p"], input="\n".join(names), capture_output=True, text=True)
        return sorted({n[:160] for n in r.stdout.splitlines()})
    except OSError:
        return names


def load_known():
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def match_known(known, prop, entry, label, outcome, model):
    for k in known:
        if k["property"] != prop or k["entry"] != entry or k["label"] not in (label, outcome):
            continue
        vals = {a: c for a, _, c in model}
        if all(vals.get(n) in v for n, v in k.get("inputs", {}).items()):
            return k["id"]
    return None


if __name__ == "__main__":
    if sys.argv[1] == "--explore":
        import core
        job = json.loads(sys.argv[2])
        threading.stack_size(512 * 1024 * 1024)
        err = []

        def go():
            try:
                explore(job["bc"], job["opts"], job["out"], job["tier"], job["fds"], job["only"], job["budget"])
                import core
            except BaseException:
                err.append(traceback.format_exc())
        th = threading.Thread(target=go)
        th.start()
        th.join()
        if err:
            print(err[0])
            os._exit(3)
        sys.exit(0)
    main()
