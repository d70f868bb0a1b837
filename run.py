#!/usr/bin/env python3
"""Runs one check: compile harnesses from /repo's tree -> symbolic execution -> native replay -> evidence.

usage: run.py C13 [--tier quick|thorough] [--only NAME] [--keep] [-v]
exit 0: held; 1: VIOLATION line printed; 2: no verdict (engine error, time-out, unconfirmed).
"""
import argparse, collections, concurrent.futures, fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CISTA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
import checks as CH

CXX = "clang++-18"
TRAPS = "shift-exponent,integer-divide-by-zero,unreachable,return"
WRAPS = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "_Znwm", "_Znam", "_ZnwmSt11align_val_t",
         "_ZnamSt11align_val_t", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
         "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"]
NPROC = os.cpu_count() or 8
T0 = time.time()
procs_lock = threading.Lock()
live = set()


def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True, text=True, errors="replace")
    with procs_lock:
        live.add(p.pid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -99, out
    finally:
        with procs_lock:
            live.discard(p.pid)


class Tokens:
    """make-like job server shared between compilations and engine processes."""
    def __init__(self, path, n):
        self.path = path
        os.mkfifo(path)
        self.fd = os.open(path, os.O_RDWR)
        self.nb = os.open(path, os.O_RDWR | os.O_NONBLOCK)
        os.write(self.fd, b"x" * n)

    def __enter__(self):
        while True:
            try:
                if os.read(self.nb, 1):
                    return self
            except BlockingIOError:
                time.sleep(0.005)

    def __exit__(self, *a):
        os.write(self.fd, b"x")


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        rc, out = sh(["bash", os.path.join(VERIF, "engine/build.sh"), BUILD], timeout=900)
        if rc != 0:
            print(out[-3000:])
            print("engine build failed")
            sys.exit(2)


def base_flags(h):
    f = ["-std=" + h.std, "-I" + os.path.join(REPO, "include"), "-I" + HARN, "-w"]
    for k, v in h.defs.items():
        f.append("-D%s=%s" % (k, v) if v is not None else "-D" + k)
    return f + h.flags


def compile_ir(h, wd, tier):
    out = os.path.join(wd, "h.bc")
    cmd = [CXX] + base_flags(h) + ["-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-access-control",
           "-include", os.path.join(HARN, "prelude.h"), "-fsanitize=" + h.traps, "-fsanitize-trap=all", "-emit-llvm", "-c",
           os.path.join(HARN, h.file), "-o", out]
    rc, o = sh(cmd, timeout=300)
    if rc != 0:
        return None, o
    return out, ""


def compile_native(h, wd, mode="asan"):
    out = os.path.join(wd, "native_" + mode)
    cmd = [CXX] + base_flags(h) + ["-include", os.path.join(HARN, "prelude.h"), "-O1", "-g1", "-fno-access-control", "-DVS_NATIVE", os.path.join(HARN, h.file), os.path.join(HARN, "vs_native.cpp"), "-o", out]
    if mode.startswith("asan"):
        cmd += ["-fsanitize=address," + h.traps, "-fno-sanitize-recover=all", "-fsanitize-trap=" + h.traps]
        if mode == "asan-pat":
            cmd += ["-ftrivial-auto-var-init=pattern"]
        if mode == "asan-zero":
            cmd += ["-ftrivial-auto-var-init=zero"]
    if mode == "plain":
        cmd += ["-gdwarf-4"]
    cmd += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)] + h.ldflags
    rc, o = sh(cmd, timeout=300)
    return (out if rc == 0 else None), o


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, hx in inputs:
            if n == "$uninit":
                continue
            f.write("%s %s\n" % (n, hx if hx else "-"))


def run_native(binary, inp, timeout=20, fill=None, valgrind=False):
    env = dict(os.environ)
    ao = "detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:alloc_dealloc_mismatch=1:quarantine_size_mb=16:handle_segv=1"
    if fill is not None:
        ao += ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill
    env["ASAN_OPTIONS"] = ao
    cmd = [binary, inp]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no"] + cmd
        timeout *= 3
    rc, out = sh(cmd, timeout=timeout, env=env)
    return rc, out


def confirm(h, wd, native, inputs, tag, deadline):
    """replay a counterexample natively; returns (confirmed, text)"""
    inp = os.path.join(wd, tag + ".in")
    write_inputs(inp, inputs)
    def bad(rc):
        return rc not in (0, 43, 44, 2, -9)  # -9: ended by this program after another violation
    logs = []
    if native:
        for fill in (None, 0xbe, 0xff, 0x00, 0x01):
            rc, out = run_native(native, inp, fill=fill)
            logs.append("native(asan,fill=%s) rc=%d %s" % (fill, rc, out[:1500]))
            if bad(rc):
                return True, logs[-1]
    for mode in ("asan-pat", "asan-zero"):
        b, o = compile_native(h, wd, mode)
        if b:
            rc, out = run_native(b, inp)
            logs.append("native(%s) rc=%d %s" % (mode, rc, out[:1500]))
            if bad(rc):
                return True, logs[-1]
    b, o = compile_native(h, wd, "plain")
    if b:
        rc, out = run_native(b, inp, valgrind=True)
        logs.append("valgrind rc=%d %s" % (rc, out[:1500]))
        if bad(rc):
            return True, logs[-1]
    return False, "\n".join(logs)


class Result:
    pass


def run_harness(h, prop, tier, tokens, root, deadline, stop, seed, verbose):
    r = Result()
    r.h = h
    r.status = "ok"
    r.notes = []
    r.viol = None
    r.validated = 0
    r.stats = collections.Counter()
    r.reach, r.errors, r.funcs, r.samples, r.sites = set(), set(), set(), [], collections.Counter()
    t0 = time.time()
    wd = os.path.join(root, re.sub(r"\W", "_", h.name))
    os.makedirs(wd)
    if stop.is_set():
        r.status = "skipped"
        return r
    with tokens:
        bc, err = compile_ir(h, wd, tier)
    if not bc:
        r.status = "error"
        r.notes.append("IR compilation failed: " + err[-1500:])
        return r
    od = os.path.join(wd, "out")
    os.makedirs(od)
    budget = max(5.0, min(h.timeout, deadline - time.time()))
    with tokens:
        if stop.is_set():
            r.status = "skipped"
            return r
        cmd = [os.path.join(BUILD, "csym"), bc, "--out", od, "--procs", str(NPROC), "--tokens", tokens.path, "--timeout", "%.1f" % budget,
               "--seed", str(seed), "--max-steps", str(h.max_steps)] + h.eopts
        rc, out = sh(cmd, timeout=budget + 60)
    r.engine_wall = time.time() - t0
    if rc != 0:
        r.status = "error"
        r.notes.append("engine rc=%d %s" % (rc, out[-800:]))
        return r
    end, viols, limits, paths = None, [], [], []
    for f in glob.glob(od + "/*.jsonl"):
        for line in open(f):
            try:
                j = json.loads(line)
            except ValueError:
                r.errors.add("truncated engine output")
                continue
            t = j["t"]
            if t == "stats":
                for k, v in j.items():
                    if isinstance(v, (int, float)):
                        r.stats[k] += v
                r.reach |= set(j["reach"])
                r.errors |= set(j["errors"])
                r.funcs |= set(j["funcs"])
                r.sites.update(j["assert_sites"])
            elif t == "violation":
                viols.append(j)
            elif t == "limit":
                limits.append(j)
            elif t == "path":
                paths.append(j)
            elif t == "end":
                end = j
    # native build: needed for replays/validation
    native = None
    need_native = bool(viols or limits or (paths and h.validate))
    if need_native:
        with tokens:
            native, nerr = compile_native(h, wd)
        if not native:
            r.status = "error"
            r.notes.append("native compilation failed: " + nerr[-1500:])
            if not viols:
                return r
    for v in viols[:3] + limits[:1]:
        with tokens:
            ok, log = confirm(h, wd, native, v["inputs"], "ce", deadline)
        rp = os.path.join(VERIF, "evidence", "replay", prop)
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, re.sub(r"\W", "_", h.name) + ".replay")
        with open(path, "w") as f:
            f.write("# property %s, harness %s (%s)\n# %s\n# at %s\n# build: %s %s %s -fsanitize=address -O1\n# native replay: %s\n" % (
                prop, h.name, h.file, v["msg"], v["where"], CXX, " ".join(base_flags(h)), os.path.join(HARN, h.file) + " vs_native.cpp", log.replace("\n", "\n#   ")))
            for n, hx in v["inputs"]:
                f.write("%s %s\n" % (n, hx or "-"))
        if ok:
            r.viol = (v, path, log)
            r.status = "violation"
            if not h.known:
                stop.set()
                with procs_lock:
                    for pid in list(live):
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            pass
            return r
        r.status = "unconfirmed"
        r.notes.append("UNCONFIRMED counterexample: %s at %s; %s" % (v["msg"], v["where"][:600], log[:1200]))
    if r.status == "unconfirmed":
        return r
    if end is None or end["bad"] or r.errors or r.stats["limit"]:
        r.status = "error"
        r.notes.append("engine: end=%s errors=%s" % (end, list(r.errors)[:3]))
        return r
    if end["incomplete"]:
        r.status = "timeout"
        r.notes.append("exploration incomplete after %.0f s (%d paths)" % (budget, end["paths"]))
        return r
    missing = [x for x in h.reach if x not in r.reach]
    if missing:
        r.status = "error"
        r.notes.append("vacuity: labels not reached: %s" % missing)
        return r
    if end["paths"] == 0:
        r.status = "error"
        r.notes.append("vacuity: no path completed")
        return r
    # translator validation: replay sampled paths natively
    sel = paths[:: max(1, len(paths) // max(1, h.validate))][: h.validate]
    for i, pj in enumerate(sel):
        if time.time() > deadline:
            break
        inp = os.path.join(wd, "p%d.in" % i)
        write_inputs(inp, pj["inputs"])
        with tokens:
            rc, out = run_native(native, inp)
        m = re.search(r"VS-OBS (\d+) (\d+)", out)
        if rc == 0 and m and (pj["uninit"] or (m.group(1) == pj["obs"] and int(m.group(2)) == pj["nobs"])):
            r.validated += 1
        else:
            r.status = "error"
            r.notes.append("engine/native disagreement on a path: rc=%d %s expected obs %s/%s inputs=%s" % (rc, out[:600], pj["obs"], pj["nobs"], pj["inputs"][:20]))
            return r
    r.samples = [dict(harness=h.name, inputs=p["inputs"][:40], constraints=p["cons"]) for p in sel[:2]]
    r.wall = time.time() - t0
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ensure_engine()
    chk = CH.get(a.prop, a.tier)
    hs = [h for h in chk["harnesses"] if not a.only or re.search(a.only, h.name)]
    root = tempfile.mkdtemp(prefix="csym_%s_" % a.prop)
    deadline = time.time() + (chk.get("budget_q", 700) if a.tier == "quick" else chk.get("budget_t", 5400))
    tokens = Tokens(os.path.join(root, "tokens"), NPROC)
    stop = threading.Event()
    results = []
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(len(hs), 2 * NPROC)) as ex:
            futs = [ex.submit(run_harness, h, a.prop, a.tier, tokens, root, deadline, stop, seed, a.v) for h in hs]
            for f in concurrent.futures.as_completed(futs):
                r = f.result()
                results.append(r)
                if a.v:
                    print("%-34s %-11s paths=%-8d steps=%-10d q=%-7d solver=%.1fs wall=%.1fs %s" % (
                        r.h.name, r.status, r.stats["paths"], r.stats["steps"], r.stats["queries"], r.stats["solver_s"], getattr(r, "wall", getattr(r, "engine_wall", 0)), " ".join(r.notes)[:300]), flush=True)
    finally:
        with procs_lock:
            for pid in list(live):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
        if not a.keep:
            shutil.rmtree(root, ignore_errors=True)
    rc = report(a, chk, results, seed)
    sys.exit(rc)


def report(a, chk, results, seed):
    tot = collections.Counter()
    funcs, sites, samples = set(), collections.Counter(), []
    validated = 0
    rc = 0
    viol = 0
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    for r in results:
        tot.update(r.stats)
        funcs |= set(x for x in r.funcs if "cista" in x)
        sites.update(r.sites)
        samples += r.samples
        validated += r.validated
    for r in results:
        if r.h.known:
            # harness that demonstrates a recorded finding: only the listed failure is tolerated
            k = [f for f in known if f["id"] == r.h.known and f["property"] == a.prop]
            if r.status == "violation" and k and re.search(k[0]["match"], r.viol[0]["msg"] + " @ " + r.viol[0]["where"]):
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0]["what"]))
                continue
            if r.status == "ok":
                print("note: recorded finding %s does not show any more" % r.h.known)
                continue
        if r.status == "violation":
            v, path, log = r.viol
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  harness %s: %s\n  at %s\n  %s" % (r.h.name, v["msg"], v["where"][:800], log[:600].replace("\n", "\n  ")))
            rc = 1
            viol += 1
    exhaustive = rc == 0
    if rc == 0:
        for r in results:
            if r.status == "timeout":
                # held on everything explored, but the bound was not exhausted
                print("INCOMPLETE property=%s harness=%s %s" % (a.prop, r.h.name, " | ".join(r.notes)[:500]))
                exhaustive = False
            elif r.status not in ("ok", "violation", "skipped"):
                exhaustive = False
                print("NO VERDICT property=%s harness=%s status=%s %s" % (a.prop, r.h.name, r.status, " | ".join(r.notes)[:700]))
                rc = 2
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=dict(
        states=int(tot["forks"] + len(results)), transitions=int(tot["steps"]), traces_validated_against_impl=validated, samples=samples[:12] or ["none"],
        exhaustive=exhaustive, explanation="bounded symbolic execution of the compiled library code; every path within the bounds explored, each decided by Z3 for all input values on it",
        bounds=chk["bounds"], outside=chk["outside"], paths=int(tot["paths"]), paths_cut_by_assumptions=int(tot["assume_killed"]),
        solver_queries=int(tot["queries"]), queries_sat=int(tot["sat"]), queries_unsat=int(tot["unsat"]), answered_from_query_cache=int(tot["cache"]), solver_time_s=round(tot["solver_s"], 2),
        assertions_evaluated=int(tot["asserts"]), memory_accesses_checked=int(tot["derefs"]), symbolic_address_accesses=int(tot["symderefs"]),
        assertion_sites=len(sites), functions_encoded=sorted(funcs)[:400], n_functions_encoded=len(funcs),
        harnesses=[dict(name=r.h.name, file=r.h.file, defs=r.h.defs, status=r.status, paths=int(r.stats["paths"]), queries=int(r.stats["queries"]), solver_s=round(r.stats["solver_s"], 2), wall_s=round(getattr(r, "wall", 0), 1), validated=r.validated, notes=r.notes) for r in results]),
        assumptions=chk["assumptions"], wall_s=round(time.time() - T0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %s; %d harnesses, %d paths, %d queries, solver %.1f s, %d native validations, wall %.1f s" % (
        a.prop, a.tier, {0: "held", 1: "VIOLATED", 2: "no verdict"}[rc], len(results), tot["paths"], tot["queries"], tot["solver_s"], validated, time.time() - T0))
    return rc


if __name__ == "__main__":
    main()
