#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its real code.

usage: check.py <property id> [quick|thorough]   |   check.py --setup   |   check.py --list
exit 0: held on everything explored; 1: VIOLATION (replayed against the real build); 2: no answer.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HSX_REPO", "/repo")
BUILD = os.environ.get("HSX_BUILD", os.path.join(V, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CXXF = ["-std=c++20", "-DNDEBUG", "-DFMT_HEADER_ONLY", "-w", "-I" + V + "/rt", "-I" + V + "/harness", "-I" + REPO, "-I" + REPO + "/include"]
SYMF = ["-O2", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-g1", "-DHSX_SYM", "-c", "-emit-llvm"]
JOBS = 8
T0 = time.time()
_locks, _lk = {}, threading.Lock()


class NoAnswer(Exception):
    pass


def lock(k):
    with _lk:
        return _locks.setdefault(k, threading.Lock())


def run(cmd, timeout=600, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -9, o, e + "\n[timeout]"


def hfiles(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d, ext):
    r = []
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in (".git", "build", "ext", "test")]
        r += [os.path.join(b, f) for f in fs if f.endswith(ext)]
    return r


_rh = None


def repo_hash():
    global _rh
    if _rh is None:
        _rh = hfiles(sum([tree(os.path.join(REPO, d), (".cpp", ".hpp", ".h", ".c")) for d in ("app", "include", "src")], []) +
                     tree(V + "/harness", (".hpp", ".h")) + [V + "/rt/hsx.h"])
    return _rh


def made(path, fn):
    """content-addressed build product"""
    with lock(path):
        if os.path.exists(path):
            return path
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".tmp%d" % os.getpid()
        fn(tmp)
        os.rename(tmp, path)
        return path


def compile_cmd(cmd, what):
    rc, o, e = run(cmd, 600)
    if rc:
        raise NoAnswer("cannot compile %s:\n%s" % (what, "\n".join([l for l in e.splitlines() if "error" in l][:10]) or e[-2000:]))


def engine():
    key = hfiles(tree(V + "/engine", (".cpp", ".h", ".inc", ".sh")))
    def f(tmp):
        d = tempfile.mkdtemp(dir=BUILD)
        compile_cmd([V + "/engine/build.sh", d], "the engine")
        shutil.move(d + "/hsx", tmp)
        shutil.rmtree(d)
    os.makedirs(BUILD, exist_ok=True)
    return made("%s/hsx-%s" % (BUILD, key), f)


def rt():
    out = []
    for f, extra in (("rt.cpp", ["-fno-access-control"]), ("rt_io.cpp", []), ("rt_libc.cpp", ["-fno-builtin"])):
        key = hfiles([V + "/rt/" + f, V + "/rt/hsx.h"])
        out.append(made("%s/rt-%s-%s.bc" % (BUILD, f, key), lambda t, f=f, extra=extra: compile_cmd(["clang++-18"] + CXXF + SYMF + extra + [V + "/rt/" + f, "-o", t], f)))
    return out


def lang(src):
    return ["-x", "c", "-std=gnu11"] if src.endswith(".c") else []


def flagsfor(src, flags):
    return [f for f in CXXF if not (src.endswith(".c") and f.startswith("-std"))] + flags


def path_of(src):
    return os.path.join(V, "harness", src) if os.path.exists(os.path.join(V, "harness", src)) else os.path.join(REPO, src)


KNOWN = {"src/diffutils.cpp", "src/dnl/queuemgt.cpp", "src/dnl/requests.cpp", "src/dnl/resume.cpp", "src/dnl/shared.cpp", "src/md4.c", "src/ntlm.cpp", "src/srv/server.cpp", "src/toc.cpp"}
_src = {}


def sources(job):
    """the harness and the sources of /repo it needs: those listed and whatever else defines what they leave undefined"""
    fl = job.get("flags", [])
    base = [job["h"]] + job.get("src", [])
    key = json.dumps([base, fl])
    with lock("src" + key):
        if key in _src:
            return _src[key]
        allsrc = sorted(os.path.relpath(p, REPO) for p in tree(REPO + "/src", (".cpp", ".c")))
        def syms(s):
            rc, o, e = run(["llvm-nm-18", one_bc(s, fl)], 60)
            u, d = set(), set()
            for l in o.splitlines():
                w = l.split()
                (u if w[-2] == "U" else d).add(w[-1])
            return u, d
        have = list(base)
        for s in base[1:]:
            if s in KNOWN and not os.path.exists(path_of(s)):
                have.remove(s)  # a file that is gone; its contents must be elsewhere
        with cf.ThreadPoolExecutor(8) as ex:
            us = list(ex.map(syms, have))
        und = set().union(*[u for u, d in us])
        dfn = set().union(*[d for u, d in us])
        cand = [s for s in allsrc if s not in have]
        mine = lambda x: "hibp" in x or x.startswith("MD4") or "arrcmp" in x
        while True:
            need = und - dfn
            if not any(mine(x) for x in need) and not [s for s in cand if s not in KNOWN]:
                break
            add = None
            for s in cand:
                if s in KNOWN and not any(mine(x) for x in need):
                    continue
                try:
                    u, d = syms(s)
                except NoAnswer:
                    continue
                if d & need:
                    add = (s, u, d)
                    break
            if not add:
                break
            have.append(add[0])
            cand.remove(add[0])
            und |= add[1]
            dfn |= add[2]
        _src[key] = have
        return have


def one_bc(s, fl):
    k2 = hashlib.sha256(json.dumps([s, fl, repo_hash(), hfiles([path_of(s)])]).encode()).hexdigest()[:20]
    return made("%s/bc-%s.bc" % (BUILD, k2), lambda t: compile_cmd(["clang++-18"] + lang(s) + flagsfor(s, fl) + SYMF + [path_of(s), "-o", t], s))


def one_race_bc(s, fl):
    """the same without the speculated loads that compilers may add: they would look like races"""
    k2 = hashlib.sha256(json.dumps(["race", s, fl, repo_hash(), hfiles([path_of(s)])]).encode()).hexdigest()[:20]
    def f(tmp):
        compile_cmd(["clang++-18"] + lang(s) + flagsfor(s, fl) + [x for x in SYMF if x not in ("-c", "-emit-llvm")] + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-S", path_of(s), "-o", tmp + ".ll"], s)
        with open(tmp + ".ll") as i:
            t = re.sub(r"(?m)^(attributes #\d+ = \{)", r"\1 sanitize_thread", i.read())
        with open(tmp + ".ll", "w") as o:
            o.write(t)
        compile_cmd(["opt-18", "-passes=default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", tmp + ".ll", "-o", tmp], s)
        os.remove(tmp + ".ll")
    return made("%s/rbc-%s.bc" % (BUILD, k2), f)


def bitcode(job):
    """the program under test, its harness and the runtime as one module"""
    fl = job.get("flags", [])
    srcs = sources(job)
    key = hashlib.sha256(json.dumps([srcs, fl, repo_hash(), job.get("race"), hfiles([path_of(s) for s in srcs] + [V + "/rt/rt.cpp", V + "/rt/rt_io.cpp", V + "/rt/rt_libc.cpp"])]).encode()).hexdigest()[:20]
    def f(tmp):
        objs = []
        with cf.ThreadPoolExecutor(8) as ex:
            futs = []
            for s in srcs:
                futs.append(ex.submit(one_race_bc if job.get("race") else one_bc, s, fl))
            futs.append(ex.submit(rt))
            for x in futs[:-1]:
                objs.append(x.result())
            objs += futs[-1].result()
        compile_cmd(["llvm-link-18"] + objs + ["-o", tmp], "link of " + job["h"])
    return made("%s/mod-%s.bc" % (BUILD, key), f)


def native(job, asan=False, tsan=False):
    fl = job.get("flags", [])
    srcs = sources(job) + [V + "/rt/native.cpp"]
    mode = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DHSX_ASAN"] if asan else ["-O1", "-g", "-fsanitize=thread", "-DHSX_TSAN"] if tsan else ["-O2", "-g"]
    key = hashlib.sha256(json.dumps([srcs, fl, mode, repo_hash(), hfiles([path_of(s) for s in srcs])]).encode()).hexdigest()[:20]
    def f(tmp):
        objs = []
        def one(s):
            k2 = hashlib.sha256(json.dumps([s, fl, mode, repo_hash(), hfiles([path_of(s)])]).encode()).hexdigest()[:20]
            return made("%s/no-%s.o" % (BUILD, k2), lambda t: compile_cmd(["g++"] + lang(s) + flagsfor(s, fl) + mode + ["-c", path_of(s), "-o", t], s + " (native)"))
        with cf.ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(one, srcs))
        compile_cmd(["g++"] + mode + objs + ["-o", tmp, "-ldl", "-lpthread"], "native link of " + job["h"])
    return made("%s/nat-%s" % (BUILD, key), f)


def replay(job, rep, asan=False, tsan=False):
    """run one path of the real program; returns (verdict line, observations)"""
    exe = native(job, asan, tsan)
    d = tempfile.mkdtemp(prefix="hsxr")
    try:
        os.mkdir(d + "/s")
        with open(d + "/in", "w") as f:
            for k, v in rep["inputs"].items():
                f.write("%s=%s\n" % (k, v))
            if rep.get("sched") and not tsan:
                f.write("sched=%s\n" % ",".join(map(str, rep["sched"])))
        env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=77", TSAN_OPTIONS="exitcode=66 halt_on_error=1 report_signal_unsafe=0")
        rc, o, e = run([exe, d + "/s", d + "/in"] + ["%s=%s" % kv for kv in job.get("p", {}).items()], 120, env=env)
        obs = [l.split(" ", 2)[1:] for l in o.splitlines() if l.startswith("OBS ")]
        obs = [[x[0], x[1].strip() if len(x) > 1 else ""] for x in obs]
        last = [l for l in o.splitlines() if not l.startswith("OBS ")]
        verdict = last[-1] if last else ("SANITIZER" if rc == 77 else "EXIT %d" % rc)
        return verdict, obs, e[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirms(err, verdict):
    """does the native run show the failure the symbolic path reported?"""
    v = verdict.split(" ", 1)
    if err["kind"] == "race":
        return v[0] == "RACE"
    if err["kind"] == "assert":
        return v[0] == "ASSERT"
    return v[0] in ("ASSERT", "SIGNAL", "SANITIZER", "HANG", "EXIT", "EXCEPTION")


def ident_of(job, e):
    return "%s:%s" % (job["h"], re.sub(r"\s+", "_", e["msg"]))


_enough = threading.Event()  # a violation is confirmed: what has not started yet need not run
DEADLINE = {"quick": 760, "thorough": 3600 * 3}  # s: what is not explored by then is reported as such
_cut = []  # jobs not started or cut short by the deadline


def run_job(job, out, hsx, tier, dump, prop):
    if _enough.is_set():
        return None
    limit = min(job.get("time", 450 if tier == "quick" else 3000), DEADLINE.get(tier, 760) - (time.time() - T0))
    if limit < 10:
        _cut.append("%s %s not started" % (job["h"], job.get("p")))
        return None
    bc = bitcode(job)
    res = out + ".json"
    cmd = [hsx, "--repo", REPO, "-o", res, "--samples", str(job.get("samples", 4)), "--seed", str(SEED), "--time", str(int(limit)), "--max-errors", "4",
           "--max-steps", str(job.get("steps", 40000000)), "--preempt", str(job.get("preempt", 2)), "--mem", str(job.get("mem", 6000))] + (["--race"] if job.get("race") else [])
    if dump:
        os.makedirs(out + ".q", exist_ok=True)
        cmd += ["--dump", out + ".q"]
    for k, v in job.get("p", {}).items():
        cmd += ["-p", "%s=%s" % (k, v)]
    cmd.append(bc)
    t = time.time()
    rc, o, e = run(cmd, limit + 60)
    if rc not in (0, 1, 2) or not os.path.exists(res):
        raise NoAnswer("engine failed on %s %s rc=%d: %s" % (job["h"], job.get("p"), rc, e[-1500:]))
    with open(res) as f:
        d = json.load(f)
    d["rc"], d["log"], d["job"], d["t"] = rc, e[-3000:], job, time.time() - t
    for x in d["errors"]:
        if x["kind"] == "race":  # threads run freely under the thread sanitizer, with the inputs of the path
            for k in range(4):
                with cf.ThreadPoolExecutor(6) as ex:
                    vs = [r[0] for r in ex.map(lambda _: replay(job, x, tsan=True), range(6))]
                verdict = next((v for v in vs if v.startswith("RACE")), vs[0])
                if confirms(x, verdict):
                    break
        else:
            verdict, obs, err = replay(job, x)
        good = confirms(x, verdict)
        if not good and x["kind"] not in ("assert", "hang", "race"):
            verdict, obs, err = replay(job, x, asan=True)
            good = confirms(x, verdict)
        x["native"], x["confirmed"] = verdict, good
        if good and not any(m == ident_of(job, x) for m, k in known(prop)):
            _enough.set()
            break
    d["errors"] = [x for x in d["errors"] if "native" in x]
    return d


def cross_check(qdirs):
    """a second solver on a sample of the discharged queries"""
    n = bad = unk = 0
    for q in qdirs:
        if not os.path.isdir(q):
            continue
        for f in sorted(os.listdir(q))[:12]:
            if not f.endswith(".smt2"):
                continue
            m = re.search(r"_(sat|unsat)\.smt2$", f)
            rc, o, e = run(["cvc5", "--tlimit=10000", os.path.join(q, f)], 20)
            ans = (o.split() or ["unknown"])[0]
            if ans not in ("sat", "unsat"):
                unk += 1
            elif m and ans != m.group(1):
                bad += 1
            else:
                n += 1
    return n, bad, unk


def known(prop):
    r = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def demangle(names):
    rc, o, e = run(["c++filt"] + list(names), 60)
    return o.split("\n")[:len(names)] if rc == 0 else list(names)


def cpu_has(job):
    """instruction-set variants run only where they can also be replayed"""
    need = [f[2:] for f in job.get("flags", []) if f in ("-mavx2", "-mavx512bw")]
    if not need:
        return True
    with open("/proc/cpuinfo") as f:
        have = f.read()
    return all(re.search(r"\b%s\b" % n, have) for n in need)


def check(prop, tier):
    sys.path.insert(0, V)
    import props
    spec = props.PROPS[prop]
    jobs = [j for j in spec["jobs"] if tier in j.get("tier", "quick thorough").split() and cpu_has(j)]
    work = tempfile.mkdtemp(prefix="hsx-%s-" % prop)
    results, noans, qdirs = [], [], []
    val_ok = val_bad = 0
    bad_notes = []
    violations, findings = [], []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fe = ex.submit(engine)
            fr = ex.submit(rt)
            # compile distinct modules (and their native twins) concurrently
            seen, comp = set(), []
            for j in jobs:
                k = json.dumps([j["h"], j.get("src", []), j.get("flags", []), j.get("race")])
                if k not in seen:
                    seen.add(k)
                    comp.append(ex.submit(bitcode, j))
                    comp.append(ex.submit(native, j))
            hsx = fe.result()
            fr.result()
            for c in comp:
                c.result()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", 1))
            futs = {}
            for i in order:
                out = "%s/j%d" % (work, i)
                dump = len(qdirs) < 3
                if dump:
                    qdirs.append(out + ".q")
                futs[ex.submit(run_job, jobs[i], out, hsx, tier, dump, prop)] = i
            for f in cf.as_completed(futs):
                try:
                    r = f.result()
                    if r:
                        results.append(r)
                except NoAnswer as e:
                    noans.append(str(e))
        # replay counterexamples, validate sampled paths against the real program
        with cf.ThreadPoolExecutor(JOBS) as ex:
            todo = []
            for r in results:
                for e in r["errors"]:
                    todo.append(("err", r, e, None))
                for s in r["samples"]:
                    todo.append(("val", r, s, ex.submit(replay, r["job"], s)))
            for kind, r, e, f in todo:
                if kind == "val":
                    verdict, obs, err = f.result()
                    if verdict == "DONE" and [list(x) for x in e["obs"]] == obs:
                        val_ok += 1
                    elif verdict.startswith("ASSERT ") and replay(r["job"], e)[0].startswith("ASSERT "):
                        # the executor's path holds, the real program breaks the assertion on the inputs the solver gave for it
                        violations.append((r, dict(e, kind="assert", msg=verdict[7:], where="native run of a sampled path", fault=None, trace=[], stack=[], native=verdict)))
                    else:
                        val_bad += 1
                        bad_notes.append("%s %s: symbolic path does not match the real run: %s; inputs %s obs %s vs %s" % (r["job"]["h"], r["job"].get("p"), verdict, json.dumps(e["inputs"])[:600], json.dumps(e["obs"])[:300], json.dumps(obs)[:300]))
                    continue
                verdict = e["native"]
                if not e["confirmed"]:
                    noans.append("unconfirmed counterexample in %s %s: %s: %s at %s; native: %s; inputs %s" % (r["job"]["h"], r["job"].get("p"), e["kind"], e["msg"], e["where"], verdict, json.dumps(e["inputs"])[:800]))
                    continue
                ident = ident_of(r["job"], e)
                k = [d for m, d in known(prop) if m == ident]
                if k:
                    findings.append((ident, k[0]))
                else:
                    violations.append((r, e))
        nq, qbad, qunk = cross_check(qdirs)
        if qbad:
            noans.append("the second solver disagrees on %d queries" % qbad)
        for r in results:
            if not r["complete"] and not r["errors"]:
                if r["stop"] == "time limit" and not r["unsupported"] and set(r["limits"]) <= {"time limit"} and r["ok"]:
                    _cut.append("%s %s stopped by the time limit after %d paths, %d pending" % (r["job"]["h"], r["job"].get("p"), r["paths"], r["pending"]))
                    continue
                noans.append("%s %s not fully explored: %s %s %s" % (r["job"]["h"], r["job"].get("p"), r["stop"], json.dumps(r["limits"])[:600], json.dumps(r["unsupported_msgs"])[:900]))
            if r["complete"] and not r["errors"]:
                for c in r["job"].get("covers", []):
                    if not r["covers"].get(c):
                        noans.append("%s %s is vacuous: cover point '%s' was never reached" % (r["job"]["h"], r["job"].get("p"), c))
        if val_bad and not violations:
            noans.append("%d of %d sampled paths disagree with the real program" % (val_bad, val_bad + val_ok))
        fns = {}
        for r in results:
            for k, n in r["functions"].items():
                fns[k] = max(fns.get(k, 0), n)
        names = sorted(fns)
        dn = demangle(names)
        tot = lambda k: sum(r[k] for r in results)
        samples = []
        for r in results[:6]:
            for s in r["samples"][:1]:
                samples.append({"harness": r["job"]["h"], "params": r["job"].get("p", {}), "inputs": dict(list(s["inputs"].items())[:16]), "schedule": s.get("sched", [])[:60], "observed": s["obs"][:6]})
        cov = {
            "states": tot("paths"), "transitions": tot("symbolic_branches"), "traces_validated_against_impl": val_ok, "samples": samples or ["no complete path sampled"],
            "explanation": "states = complete symbolic paths (each stands for every input satisfying its path condition); transitions = branch points decided by the solver or by path facts",
            "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""), "jobs": [{"harness": r["job"]["h"], "params": r["job"].get("p", {}), "flags": r["job"].get("flags", []), "paths": r["paths"], "complete": r["complete"], "covers": r["covers"], "wall_s": round(r["t"], 2)} for r in results],
            "functions_encoded": [{"function": a[:200], "ir_instructions_executed": fns[b]} for a, b in zip(dn, names)],
            "instructions_interpreted": tot("instructions"), "assertions_checked": tot("asserts"), "assertions_needing_solver": tot("symbolic_asserts"),
            "queries": {"total": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "split_into_cubes": tot("cubed"), "answered_from_cache": tot("cache_hits"), "solver_s": round(tot("solver_s"), 3)},
            "second_solver": {"agree": nq, "disagree": qbad, "no_answer": qunk},
            "paths_excluded_by_assumptions": tot("assume"),
            "known_findings_seen": [f[0] for f in findings], "violations": len(violations), "not_explored_in_time": list(_cut), "problems": noans[:20] + bad_notes[:5],
        }
        os.makedirs(V + "/evidence", exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - T0, 2)}
        with open(V + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
        for ident, d in dict(findings).items():
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
        if violations:
            os.makedirs(V + "/evidence/replays", exist_ok=True)
            for n, (r, e) in enumerate(violations[:5]):
                p = "%s/evidence/replays/%s-%d.json" % (V, prop, n)
                with open(p, "w") as f:
                    json.dump({"property": prop, "job": r["job"], "kind": e["kind"], "msg": e["msg"], "where": e["where"], "fault": e["fault"], "inputs": e["inputs"], "sched": e.get("sched", []), "trace": e["trace"], "stack": e["stack"], "obs": e["obs"], "native": e["native"]}, f, indent=1)
                print("  %s: %s (%s %s) native: %s" % (e["kind"], e["msg"], r["job"]["h"], r["job"].get("p", {}), e["native"]))
                print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        for x in _cut[:10]:
            print("INCOMPLETE: " + x)
        if 2 * len(_cut) > len(jobs):
            noans.append("%d of %d jobs were not fully explored in time" % (len(_cut), len(jobs)))
        if noans:
            for x in noans[:20] + bad_notes[:5]:
                print("NO-ANSWER: " + x)
            return 2
        print("OK property=%s paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (prop, tot("paths"), tot("queries"), tot("solver_s"), val_ok, time.time() - T0))
        return 0
    finally:
        if os.environ.get("HSX_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        engine(), rt()
        return 0
    if a[0] == "--list":
        sys.path.insert(0, V)
        import props
        print("\n".join(props.PROPS))
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        print(replay(d["job"], d), d["kind"], d["msg"])
        return 0
    try:
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except NoAnswer as e:
        print("NO-ANSWER: " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
