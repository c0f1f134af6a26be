#!/usr/bin/env python3
"""Runs the checks of one property: check.py C01 [--tier quick|thorough] [--repo DIR]

Compiles /repo's current sources together with the property's harnesses to LLVM
bitcode, explores every path of each harness entry symbolically (build/symx), and
replays every counterexample natively before reporting it.  See DESIGN.md.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import PROPS  # noqa: E402

SYMX = os.path.join(HERE, "build", "symx")
NCPU = os.cpu_count() or 4
IRFLAGS = ("-O2 -std=c++17 -gline-tables-only -fno-vectorize -fno-slp-vectorize "
           "-fno-unroll-loops -fno-pic -ffp-contract=off -fno-math-errno -fno-builtin-printf "
           "-DEIGEN_DONT_VECTORIZE -DEIGEN_NO_CPUID -D_GLIBCXX_EXTERN_TEMPLATE=0 -w").split()
NATIVE = {
    "plain": ("g++ -O1 -g -std=c++17 -w -ffp-contract=off -DSX_COUNT -rdynamic "
              "-Wl,--wrap=malloc,--wrap=free").split(),
    "valgrind": "g++ -O1 -g -std=c++17 -w -ffp-contract=off -DSX_VALGRIND -rdynamic".split(),
    "asan": ("g++ -O1 -g -std=c++17 -w -rdynamic -fsanitize=address,undefined "
             "-fno-sanitize=vptr -fno-sanitize-recover=all -DEIGEN_DONT_VECTORIZE").split(),
}
MODES = {"real": 0, "fp": 1, "fpuf": 2}


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


class Build:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.inc = ["-I" + repo, "-I/usr/include/eigen3", "-I" + os.path.join(HERE, "harness")]
        src = []
        for d in ("fbstab", "fbstab/components"):
            src += sorted(glob.glob(os.path.join(repo, d, "*.cc")))
        self.src = [s for s in src if not re.search(r"(test|qdldl)", os.path.relpath(s, repo))]
        self.native, self.lock = {}, threading.Lock()

    def run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("BUILD FAILED: " + " ".join(cmd[:3]) + " ...\n" + p.stdout[-3000:])

    def bitcode(self, harnesses, pool):
        todo = []
        def bc(s):
            o = os.path.join(self.work, os.path.basename(s)[:-3] + ".bc")
            self.run(["clang++", *IRFLAGS, *self.inc, "-emit-llvm", "-c", s, "-o", o])
            return o
        def hbc(h):  # a harness the changed interface does not fit drops out, the others go on
            try:
                return bc(os.path.join(HERE, "harness", h + ".cc"))
            except BuildError as e:
                log(str(e))
                return None
        hf = [pool.submit(hbc, h) for h in harnesses]
        outs = list(pool.map(bc, self.src))
        res = {}
        def link(x):
            if not x[1]:
                return None
            o = os.path.join(self.work, "h_" + x[0] + ".bc")
            self.run(["llvm-link", x[1], *outs, "-o", o + ".1"])
            # library definitions the module lacks (std::string, std::map, ...)
            self.run(["llvm-link", "--only-needed", o + ".1", os.path.join(HERE, "build", "rt.bc"), "-o", o])
            return o
        hs = [f.result() for f in hf]
        for h, o in zip(harnesses, pool.map(link, zip(harnesses, hs))):
            res[h] = o
        if not any(res.values()):
            raise BuildError("no harness of this property compiles")
        return res

    def binary(self, harness, flavour, pool):
        with self.lock:
            return self.binary_(harness, flavour, pool)

    def binary_(self, harness, flavour, pool):
        key = (harness, flavour)
        if key in self.native:
            return self.native[key]
        cc = NATIVE[flavour]
        comp = [c for c in cc if not c.startswith("-Wl") and c != "-rdynamic"]
        def obj(s):
            o = os.path.join(self.work, os.path.basename(s)[:-3] + "." + flavour + ".o")
            if not os.path.exists(o):
                self.run([*comp, *self.inc, "-c", s, "-o", o])
            return o
        files = [os.path.join(HERE, "harness", harness + ".cc"),
                 os.path.join(HERE, "harness", "replay_rt.cc")] + self.src
        objs = list(pool.map(obj, files))
        exe = os.path.join(self.work, "%s.%s" % (harness, flavour))
        self.run([*cc, *objs, "-ldl", "-o", exe])
        self.native[key] = exe
        return exe


def gross(a, b):
    """Do two printed numbers differ by more than rounding may explain?"""
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return True
    return not abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def watch_env(exe, msg):
    """Where the native run has to look for the reported store to static memory."""
    m = re.match(r"store to global (heap block|\S+)", msg)
    if not m:
        return {}
    if m.group(1) == "heap block":
        return {"SX_WATCH": "heap"}
    p = subprocess.run(["nm", "-S", exe], stdout=subprocess.PIPE, text=True)
    for l in p.stdout.splitlines():
        w = l.split()
        if len(w) == 4 and w[2] in "bBdDuVvwW" and w[3] == re.sub(r"\.\d+$", "", m.group(1)):
            return {"SX_WATCH": w[0] + ":" + w[1]}
    return {}


def replay(build, pool, job, vars_, kind, msg=""):
    """Runs a solver model natively. Returns (reproduced, text)."""
    f = tempfile.NamedTemporaryFile("w", dir=build.work, suffix=".in", delete=False)
    for n, k, v in vars_:
        f.write("%s %s %s\n" % (n, k, v))
    f.close()
    def go(flavour):
        exe = build.binary(job["h"], flavour, pool)
        cmd = [exe, job["e"], str(MODES[job["m"]]), f.name, *map(str, job["a"])]
        if flavour == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--leak-check=no"] + cmd
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        if kind == "global":
            env.update(watch_env(exe, msg))
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=env, timeout=60 if kind != "steps" else 20)
            return p.returncode, p.stderr.decode(errors="replace")[-1500:]
        except subprocess.TimeoutExpired:
            return -99, "timed out"
    order = {"uninit": ["valgrind", "plain"], "memory": ["asan", "valgrind", "plain"],
             "ub": ["asan"]}.get(kind, ["plain"])
    text = ""
    for n, fl in enumerate(order):
        try:
            rc, text = go(fl)
        except BuildError:
            if n + 1 == len(order):
                raise
            continue
        if rc == -99:
            if kind == "steps":
                return True, "%s: does not terminate" % fl
            continue
        if rc not in (0, 3, 77):
            return True, "%s: exit %d: %s" % (fl, rc, text)
    return False, "exit %d: %s" % (rc, text)


TOTALS = ("paths", "completed", "steps", "obligations", "by_constant", "by_normal_form", "by_smt", "branch_queries",
          "queries", "sat", "unsat", "unknown", "confirmed", "confirm_tried", "infeasible", "forks")
EMPTY = dict({k: 0 for k in TOTALS}, solver_seconds=0, seconds=0, functions=[], messages={}, reach={}, inconclusive=[],
             witness=[], cex=[])
RUNNING, STOP = set(), threading.Event()
STOPPED = "not run to its end: another job had found a violation"


def candidates(path):
    res = []
    for l in open(path):
        w = l.split()
        if w[0] == "MODEL":
            res.append((l[6:].strip(), []))
        else:
            res[-1][1].append(w)
    return res


def run_symx(bc, job, tier, seed, work, budget, try_inputs=None):
    out = tempfile.mktemp(dir=work, suffix=".json")
    cmd = [SYMX, bc, "--mode", job["m"], "--entry", job["e"], "--out", out,
           "--budget", str(min(budget, job.get("budget", budget))), "--seed", str(seed), "--maxviol", "3",
           "--confirm", str(job.get("confirm", 4 if tier == "quick" else 40))]
    if job["a"]:
        cmd += ["--args", ",".join(map(str, job["a"]))]
    cmd += job.get("opts", [])
    lim = "ulimit -v 12000000; exec \"$@\""
    p = subprocess.Popen(["bash", "-c", lim, "x", *cmd], stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, text=True)
    RUNNING.add(p)
    end, ncand, found = time.time() + budget * 2 + 60, 0, None
    while True:
        try:
            err = p.communicate(timeout=2)[1][-600:]
            done = True
        except subprocess.TimeoutExpired:
            done = False
        # undecided obligations: inputs worth a native run
        while try_inputs and not found and not STOP.is_set() and os.path.exists("%s.cand%d" % (out, ncand)):
            for msg, v in candidates("%s.cand%d" % (out, ncand)):
                r = try_inputs(v, msg)
                if r[0]:
                    found = {"kind": "assert", "msg": msg, "vars": v, "replayed": r}
                    break
            ncand += 1
        if done:
            break
        if time.time() > end or found:
            p.kill()
            p.communicate()
            err = "timeout"
            break
    RUNNING.discard(p)
    if found:
        try:
            r = json.load(open(out))
        except (OSError, ValueError):
            r = dict(EMPTY)
        r["cex"] = [found] + r.get("cex", [])
        return r
    if STOP.is_set() and not os.path.exists(out):
        return {"failed": STOPPED}
    if not os.path.exists(out):
        return {"failed": err or "no output"}
    try:
        return json.load(open(out))
    except ValueError as e:
        return {"failed": str(e)}


def load_known():
    known = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) job=(\S+) msg=\"([^\"]*)\" (.*)", l)
            if m:
                known.append(m.groups())
    except OSError:
        pass
    return known


def jobname(j):
    return "%s(%s)" % (j["e"], ",".join(map(str, j["a"])))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--job", default="")
    ap.add_argument("--noev", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = PROPS[a.prop]
    subprocess.run(["bash", os.path.join(HERE, "engine", "build.sh")], check=True)
    jobs = [j for j in p["jobs"] if a.tier == "thorough" or j.get("t", "q") == "q"]
    if a.job:
        jobs = [j for j in p["jobs"] if a.job in jobname(j)]
    work = tempfile.mkdtemp(prefix="fbv_")
    try:
        return check(a, p, jobs, seed, work, t0)
    except BuildError as e:
        log(str(e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(a, p, jobs, seed, work, t0):
    pool = ThreadPoolExecutor(NCPU)
    b = Build(a.repo, work)
    if a.replay:
        r = json.load(open(a.replay))
        ok, text = replay(b, pool, r["job"], r["vars"], r["kind"], r["msg"])
        log("reproduced" if ok else "not reproduced", text)
        return 1 if ok else 0
    bcs = b.bitcode(sorted({j["h"] for j in jobs}), pool)
    tb = time.time() - t0
    known, pool2 = load_known(), ThreadPoolExecutor(NCPU)
    total = 420 if a.tier == "quick" else 3000
    budget = 200 if a.tier == "quick" else 1500
    deadline = t0 + total

    def one(j):
        left = deadline - time.time()
        if STOP.is_set():
            return {"failed": STOPPED}
        if not bcs[j["h"]]:
            return {"failed": "its harness does not compile with the current sources"}
        if left < 5:
            return {"failed": "time budget of the check used up"}
        def try_inputs(v, msg):
            try:
                ok, text = replay(b, pool2, j, v, "assert")
            except BuildError as e:
                return False, "no native build"
            return (ok and "REPLAY-ASSERT" in text), text
        r = run_symx(bcs[j["h"]], j, a.tier, seed, work, max(5, min(budget, left)), try_inputs)
        # replay at once: after a confirmed violation nothing else has to finish
        for c in r.get("cex", []):
            try:
                c["replayed"] = replay(b, pool2, j, c["vars"], c["kind"], c["msg"])
            except BuildError as e:
                c["replayed"] = False, "no native build: " + str(e)[-200:]
            if c["replayed"][0]:
                if not [k for k in known if k[0] == a.prop and k[1] == jobname(j) and k[2] == c["msg"]]:
                    STOP.set()
                    for q in list(RUNNING):
                        q.kill()
                break
        return r
    # longest first when a weight is given
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("w", 1))
    futs = {i: pool.submit(one, jobs[i]) for i in order}
    res = [futs[i].result() for i in range(len(jobs))]

    knownhit, violations, inconclusive = [], [], []
    traces = 0
    samples, perjob, funcs, msgs = [], [], set(), {}
    tot = {k: 0 for k in TOTALS}
    solver = 0.0
    gst = set()
    for j, r in zip(jobs, res):
        nm = jobname(j)
        if "failed" in r:
            if r["failed"] != STOPPED:
                inconclusive.append(nm + ": " + r["failed"])
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        solver += r["solver_seconds"]
        for f in r["functions"]:
            funcs.add(f)
        for k, v in r["messages"].items():
            msgs[k] = msgs.get(k, 0) + v
        gst |= set(r.get("global_stores", []))
        for lab in j.get("reach", ["end"]):
            if not r["reach"].get(lab) and not r["cex"]:
                inconclusive.append("%s: label '%s' not reached" % (nm, lab))
        for t in sorted(set(r["inconclusive"])):
            inconclusive.append(nm + ": " + t)
        perjob.append({"job": nm, "mode": j["m"], "harness": j["h"], "paths": r["paths"],
                       "obligations": r["obligations"], "queries": r["queries"],
                       "seconds": round(r["seconds"], 2), "bound": j.get("b", "")})
        if a.v:
            log("%-40s %s paths=%d oblig=%d (c%d n%d s%d) q=%d %.1fs reach=%s %s" %
                (nm, j["m"], r["paths"], r["obligations"], r["by_constant"],
                 r["by_normal_form"], r["by_smt"], r["queries"], r["seconds"], r["reach"],
                 [(c["kind"], c["msg"]) for c in r["cex"]]))
        for n, c in enumerate(r["cex"]):
            if violations and n > 0 and any(v[0] == nm for v in violations):
                break
            ok, text = c.get("replayed") or replay(b, pool, j, c["vars"], c["kind"], c["msg"])
            if ok:
                kn = [k for k in known if k[0] == a.prop and k[1] == nm and k[2] == c["msg"]]
                if kn:
                    knownhit.append((nm, c, kn[0]))
                    continue
                violations.append((nm, c, text, j))
            else:
                inconclusive.append("%s: solver counterexample for '%s' (%s) not reproduced "
                                    "natively: %s" % (nm, c["msg"], c["kind"], text[:200]))
    # replay witnesses of completed paths against the native build
    disagree = []
    if not violations:
        cand = [(j, w) for j, r in zip(jobs, res) if "failed" not in r and not j.get("nowit")
                for w in r["witness"][: (2 if a.tier == "quick" else 8)]]
        cand = cand[: (60 if a.tier == "quick" else 600)]
        for h in sorted({j["h"] for j, _ in cand}):
            b.binary(h, "plain", pool)
        def wit(x):
            return replay(b, pool, x[0], x[1]["vars"], "assert")
        for (j, w), (bad, text) in zip(cand, pool.map(wit, cand)):
            m = re.search(r"REPLAY-ASSERT (.*?)(?: \(([^() ]*) vs ([^() ]*)\))?\n", text)
            if bad and m and j["m"] == "fpuf" and gross(m.group(2), m.group(3)):
                # the real code breaks the property on a solver model of a path
                violations.append((jobname(j), {"kind": "assert", "msg": m.group(1), "vars": w["vars"]}, text, j))
            elif bad:
                disagree.append(jobname(j) + ": " + text[:200])
            elif text.startswith("exit 0"):
                traces += 1
            if len(samples) < 6:
                samples.append({"job": jobname(j), "label": w["msg"],
                                "inputs": [[v[0], v[2]] for v in w["vars"][:24]]})
    for d in disagree:
        inconclusive.append("native run of a witness disagrees: " + d)

    rc = 0
    for nm, c, k in knownhit:
        log("KNOWN-FINDING: property=%s %s" % (a.prop, k[3]))
    if violations:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for nm, c, text, j in violations:
            if nm in seen:
                continue
            seen.add(nm)
            h = hashlib.sha1((nm + c["msg"]).encode()).hexdigest()[:8]
            path = os.path.join(rdir, "%s-%s.json" % (a.prop, h))
            json.dump({"property": a.prop, "job": {k: j[k] for k in ("h", "e", "a", "m")},
                       "kind": c["kind"], "msg": c["msg"], "vars": c["vars"],
                       "native": text, "rerun": "python3 check.py %s --replay %s" % (a.prop, path)},
                      open(path, "w"), indent=1)
            if len(seen) <= 5:
                log("%s: %s: %s" % (nm, c["kind"], c["msg"]))
                log("  inputs: " + ", ".join("%s=%s" % (v[0], v[2]) for v in c["vars"][:20]))
                log("  native: " + text.strip().replace("\n", " ")[:300])
                log("VIOLATION property=%s replay=%s" % (a.prop, path))
        rc = 1
    for t in inconclusive[:20]:
        log("inconclusive: " + t)
    fl = sorted({re.sub(r"<.*", "", f) for f in funcs})
    cov = {"states": tot["completed"], "transitions": tot["steps"],
           "traces_validated_against_impl": traces,
           "samples": samples or [{"job": jobname(j)} for j in jobs[:2]],
           "what_states_mean": "completed symbolic paths; transitions are IR instructions "
                               "executed symbolically; traces are solver models of completed "
                               "paths rerun on the natively compiled code",
           "bounds": p["bounds"], "functions_encoded": fl[:150],
           "jobs": perjob[:120], "assertions": msgs,
           "queries": {k: tot[k] for k in ("queries", "sat", "unsat", "unknown", "branch_queries")},
           "obligations_total": tot["obligations"],
           "discharged_by": {"constant": tot["by_constant"], "polynomial_normal_form": tot["by_normal_form"],
                             "smt": tot["by_smt"]},
           "normal_form_rechecked_by_z3": {"tried": tot["confirm_tried"], "confirmed": tot["confirmed"]},
           "infeasible_paths": tot["infeasible"], "solver_seconds": round(solver, 2),
           "build_seconds": round(tb, 1), "inconclusive": inconclusive[:40]}
    if p.get("gstores"):
        cov["global_stores"] = sorted(gst)
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": p["assumptions"], "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    if not a.noev:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", a.prop + ".json")
        json.dump(ev, open(path, "w"), indent=1)
    log("%s: %s, %d jobs, %d paths, %d obligations, %d queries, solver %.1fs, %d native traces, "
        "%d inconclusive, %.0fs" % (a.prop, "VIOLATED" if rc else "held", len(jobs), tot["paths"],
                                    tot["obligations"], tot["queries"], solver, traces,
                                    len(inconclusive), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
