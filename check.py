#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [--only-run N] [--verbose]

Builds the library from /repo's working tree in several configurations, runs the monitors of one
property against it and writes evidence/PROPERTY.json.

exit 0  the property held on everything that was run
exit 1  a violation ("VIOLATION property=<id> replay=<path>" on stdout)
exit 2  no verdict (a build of the monitors, the oracle's self test or a resource failed)
"""
import atexit
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = os.cpu_count() or 4
T0 = time.time()

from lib.configs import CONFIGS, SANS          # noqa: E402
from lib.props import PROPS                    # noqa: E402


class Inconclusive(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ scratch
WORK = tempfile.mkdtemp(prefix="verif.")


def cleanup():
    shutil.rmtree(WORK, ignore_errors=True)


atexit.register(cleanup)


def on_term(s, f):
    sys.exit(2)


signal.signal(signal.SIGTERM, on_term)

NOT_LIB = re.compile(r"^(test_.*|ramspace|get_space.*|stack)\.c$")


def snapshot():
    """Copy the working tree's sources, so that one run judges one version."""
    d = os.path.join(WORK, "src")
    os.mkdir(d)
    for f in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and (f.endswith((".c", ".h", ".inc", ".py")) or f in ("Makefile", "ramspace.out")):
            shutil.copy(p, d)
    return d


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          text=True, errors="replace", **kw)


def lib_sources(src):
    return sorted(f for f in os.listdir(src) if f.endswith(".c") and not NOT_LIB.match(f))


# ------------------------------------------------------------------ builds
POOL = cf.ThreadPoolExecutor(max_workers=JOBS)
ENV = dict(os.environ, LC_ALL="C.UTF-8")
for k in ("MAKEFLAGS", "CFLAGS", "DFLAGS", "CC"):
    ENV.pop(k, None)


def cc_of(run):
    c = CONFIGS[run["cfg"]]
    san = run.get("san", "")
    cc = run.get("cc") or (SANS[san]["cc"] if san else c["cc"])
    flags = (SANS[san]["flags"] if san else run.get("flags") or c["flags"])
    return cc, flags.split(), c["defs"].split(), san


class LibFailed(Exception):
    pass


def build_lib(src, cc, flags, defs, extra=()):
    """returns the directory with the objects, or raises LibFailed"""
    d = tempfile.mkdtemp(prefix="lib.", dir=WORK)

    def one(f):
        o = os.path.join(d, f[:-2] + ".o")
        r = sh([cc, "-c", *flags, *defs, *extra, "-I", src, os.path.join(src, f), "-o", o], env=ENV)
        return f, r.returncode, r.stdout
    out = list(POOL.map(one, lib_sources(src)))
    bad = [(f, t) for f, rc, t in out if rc]
    if bad:
        raise LibFailed("%s %s: %s" % (cc, " ".join(defs), "; ".join("%s: %s" % (f, t[:300]) for f, t in bad[:2])))
    return d


def objs(d):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o"))


def must(cmd, what, timeout=600):
    try:
        r = sh(cmd, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("%s: timed out" % what)
    if r.returncode:
        raise Inconclusive("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build_ref():
    """the oracle, with its own self test"""
    o = os.path.join(WORK, "ref.o")
    t = os.path.join(WORK, "selftest")
    for march in (["-march=native"], []):
        r = sh(["gcc", "-O3", *march, "-c", V + "/ref/ref.c", "-I", V + "/ref", "-o", o], env=ENV)
        if r.returncode:
            continue
        r = sh(["gcc", "-O1", V + "/ref/selftest.c", "-I", V + "/ref", o, "-o", t, "-lcrypto"], env=ENV)
        if r.returncode:
            continue
        r = sh([t, "quick"] if TIER == "quick" else [t], env=ENV)
        if r.returncode == 0:
            return o
    raise Inconclusive("the reference model does not build or fails its known answers: " + r.stdout[-500:])


PLAIN = []
PLAIN_LOCK = threading.Lock()


def plain_ref(refobj):
    """valgrind does not know every instruction of this processor"""
    with PLAIN_LOCK:
        if not PLAIN:
            o = os.path.join(WORK, "ref_plain.o")
            must(["gcc", "-O2", "-c", V + "/ref/ref.c", "-I", V + "/ref", "-o", o], "building the reference model")
            PLAIN.append(o)
    return PLAIN[0]


def build_harness(src, run, libdir, refobj):
    if "wrap" in run:
        refobj = plain_ref(refobj)
    cc, flags, defs, san = cc_of(run)
    hz = run["h"]
    exe = os.path.join(WORK, "%s-%d" % (hz, run["i"]))
    thelib = objs(libdir)
    if run.get("shared"):   # the library's static storage becomes a module of its own
        thelib = [os.path.join(libdir, "libundertest.so"), "-Wl,-rpath," + libdir]
        if not os.path.exists(thelib[0]):
            tmp = os.path.join(libdir, "so.%d.tmp" % run["i"])
            must([cc, "-shared", "-Wl,-z,now,-z,relro", *flags, *objs(libdir), "-Wl,-soname,libundertest.so", "-o", tmp], "linking the library as a shared object")
            os.rename(tmp, thelib[0])
    cmd = [cc, "-std=gnu11", *flags, *defs, *run.get("hdefs", "").split(), "-pthread", "-I", src, "-I", V + "/harness", "-I", V + "/ref",
           V + "/harness/h.c", V + "/harness/%s.c" % hz, *thelib, refobj, "-o", exe, "-lcrypto", "-ldl", "-lm",
           *run.get("ldflags", "").split()]
    if run.get("internal"):     # the workload may choose hypertree positions, if the library's internals are as known
        r = sh(cmd + ["-DHAVE_INTERNAL", V + "/harness/chosen.c", *([V + "/harness/watch.c"] if run["internal"] == 2 else [])], env=ENV)
        if r.returncode == 0:
            return exe
    if run.get("try"):          # what the monitor knows of the library's inside, if it still holds
        r = sh(cmd + run["try"].split(), env=ENV)
        if r.returncode == 0:
            return exe
    must(cmd, "building the monitor %s" % hz)
    return exe


# ------------------------------------------------------------------ running
LINE = re.compile(r"^(VIOL|SAMPLE|DIED|STAT|DISTINCT|SLOWEST|DONE)\t")


def run_harness(exe, run, only=None, seed=None, tier=None, jobs=None, logname="log"):
    san = run.get("san", "")
    env = dict(ENV)
    if san:
        for k, v in SANS[san]["env"].items():
            env[k] = v
    cmd = [exe, "--seed", str(seed if seed is not None else SEED), "--tier", tier or TIER, "--tag", run["cfg"],
           "--scale", repr(float(run.get("scale", 1)) * (float(run.get("tscale", 1)) if (tier or TIER) == "thorough" else 1)), "--mode", run.get("mode", "")]
    j = jobs or run.get("jobs")
    if j:
        cmd += ["--jobs", str(j)]
    if only is not None:
        cmd += ["--only", str(only)]
    if "wrap" in run:
        cmd = run["wrap"].split() + cmd
    limit = run.get("timeout", 700 if TIER == "quick" else 7200)
    with open(os.path.join(WORK, "%s-%d.err" % (logname, run["i"])), "w+", errors="replace") as err:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, env=env, text=True, errors="replace", cwd=WORK,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Inconclusive("run %s/%s timed out after %d s" % (run["h"], run["cfg"], limit))
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        err.seek(0)
        errtext = err.read()
    res = {"viol": [], "samples": [], "died": [], "stats": {}, "distinct": 0, "done": None, "total": None,
           "err": errtext, "rc": p.returncode, "slowest": 0}
    for l in out.splitlines():
        if not LINE.match(l):
            continue
        f = l.split("\t")
        if f[0] == "VIOL":
            res["viol"].append({"key": f[1], "case": int(f[2]), "detail": f[3]})
        elif f[0] == "SAMPLE":
            res["samples"].append("[%s] %s" % (run["cfg"] + ("/" + san if san else ""), f[3]))
        elif f[0] == "DIED":
            res["died"].append(f)
        elif f[0] == "STAT":
            res["stats"][f[1]] = res["stats"].get(f[1], 0) + int(f[2])
        elif f[0] == "DISTINCT":
            res["distinct"] += int(f[1])
        elif f[0] == "SLOWEST":
            res["slowest"] = int(f[1]) / 1000
        elif f[0] == "DONE":
            res["done"], res["total"] = int(f[1]), int(f[2])
    return res


def load_known(prop):
    try:
        k = json.load(open(os.path.join(V, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [e for e in k.get("findings", []) if e.get("property") == prop and e.get("status") == "known"]


def known_match(known, run, v):
    for e in known:
        if e["key"] == v["key"] and re.search(e.get("detail", ""), v["detail"]) and \
                (not e.get("config") or e["config"] == run["cfg"]):
            return e
    return None


def write_replay(prop, run, v, errtext):
    d = os.path.join(V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    doc = {"property": prop, "seed": SEED, "tier": TIER, "run": run, "case": v["case"], "key": v["key"],
           "detail": v["detail"], "sanitizer_log": errtext[-6000:],
           "how": "python3 /verif/check.py %s --replay %s" % (prop, p)}
    json.dump(doc, open(p, "w"), indent=1)
    return p


# ------------------------------------------------------------------ one property
def build_all(src, runs, refobj):
    """builds every distinct library and every monitor; returns exe per run (None: the library does not build)"""
    libs = {}
    fails = {}
    ex2 = cf.ThreadPoolExecutor(max_workers=6)

    def libkey(run):
        cc, flags, defs, san = cc_of(run)
        return (cc, tuple(flags), tuple(defs), (run.get("libextra", "") + (" -fPIC" if run.get("shared") else "")).strip())

    def mk(k):
        try:
            return k, build_lib(src, k[0], k[1], k[2], k[3].split()), None
        except LibFailed as e:
            return k, None, str(e)
    for k, d, e in ex2.map(mk, sorted(set(libkey(r) for r in runs))):
        libs[k] = d
        if e:
            fails[k] = e

    def hz(run):
        d = libs[libkey(run)]
        return build_harness(src, run, d, refobj) if d else None
    exes = list(ex2.map(hz, runs))
    return exes, fails


def standard(prop, P, verbose):
    src = snapshot()
    runs = [dict(r) for r in P["runs"](TIER)]
    for i, r in enumerate(runs):
        r["i"] = i
    refobj = build_ref()
    exes, fails = build_all(src, runs, refobj)
    t_build = time.time() - T0
    agg = {"evaluations": 0, "distinct": 0, "stats": {}, "samples": [], "configs": {}, "viol": [], "skipped": []}
    results = {}

    def go(run, exe):
        t = time.time()
        return run_harness(exe, run), time.time() - t
    groups = sorted(set(r["group"] for r in runs if r.get("group")))
    for run, exe in zip(runs, exes):
        tag = run["cfg"] + ("/" + run["san"] if run.get("san") else "") + ("/" + run["mode"] if run.get("mode") else "")
        while tag in agg["configs"]:
            tag += "'"
        if exe is None:
            agg["skipped"].append(tag)
            continue
        g = run.get("group")
        if g in groups:     # single-worker runs of a group go side by side
            groups.remove(g)
            mem = [(r, e) for r, e in zip(runs, exes) if r.get("group") == g and e]
            with cf.ThreadPoolExecutor(max_workers=JOBS) as ex3:
                for (r, e), v in zip(mem, ex3.map(lambda x: go(*x), mem)):
                    results[r["i"]] = v
        res, wall = results[run["i"]] if g else go(run, exe)
        if res["done"] is None and not res["viol"]:
            raise Inconclusive("run %s ended without a summary (rc %s)\n%s" % (tag, res["rc"], res["err"][-2000:]))
        unexplained = [d for d in res["died"] if not any(v["case"] == int(d[2]) for v in res["viol"])]
        if unexplained and not res["viol"]:
            raise Inconclusive("a worker of %s died without a verdict: %s\n%s" % (tag, unexplained, res["err"][-2000:]))
        if not res["viol"] and res["done"] != res["total"]:
            raise Inconclusive("run %s did %s of %s cases" % (tag, res["done"], res["total"]))
        if not res["viol"] and not run.get("allow_few") and not res["distinct"]:
            raise Inconclusive("run %s observed nothing" % tag)
        agg["evaluations"] += res["stats"].pop("evaluations", res["done"] or 0)
        agg["distinct"] += res["distinct"]
        for k, v in res["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["samples"] += res["samples"][:max(1, 32 // len(runs))]
        agg["configs"][tag] = {"cases": res["done"], "distinct": res["distinct"], "seconds": round(wall, 1), "slowest_case_cpu_s": res["slowest"]}
        if verbose:
            say("  %-24s %-10s cases %s distinct %s  %.1fs slowest %.2fs  %s" % (run["h"] + ":" + tag, "", res["done"], res["distinct"], wall, res["slowest"], res["stats"]))
        for v in res["viol"]:
            agg["viol"].append((run, v, res["err"]))
        known = load_known(prop)
        if any(not known_match(known, run, v) for v in res["viol"]):
            break       # decided; what is left could take long in a library that hangs
    if fails and len(agg["skipped"]) == len(runs):
        raise Inconclusive("the library builds in none of the configurations: %s" % list(fails.values())[0])
    return agg, runs, t_build


def main():
    args = sys.argv[1:]
    verbose = "--verbose" in args
    args = [a for a in args if a != "--verbose"]
    prop = args[0]
    P = PROPS[prop]
    if "--replay" in args:
        return replay(prop, P, args[args.index("--replay") + 1])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    special = P.get("driver")
    if special:
        import importlib
        mod = importlib.import_module("lib." + special)
        agg, runs, t_build = mod.drive(prop, P, verbose, sys.modules[__name__])
    else:
        agg, runs, t_build = standard(prop, P, verbose)
    known = load_known(prop)
    new, seen = [], {}
    for run, v, err in agg["viol"]:
        e = known_match(known, run, v)
        if e:
            seen[e["id"]] = e
        else:
            new.append((run, v, err))
    # every listed finding is reported on every run, whether or not this run's workload met it
    for e in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": P.get("level", "exploration"),
          "coverage": {"evaluations": int(agg["evaluations"]), "distinct_nontrivial": int(agg["distinct"]),
                       "rule": P["rule"], "samples": agg["samples"][:40] or ["(none)"],
                       "observed": agg["stats"], "configurations": agg["configs"],
                       "configurations_not_building": agg["skipped"]},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    path = os.path.join(V, "evidence", prop + ".json")
    tmp = path + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, path)
    if new:
        run, v, err = new[0]
        rp = write_replay(prop, run, v, err)
        for r2, v2, _ in new[:8]:
            say("  %s %s case %s: %s" % (r2.get("cfg"), v2["key"], v2["case"], v2["detail"]))
        if err.strip():
            m = re.search(r"(ERROR|WARNING): \w+Sanitizer.*|runtime error.*", err)
            if m:
                say("  " + m.group(0)[:300])
        say("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    say("OK property=%s tier=%s evaluations=%d distinct=%d configs=%d build %.1fs wall %.1fs" % (
        prop, TIER, agg["evaluations"], agg["distinct"], len(agg["configs"]), t_build, time.time() - T0))
    return 0


def replay(prop, P, path):
    doc = json.load(open(path))
    if P.get("driver") and "h" not in doc["run"]:
        say("this violation is replayed by running the whole check: " + doc["detail"])
        return main_again(prop)
    src = snapshot()
    run = doc["run"]
    run["i"] = 0
    refobj = build_ref()
    exes, fails = build_all(src, [run], refobj)
    if not exes[0]:
        say("the library does not build: %s" % fails)
        return 2
    res = run_harness(exes[0], run, only=doc["case"], seed=doc["seed"], tier=doc["tier"])
    for v in res["viol"]:
        say("  %s case %s: %s" % (v["key"], v["case"], v["detail"]))
    if res["err"].strip():
        say(res["err"][-4000:])
    if res["viol"]:
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    say("not reproduced")
    return 0


def main_again(prop):
    sys.argv = [sys.argv[0], prop]
    return main()


if __name__ == "__main__":
    try:
        rc = main()
    except Inconclusive as e:
        say("INCONCLUSIVE: %s" % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        say("INCONCLUSIVE: timeout %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
