"""C20: the RAM measuring utility, as its own script builds it, against the monitors' measurement."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import time

HASHES, SIZES, SPEEDS = ("sha2", "shake"), (128, 192, 256), ("f", "s")
# bytes by which the utility's figure may differ from the stack the operations really use: its own frames and
# the granularity of the pattern; measured on the unchanged tree it is within +-64
TOL = 160

FAKE_MAKE = """#!/bin/sh
# stands in for make: notes what the script asks for
case " $* " in *" ramspace "*) ;; *) exit 0;; esac
out=; set_=
for a in "$@"; do
    printf '%s\\n' "$a" >> "$RECORD"
    case "$a" in OUTPUT_FILE=*) out=${a#OUTPUT_FILE=};; PARM_SET=*) set_=${a#PARM_SET=};; esac
done
echo END >> "$RECORD"
echo "$set_ LINE" >> "$out"
"""


def copy_tree(K, name):
    d = os.path.join(K.WORK, name)
    os.mkdir(d)
    for f in os.listdir(os.path.join(K.WORK, "src")):
        shutil.copy(os.path.join(K.WORK, "src", f), d)
    return d


def ask_script(K):
    """what ramspace.py would build: [(set, DFLAGS)], and the file it leaves"""
    d = copy_tree(K, "script")
    b = os.path.join(K.WORK, "bin")
    os.mkdir(b)
    with open(b + "/make", "w") as f:
        f.write(FAKE_MAKE)
    os.chmod(b + "/make", 0o755)
    rec = os.path.join(K.WORK, "record")
    env = dict(K.ENV, PATH=b + ":" + K.ENV.get("PATH", "/usr/bin:/bin"), RECORD=rec)
    p = subprocess.run(["python3", "ramspace.py"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    asked = []
    if os.path.exists(rec):
        cur = {}
        for l in open(rec).read().splitlines():
            if l == "END":
                asked.append(cur)
                cur = {}
            elif "=" in l:
                k, v = l.split("=", 1)
                cur[k] = v
    out = ""
    o = os.path.join(d, "ramspace.out")
    if os.path.exists(o):
        out = open(o).read()
    return p, asked, out


def drive(prop, P, verbose, K):
    src = K.snapshot()
    ref = K.build_ref()
    agg = {"evaluations": 0, "distinct": 0, "stats": {}, "samples": [], "configs": {}, "viol": [], "skipped": []}

    def bad(cfg, key, detail, log=""):
        agg["viol"].append(({"cfg": cfg}, {"key": key, "case": 0, "detail": detail}, log))

    p, asked, out = ask_script(K)
    names = ["ts_ps_%s_%d%s_simple" % (h, z, s) for h in HASHES for z in SIZES for s in SPEEDS]
    if p.returncode:
        bad("ramspace.py", "script", "ramspace.py fails: %s" % p.stdout[-400:], p.stdout)
    got = [a.get("PARM_SET") for a in asked]
    for n in names:
        agg["evaluations"] += 1
        if got.count(n) != 1:
            bad("ramspace.py", "script", "ramspace.py measures %s %d times" % (n, got.count(n)))
        elif sum(l.startswith(n + " ") for l in out.splitlines()) != 1:
            bad("ramspace.py", "script", "the line of %s is not in the file ramspace.py leaves" % n)
    todo = []
    for a in asked:
        if a.get("PARM_SET") in names and not any(t[0] == a["PARM_SET"] for t in todo):
            todo.append((a["PARM_SET"], a.get("DFLAGS", ""), a.get("OUTPUT_FILE", "ramspace.out")))

    def job(t):
        name, dflags, outf = t
        short = name[len("ts_ps_"):-len("_simple")]
        t0 = time.time()
        d = copy_tree(K, "ru-" + short)
        of = os.path.join(d, "verif.out")
        env = dict(K.ENV)
        try:
            r = subprocess.run(["make", "ramspace", "DFLAGS=" + dflags, "PARM_SET=" + name, "OUTPUT_FILE=verif.out"], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
        except subprocess.TimeoutExpired:
            return name, None, None, "did not end", 0
        line = open(of).read() if os.path.exists(of) else ""
        t1 = time.time() - t0
        if r.returncode:
            return name, line, None, r.stdout[-1500:], t1
        # the same objects, measured from outside
        objs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".o")]
        exe = os.path.join(K.WORK, "mr-" + short)
        K.must(["gcc", "-std=gnu11", "-O2", *dflags.split(), "-pthread", "-I", d, "-I", K.V + "/harness", "-I", K.V + "/ref",
                K.V + "/harness/h.c", K.V + "/harness/p_ram.c", *objs, ref, "-o", exe, "-lcrypto", "-lm", "-Wl,-z,now"], "building the measuring monitor for " + name)
        run = {"h": "p_ram", "cfg": short, "i": 2000 + names.index(name), "mode": "measure", "jobs": 1}
        res = K.run_harness(exe, run, jobs=1)
        return name, line, res, "", t1

    # the slowest first
    todo.sort(key=lambda t: ("256s" not in t[0], "192s" not in t[0], "128s" not in t[0], "shake" not in t[0]))
    with cf.ThreadPoolExecutor(max_workers=K.JOBS) as ex:
        done = list(ex.map(job, todo))
    for name, line, res, log, secs in done:
        cfg = name[len("ts_ps_"):-len("_simple")]
        agg["configs"][cfg] = {"seconds": round(secs, 1)}
        if res is None:
            bad(cfg, "utility", "%s: the utility does not build or does not complete: %s" % (name, log[-300:]), log)
            continue
        if res["viol"]:
            for v in res["viol"]:
                bad(cfg, v["key"], v["detail"], res["err"])
            continue
        m = [res["stats"].get("measured " + k) for k in ("context", "key generation", "signing", "verification")]
        if None in m:
            raise K.Inconclusive("no measurement for %s: %s" % (name, res["err"][-800:]))
        if res["stats"].get("refused own signature"):
            raise K.Inconclusive("%s: the library refuses its own signature, nothing to compare with" % name)
        lines = [l for l in line.splitlines() if l.strip()]
        agg["evaluations"] += 5
        agg["distinct"] += 4
        f = lines[0].split() if len(lines) == 1 else []
        if len(f) != 5 or f[0] != name or not all(x.isdigit() for x in f[1:]):
            bad(cfg, "line", "%s: the utility wrote %r" % (name, line))
            continue
        v = [int(x) for x in f[1:]]
        if v[0] != m[0]:
            bad(cfg, "context", "%s: reported context of %d bytes, it has %d" % (name, v[0], m[0]))
        for i, what in ((1, "key generation"), (2, "signing"), (3, "verification")):
            agg["stats"]["largest difference seen (bytes)"] = max(agg["stats"].get("largest difference seen (bytes)", 0), abs(v[i] - m[i]))
            if abs(v[i] - m[i]) > TOL:
                bad(cfg, "figure", "%s: reported %d bytes for %s, measured %d" % (name, v[i], what, m[i]))
        agg["samples"].append("%s: reported context/keygen/sign/verify %s, measured %s" % (cfg, v, m))
        agg["stats"]["utility runs"] = agg["stats"].get("utility runs", 0) + 1
        agg["configs"][cfg].update(reported=v, measured=m)
        if verbose:
            K.say("  %-12s reported %s measured %s  %.1fs" % (cfg, v, m, secs))
    return agg, todo, 0.0
