"""C07 and C15: every tuning, several compilers, optimisation levels, ABI choices and word sizes."""
import hashlib
import itertools
import os
import re
import resource
import subprocess
import tempfile
import time

from lib.configs import tune, SANS


def all_tunings():
    out = []
    for shake, sha2 in ((1, 1), (1, 0), (0, 1)):
        for l5, l3, s, opt, keccak in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2)):
            name = "%s%s-%s-%s-opt%d-keccak%d" % ("shake" if shake else "", "sha2" if sha2 else "",
                                                  {(0, 0): "L1", (0, 1): "L3", (1, 0): "L5", (1, 1): "L5L3"}[(l5, l3)],
                                                  "fs" if s else "f", opt, keccak)
            out.append((name, tune(shake, sha2, l5, l3, s, opt, keccak)))
    return out


FULL = tune(1, 1, 1, 0, 1, 1, 0)
FULL2 = tune(1, 1, 1, 0, 1, 0, 2)
FULL1 = tune(1, 1, 1, 1, 1, 1, 1)

# name, compiler, flags, defs
def toolchains():
    t = []
    for cc in ("gcc", "clang"):
        for o in ("-O0", "-O1", "-O2", "-O3", "-Os", "-Oz" if cc == "clang" else "-Og"):
            t.append(("%s%s" % (cc, o), cc, o, FULL))
        for o in ("-funsigned-char", "-fshort-enums", "-fno-strict-aliasing", "-ftrapv", "-march=native", "-std=c99", "-std=c11 -pedantic"):
            t.append(("%s -O2 %s" % (cc, o), cc, "-O2 " + o, FULL if "char" not in o else FULL1))
        t.append(("%s -O3 keccak2" % cc, cc, "-O3", FULL2))
        t.append(("%s -O3 keccak1" % cc, cc, "-O3", FULL1))
        t.append(("%s -O0 keccak2" % cc, cc, "-O0", FULL2))
        t.append(("%s -O2 tune.h as it stands" % cc, cc, "-O2", ""))
    t.append(("gcc -O2 -flto", "gcc", "-O2 -flto", FULL))
    t.append(("gcc -O2 ALL_PARM_SETS", "gcc", "-O2", "-DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_SHAKE=1 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=1"))
    return t


def t32():
    L = []
    for cc, fl, defs, nm in (("gcc", "-O2", FULL, "full"), ("gcc", "-Os", FULL2, "full small"), ("clang", "-O2", FULL1, "full keccak1"), ("gcc", "-O1", tune(0, 1, 0, 1, 1, 1, 0), "sha2 L3"),
                             ("gcc", "-O3", tune(1, 0, 0, 0, 0, 0, 0), "shake L1f"), ("clang", "-Os", tune(0, 1, 0, 0, 0, 0, 0), "sha2 L1f"), ("gcc", "-O2", "", "tune.h as it stands")):
        L.append(("%s -m32 %s %s" % (cc, fl, nm), cc, fl + " -m32 -ffreestanding -fno-stack-protector -fno-pie -fcf-protection=none", defs))
    return L


class Cache:
    """objects by the hash of their preprocessed text"""

    def __init__(self, K):
        self.K, self.d, self.hits, self.made = K, {}, 0, 0
        self.dir = tempfile.mkdtemp(prefix="cache.", dir=K.WORK)

    def obj(self, cc, flags, defs, src, f, inc=()):
        K = self.K
        base = [cc, *flags.split(), *defs.split(), *inc, "-I", src]
        r = subprocess.run(base + ["-E", "-P", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=K.ENV)
        if r.returncode:
            return None, r.stderr.decode(errors="replace")[:500]
        key = hashlib.sha256(r.stdout + repr((cc, flags)).encode()).hexdigest()
        o = os.path.join(self.dir, key[:32] + ".o")
        if os.path.exists(o):
            self.hits += 1
            return o, ""
        t = o + ".%d.tmp" % (abs(hash((f, defs, time.time()))) % 10**9)
        r = K.sh(base + ["-c", f, "-o", t], env=K.ENV)
        if r.returncode:
            return None, r.stdout[:800]
        os.replace(t, o)
        self.made += 1
        return o, ""


def drive(prop, P, verbose, K):
    what = P["matrix"]           # results | sizes
    quick = K.TIER == "quick"
    src = K.snapshot()
    ref = K.build_ref()
    agg = {"evaluations": 0, "distinct": 0, "stats": {}, "samples": [], "configs": {}, "viol": [], "skipped": []}
    cache = Cache(K)
    # fixtures, by a build of the reference (and, for the table of names, the library) as in config A
    fxfile = os.path.join(K.WORK, "fx.bin")
    run = {"h": "p_mkfx", "cfg": "A", "i": 900, "mode": fxfile}
    exes, fails = K.build_all(src, [run], ref)
    if not exes[0]:
        raise K.Inconclusive("the library does not build in configuration A: %s" % list(fails.values())[:1])
    res = K.run_harness(exes[0], run)
    if res["rc"]:
        raise K.Inconclusive("fixtures: " + res["err"])

    asan = SANS["asan"]
    todo = []
    tun = all_tunings()
    for i, (name, defs) in enumerate(tun):
        ex = ""
        if what == "results" and (not quick or (i + K.SEED) % 6 == 0):
            ex = "+kg"
        if not quick and i % 4 == 0:
            ex += "+sg"
        if quick:
            ex += "+1"
        if what == "results":
            # options that belong to a hash function which is not built only need one sanitized build
            moot = quick and (("sha2" not in name and "opt%d" % (i // 3 % 4 // 2) not in name) or
                              ("shake" not in name and not name.endswith("keccak%d" % (i // 6 % 3))))
            if moot:
                todo.append((name, "gcc" if i % 2 else "clang", "-O1", defs, "", ex))
            else:
                todo.append((name + " asan+ubsan", "clang", asan["flags"], defs, "asan", ex))
        else:
            todo.append((name, "gcc" if (i // 3) % 2 else "clang", "-O1", defs, "", ex + ("+kg" if i % 12 == 0 else "")))
    if what == "results":
        for i, (name, cc, fl, defs) in enumerate(toolchains()):
            todo.append((name, cc, fl, defs, "", "+kg" if i % 3 == 0 or not quick else ""))
    else:
        todo.append(("everything, full signatures", "gcc", "-O2", FULL, "", "+kg+sg"))

    def build(i, t):
        name, cc, fl, defs, san, ex = t
        os_, err = [], ""
        for f in K.lib_sources(src):
            o, e = cache.obj(cc, fl, defs, src, os.path.join(src, f))
            if not o:
                return None, "%s does not compile: %s" % (f, e)
            os_.append(o)
        inc = ("-I", K.V + "/harness", "-I", K.V + "/ref")
        hs = []
        for f in ("h.c", "p_conf.c"):
            hf = " ".join(x for x in fl.split() if re.match(r"-f(unsigned-char|short-enums)$|-march", x)) + (" -DH_SAN" if san else "")
            o, e = cache.obj(cc, hf, defs, src, K.V + "/harness/" + f, inc)
            if not o:
                return None, "the header does not compile with a program: %s" % e
            hs.append(o)
        exe = os.path.join(K.WORK, "conf-%d" % i)
        r = K.sh([cc, *fl.split(), *os_, *hs, ref, "-o", exe, "-lcrypto", "-lm", "-pthread"], env=K.ENV)
        if r.returncode:
            return None, "does not link: " + r.stdout[-800:]
        return exe, ""

    decided = []    # a violation ends the run: a library that hangs would hang in most builds
    known = K.load_known(prop)

    def job(a):
        i, t = a
        if decided:
            return t, False, ""
        name, cc, fl, defs, san, ex = t
        exe, err = build(i, t)
        if not exe:
            return t, None, err
        run = {"h": "p_conf", "cfg": name, "i": 1000 + i, "mode": "%s%s:%s" % (what, ex, fxfile), "jobs": 1, "san": san}
        try:
            res = K.run_harness(exe, run, jobs=1)
        finally:
            os.unlink(exe)
        if any(not K.known_match(known, {"cfg": name}, v) for v in res["viol"]):
            decided.append(1)
        return t, res, ""

    import concurrent.futures as cf
    # the slow ones first
    order = sorted(enumerate(todo), key=lambda a: (a[1][4] == "", "keccak2" not in a[1][0], "L5" not in a[1][0]))
    with cf.ThreadPoolExecutor(max_workers=K.JOBS) as ex2:
        for t, res, err in ex2.map(job, order):
            name = t[0]
            run = {"cfg": name, "compiler": t[1], "flags": t[2], "defs": t[3]}
            if res is False:
                continue
            if res is None:
                decided.append(1)
                agg["viol"].append((run, {"key": "build", "case": 0, "detail": "%s (%s): %s" % (name, t[3], err)}, err))
                continue
            collect(agg, run, res, K)
    if what == "results" and not decided:
        def job32(a):
            i, (name, cc, fl, defs) = a
            os_ = []
            for f in [os.path.join(src, f) for f in K.lib_sources(src)] + [K.V + "/free/main32.c"]:
                o, e = cache.obj(cc, fl, defs, src, f, ("-I", K.V + "/free"))
                if not o:
                    return name, None, e
                os_.append(o)
            exe = os.path.join(K.WORK, "m32-%d" % i)
            r = K.sh([cc, "-m32", "-nostdlib", "-static", "-no-pie", *os_, "-o", exe], env=K.ENV)
            if r.returncode:
                return name, None, r.stdout[-800:]
            with open(fxfile, "rb") as f:
                p = subprocess.run([exe], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (120, 125)))
            return name, p, ""
        if can32(K):
            with cf.ThreadPoolExecutor(max_workers=K.JOBS) as ex2:
                for name, p, err in ex2.map(job32, enumerate(t32())):
                    run = {"cfg": name}
                    if p is None:
                        # a new libc dependency is not a defect; only report when the 32-bit build itself is refused
                        agg["skipped"].append(name + ": " + err[:200])
                        continue
                    res = {"viol": [], "samples": [], "died": [], "stats": {}, "distinct": 0, "done": None, "total": 1, "err": "", "rc": p.returncode}
                    for l in p.stdout.decode().splitlines():
                        f = l.split("\t")
                        if f[0] == "VIOL":
                            res["viol"].append({"key": f[1], "case": 0, "detail": name + ": " + f[3]})
                        elif f[0] == "STAT" and f[1] == "evaluations":
                            res["stats"][f[1]] = int(f[2])
                            res["distinct"] = int(f[2])
                        elif f[0] == "DONE":
                            res["done"] = 1
                    if p.returncode < 0:
                        res["viol"].append({"key": "crash", "case": 0, "detail": "%s: signal %d" % (name, -p.returncode)})
                    collect(agg, run, res, K)
        else:
            agg["skipped"].append("32-bit builds: not possible here")
    agg["stats"]["objects compiled"] = cache.made
    agg["stats"]["objects shared between configurations"] = cache.hits
    return agg, todo, 0.0


def can32(K):
    c = os.path.join(K.WORK, "c32.c")
    with open(c, "w") as f:
        f.write('void _start(void){__asm__ volatile("int $0x80"::"a"(1),"b"(7));}\n')
    e = c[:-2]
    r = K.sh(["gcc", "-m32", "-ffreestanding", "-nostdlib", "-static", "-no-pie", "-fno-pie", c, "-o", e], env=K.ENV)
    return r.returncode == 0 and subprocess.run([e]).returncode == 7


def collect(agg, run, res, K):
    if res["done"] is None and not res["viol"]:
        raise K.Inconclusive("%s ended without a summary (rc %s) %s" % (run["cfg"], res["rc"], res["err"][-1500:]))
    if not res["viol"] and res["done"] != res["total"]:
        raise K.Inconclusive("%s did not finish: %s" % (run["cfg"], res["err"][-1500:]))
    agg["stats"]["slowest case, ms of CPU"] = max(agg["stats"].get("slowest case, ms of CPU", 0), int(1000 * res.get("slowest", 0)))
    agg["evaluations"] += res["stats"].pop("evaluations", 0)
    agg["distinct"] += res["distinct"]
    for k, v in res["stats"].items():
        agg["stats"][k] = agg["stats"].get(k, 0) + v
    if len(agg["samples"]) < 20:
        agg["samples"] += res["samples"]
    agg["configs"][run["cfg"]] = {"sets": res["done"], "comparisons": res["distinct"]}
    for v in res["viol"]:
        agg["viol"].append((run, v, res["err"]))
