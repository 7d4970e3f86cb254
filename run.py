#!/usr/bin/env python3
"""Build a harness against /repo's working tree, explore it exhaustively within its bounds, report.

  run.py <ID> [--tier quick|thorough] [--replay FILE] [--shards N]

exit 0: the property held on everything explored; exit 1: VIOLATION line(s); anything else: error of the check.
"""
import argparse, atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from checks import CHECKS, VARIANTS  # noqa: E402

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-ftrivial-auto-var-init=pattern", "-fpermissive", "-flax-vector-conversions",
          "-I" + REPO + "/include", "-I" + V + "/harness"]


def defines(variant):
    d = {"FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES": 1, "FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES": 1,
         "FASTGLTF_USE_64BIT_FLOAT": 0, "FASTGLTF_USE_CUSTOM_SMALLVECTOR": 0, "FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL": 0}
    d.update(VARIANTS[variant].get("defines", {}))
    return ["-D%s=%s" % kv for kv in d.items()]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO + "/include", REPO + "/src", V + "/harness"):
        for r, ds, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def file_hash(src, flags, pre):
    """Content key of one translation unit: its preprocessed text, the flags and the compiler."""
    return hashlib.sha256((pre + "\0" + " ".join(flags)).encode("utf8", "replace")).hexdigest()[:24]


def compile_one(job):
    cc, src, flags = job
    os.makedirs(BUILD + "/obj", exist_ok=True)
    pre = subprocess.run([cc, "-E", "-P"] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if pre.returncode:
        return None, pre.stderr
    key = file_hash(src, [cc] + flags, pre.stdout)
    obj = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).replace(".", "_"), key)
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([cc] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, obj)
    return obj, ""


def not_compiling(cid, cmd, err):
    """A configuration of the library does not compile; a finding if the library as such (its default options) does."""
    src = cmd[-1]
    if sh(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I" + REPO + "/include", src]).returncode:
        print("BUILD FAILED: %s\n%s" % (src, err[-6000:]))
        sys.exit(2)
    os.makedirs(BUILD + "/replay", exist_ok=True)
    path = "%s/replay/%s-build.json" % (BUILD, cid)
    json.dump({"property": cid, "key": "does not compile", "command": cmd, "output": err[-6000:]}, open(path, "w"), indent=1)
    print("VIOLATION property=%s replay=%s\n  does not compile: %s\n%s" % (cid, path, " ".join(cmd), err[-1500:]))
    sys.exit(1)


def configurations(cid):
    """Every combination of the options compiles (sources of the library, all supported language standards)."""
    from itertools import product
    cmds = []
    for i, (std, f64, sv, pool) in enumerate(product((17, 20, 23), (0, 1), (0, 1), (0, 1))):
        ext = (f64 + sv + pool + i // 8) % 2
        d = ["-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=%d" % ext, "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=%d" % ext, "-DFASTGLTF_USE_64BIT_FLOAT=%d" % f64,
             "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=%d" % sv, "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=%d" % pool]
        cmds += [["g++", "-std=c++%d" % std, "-w", "-fsyntax-only"] + d + ["-I" + REPO + "/include", "%s/src/%s.cpp" % (REPO, s)] for s in ("fastgltf", "io", "base64")]
    cmds += [["clang++", "-std=c++%d" % std, "-w", "-fsyntax-only", "-I" + REPO + "/include", "%s/src/%s.cpp" % (REPO, s)] for std in (17, 20, 23) for s in ("fastgltf", "io", "base64")]
    with ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(cmds, ex.map(sh, cmds)):
            if r.returncode:
                not_compiling(cid, cmd, r.stdout)
    return len(cmds)


def build(cid, conf):
    """Returns [(variant, binary)]"""
    jobs, plan = [], []
    for variant in conf.get("variants", ["asan"]):
        vc = VARIANTS[variant]
        cc = vc.get("cc", "g++")
        flags = COMMON + vc["flags"] + defines(variant)
        srcs = []
        if conf.get("lib", True):
            for s in ("fastgltf", "base64", "io"):
                srcs.append((cc, "%s/src/%s.cpp" % (REPO, s), flags + vc.get("libflags", [])))
        for s in [conf["harness"]] + conf.get("extra", []) + vc.get("extra", []):
            s, own = (s, []) if isinstance(s, str) else s
            srcs.append((cc, V + "/harness/" + s, flags + own + conf.get("flags", [])))
        jobs += srcs
        plan.append((variant, cc, srcs, vc))
    uniq = {json.dumps(j): j for j in jobs}
    # big translation units first
    order = sorted(uniq.values(), key=lambda j: 0 if "fastgltf.cpp" in j[1] else 1)
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip([json.dumps(j) for j in order], ex.map(compile_one, order)))
    out = []
    for variant, cc, srcs, vc in plan:
        objs = []
        for s in srcs:
            o, err = res[json.dumps(s)]
            if o is None:
                # a configuration which does not compile although the library as such does
                if conf.get("builds") and s[1].startswith(REPO + "/src/"):
                    not_compiling(cid, [s[0]] + s[2] + ["-c", s[1]], err)
                print("BUILD FAILED: %s\n%s" % (s[1], err[-6000:]))
                sys.exit(2)
            objs.append(o)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        b = "%s/bin/%s-%s" % (BUILD, cid, variant)
        r = sh([cc] + vc.get("ldflags", vc["flags"]) + objs + ["-o", b, "-lsimdjson", "-lpthread"] + conf.get("libs", []))
        if r.returncode:
            print("LINK FAILED\n" + r.stdout[-6000:])
            sys.exit(2)
        out.append((variant, b))
    return out


TMP = None


def env():
    global TMP
    e = dict(os.environ)
    if TMP is None:                      # scratch files of the harnesses
        TMP = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, TMP, ignore_errors=True)
    e["TMPDIR"] = TMP
    e["ASAN_OPTIONS"] = ("abort_on_error=1:handle_abort=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:"
                         "detect_stack_use_after_return=0:quarantine_size_mb=8:hard_rss_limit_mb=3500:"
                         "detect_container_overflow=1:malloc_context_size=6:symbolize=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    e["MALLOC_ARENA_MAX"] = "2"
    e["MALLOC_PERTURB_"] = "165"   # uninitialised memory is never zero by luck
    return e


def findings(cid):
    known, p = {}, V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l.strip())
            if m and m.group(1) == cid:
                known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    cid = a.id
    conf = CHECKS[cid]
    t0 = time.time()
    bins = build(cid, conf)
    built = configurations(cid) if conf.get("builds") else 0
    tb = time.time() - t0
    if a.build_only:
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        b = dict(bins)[r["variant"]]
        p = subprocess.run([b, "--tier", r["tier"], "--replay", r["trace"]], env=env())
        print("replay exit", p.returncode)
        return 1 if p.returncode else 0
    deadline = a.deadline or (480 if a.tier == "quick" else conf.get("thorough_deadline", 3000))
    deadline /= len(bins)
    agg = dict(executions=0, transitions=0, states=0, outcomes=0, nontrivial=0, capped=False, samples=[], per_variant={})
    vios = []
    for variant, b in bins:
        work = "%s/work/%s-%s" % (BUILD, cid, variant)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        out = work + "/out.json"
        p = subprocess.run([b, "--out", out, "--work", work, "--tier", a.tier, "--shards", str(a.shards), "--deadline", str(deadline),
                            "--hang", "60"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0 or not os.path.exists(out):
            print("HARNESS ERROR (%s): exit %s\n%s" % (variant, p.returncode, p.stdout[-4000:]))
            return 3
        r = json.load(open(out))
        for k in ("executions", "transitions", "states", "outcomes", "nontrivial"):
            agg[k] += r[k]
        agg["capped"] |= r["capped"]
        agg["samples"] += r["samples"][:6]
        agg["per_variant"][variant] = {k: r[k] for k in ("executions", "transitions", "states", "outcomes", "wall", "capped")}
        for v in r["violations"]:
            v["variant"], v["bin"] = variant, b
            vios.append(v)
    known = findings(cid)
    by_key = {}
    for v in vios:
        o = by_key.get(v["key"])
        if o is None or len(v["trace"]) < len(o["trace"]) or (len(v["trace"]) == len(o["trace"]) and v["trace"] < o["trace"]):
            by_key[v["key"]] = v
    code, shown, nv = 0, 0, 0
    os.makedirs(BUILD + "/replay", exist_ok=True)
    for key in sorted(by_key):
        v = by_key[key]
        if key in known:
            print("KNOWN-FINDING: property=%s %s %s" % (cid, key, known[key]))
            continue
        confirmed = "not re-run"
        if shown < 6:
            try:
                p = subprocess.run([v["bin"], "--tier", a.tier, "--replay", v["trace"]], env=env(), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace")
                confirmed = "reproduced" if p.returncode else "not reproduced in isolation"
                notes = "\n".join(l for l in p.stdout.splitlines() if l.startswith(("NOTE", "FAIL", "DETAIL")))[-3000:]
            except subprocess.TimeoutExpired:
                confirmed, notes = "reproduced (no answer within 120 s)", ""
            if key.endswith(":hang") and confirmed == "not reproduced in isolation":
                print("note: %s finished when replayed alone, not reported" % key)
                continue
        else:
            notes = ""
        nv += 1
        path = "%s/replay/%s-%d.json" % (BUILD, cid, nv)
        json.dump({"property": cid, "key": key, "tier": a.tier, "variant": v["variant"], "trace": v["trace"], "detail": v["detail"],
                   "confirmed": confirmed, "notes": notes, "how": "python3 run.py %s --replay %s" % (cid, path)}, open(path, "w"), indent=1)
        if shown < 25:
            print("VIOLATION property=%s replay=%s" % (cid, path))
            print("  key=%s [%s]" % (key, confirmed))
            print("  " + v["detail"][:1200].replace("\n", "\n  "))
        shown += 1
        code = 1
    cov = dict(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["executions"],
               distinct_observed_outcomes=agg["outcomes"], exhaustive=not agg["capped"], samples=agg["samples"][:8] or ["(none)"],
               bounds=conf["bounds"][0 if a.tier == "quick" else -1], per_variant=agg["per_variant"], build_s=round(tb, 1),
               explanation="Every choice sequence within the bounds is executed on the real code (compiled from the working tree) "
                           "in lockstep with the reference model; each execution is therefore also a validated trace.")
    if built:
        cov["translation_units_compiled"] = built
    if conf["level"] != "model_checking":
        cov.update(evaluations=agg["executions"], distinct_nontrivial=agg["nontrivial"] or agg["states"], rule=conf["rule"])
    ev = dict(property=cid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=conf["level"], coverage=cov,
              assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=nv)
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, cid), "w"), indent=1)
    print("%s %s: executions=%d states=%d transitions=%d outcomes=%d capped=%s violations=%d build=%.0fs wall=%.0fs" % (
        cid, a.tier, agg["executions"], agg["states"], agg["transitions"], agg["outcomes"], agg["capped"], nv, tb, time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
