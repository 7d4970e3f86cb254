#!/usr/bin/env python3
"""Maintains /verif/seeded from the descriptions in seeds_src.py (edits as text pairs, so that patches can be regenerated
when /repo's HEAD moves).   seedtool.py gen | verify [ID...] | check ID...
gen: write seeded/<id>/; verify: in a scratch copy, build + stable tests + demo on the patched tree, demo on the plain tree;
check: apply to /repo, run the property's check, undo."""
import sys, os, json, subprocess, shutil, difflib
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
from seeds_src import SEEDS
REPO = os.environ.get("VERIF_REPO", "/repo"); SR = os.environ.get("VERIF_SR", "/tmp/w/sr")
DEMO_SH = '''#!/bin/bash
# Exit 0 when the property holds for this demonstration, nonzero otherwise. Run in the repository after its build.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -w %s -DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1 -DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1 -I"$repo/include" "$here/demo.cpp" "$repo/_build/libfastgltf.a" $(ls "$repo"/_build/lib*simdjson*.a "$repo"/_build/deps/*simdjson*.a 2>/dev/null) -lsimdjson -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 60 ./demo
'''
def patched(s):
    files = {}
    for path, old, new in s["edits"]:
        t = files.get(path) or open(os.path.join(REPO, path)).read()
        k = s.get("nth", {}).get(old)
        if k is None:
            if t.count(old) != 1: raise SystemExit(f"{s['id']}: {t.count(old)} matches in {path} for:\n{old}")
            t = t.replace(old, new)
        else:
            parts = t.split(old); t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        files[path] = t
    return files
def gen():
    ids = set()
    for s in SEEDS:
        d = os.path.join(V, "seeded", s["id"]); ids.add(s["id"]); os.makedirs(d, exist_ok=True); diff = ""
        for path, t in patched(s).items():
            o = open(os.path.join(REPO, path)).read()
            for l in difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + path, "b/" + path): diff += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh") or DEMO_SH % s.get("flags", "")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if "demo" in s: open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
        for n, c in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    root = os.path.join(V, "seeded")
    for n in os.listdir(root):
        if n not in ids: shutil.rmtree(os.path.join(root, n))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    if not os.path.isdir(SR): sh(f"git -C {REPO} worktree add --detach {SR} HEAD")
    print(sh(f"git -C {SR} checkout -q --detach $(git -C {REPO} rev-parse HEAD) && git -C {SR} checkout -q -- .").stdout, end="")
    if not os.path.exists(SR + "/_build/build.ninja"):
        r = sh(f"CC=gcc CXX=g++ cmake -S {SR} -B {SR}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFASTGLTF_ENABLE_TESTS=ON -DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=ON -DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GLM=/opt/vp/cmake/glm -DFETCHCONTENT_SOURCE_DIR_CATCH2=/opt/vp/cmake/catch2 && mkdir -p {SR}/tests/gltf/glTF-Sample-Assets && echo x > {SR}/tests/gltf/glTF-Sample-Assets/P.txt")
        if r.returncode: print(r.stdout[-2000:]); sys.exit(1)
def build(tests=True): return sh(f"ninja -C {SR}/_build {'all fastgltf_tests' if tests else 'fastgltf'}")
def verify(ids):
    prepare(); r = build(False)
    todo = [s for s in SEEDS if not ids or s["id"] in ids]; ok = {}
    for s in todo: r = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=SR); ok[s["id"]] = r.returncode == 0; print(s["id"], "demo on plain tree:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in todo:
        sh(f"git -C {SR} checkout -q -- ."); r = sh(f"git -C {SR} apply {V}/seeded/{s['id']}/patch.diff")
        if r.returncode: print(s["id"], "PATCH DOES NOT APPLY", r.stdout); continue
        r = build()
        if r.returncode: print(s["id"], "BUILD FAILED", r.stdout[-1500:]); continue
        rep = "/tmp/w/sr_rep"; r = sh(f"rm -rf {rep} /tmp/w/sr.json; mkdir -p {rep}; cd {SR}/_build && python3 /opt/vp/run_catch.py {SR}/_build/tests/fastgltf_tests {rep} '~[gltf-benchmark]'; python3 /opt/vp/results.py /tmp/w/sr.json 'junit:{rep}/*.xml'")
        passed = set(json.load(open("/tmp/w/sr.json"))["passed"]); bad = [b for b in base if b not in passed]
        d = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=SR)
        print(s["id"], "tests", "ok" if not bad else bad, "demo on patched tree:", d.returncode, "OK" if d.returncode not in (0, 2, 3) and not bad and ok[s["id"]] else "*** NOT GOOD", d.stdout[-200:].strip().replace("\n", " | "), flush=True)
    sh(f"git -C {SR} checkout -q -- .")
def check(ids):
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        assert not sh(f"git -C {REPO} status --porcelain").stdout
        try:
            r = sh(f"git -C {REPO} apply {V}/seeded/{s['id']}/patch.diff"); assert r.returncode == 0, r.stdout
            r = sh(f"VERIF_TIER=quick python3 run.py {s['property']}", cwd=V); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(s["id"], "CAUGHT" if r.returncode == 1 and any("property=" + s["property"] in l for l in v) else f"*** MISSED rc={r.returncode}", len(v), "violations", r.stdout[-300:] if r.returncode not in (0, 1) else "", flush=True)
        finally: sh(f"git -C {REPO} checkout -q -- .")
if __name__ == "__main__":
    m = sys.argv[1]
    if m == "gen": gen()
    elif m == "verify": gen(); verify(sys.argv[2:])
    else: check(sys.argv[2:])
