#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py   (SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source of main))
Verifies it in scratch copies (builds, stable tests pass, demo distinguishes) and writes /verif/seeded/<id>/.
seed.py --check [ids]: runs each property's quick check against each kept bug, printing caught/missed."""
import json, os, shutil, subprocess, sys
SRC = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: behaves as the property says; non-zero: does not
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize=vptr,nonnull-attribute -fno-sanitize-recover=undefined -w -Iinclude \\
    -DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1 -DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1 -DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0 \\
    -DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0 -DFASTGLTF_USE_64BIT_FLOAT=0 \\
    "$here/demo.cpp" %s -o "$out/demo" %s
cd "$out"
ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
"""
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b
def main():
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        for i in ids:
            d = f"{VERIF}/seeded/{i}"
            meta = json.load(open(d + "/meta.json"))
            c = "/tmp/seedchk-" + i
            shutil.rmtree(c, ignore_errors=True)
            pass
            shutil.copytree(SRC, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "_build"))
            p = sh("git", "apply", "--unsafe-paths", "--directory=" + c, d + "/patch.diff", cwd="/")
            p = sh("patch", "-p1", "-s", "-i", d + "/patch.diff", cwd=c) if p.returncode else p
            if p.returncode:
                print(i, "PATCH FAILS", p.stdout); continue
            env = dict(os.environ, VERIF_REPO=c, VERIF_NO_EVIDENCE="1")
            r = sh("python3", VERIF + "/run.py", meta["property"], cwd=VERIF, env=env)
            line = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print(i, meta["property"], "CAUGHT" if r.returncode == 1 and line else f"MISSED rc={r.returncode}", *line[:1])
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
            shutil.rmtree(c)
        return
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    i = spec["id"]
    c = "/tmp/seedmk-" + i
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(SRC, c, symlinks=True, ignore=shutil.ignore_patterns("_build"))
    try:
        for f, o, n in spec["edits"]:
            s = open(f"{c}/{f}").read()
            assert s.count(o) == 1, (f, o, s.count(o))
            orig = sh("git", "-C", SRC, "show", "bcf9614:" + f).stdout
            if o not in orig: print("note: edited text is not verbatim in the original")
            open(f"{c}/{f}", "w").write(s.replace(o, n))
        patch = sh("git", "diff", cwd=c).stdout
        d = f"/tmp/seedout-{i}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.cpp", "w").write(spec["demo"])
        srcs = spec.get("srcs", "src/fastgltf.cpp src/base64.cpp src/io.cpp")
        open(d + "/demo.sh", "w").write(DEMO % (srcs, "-lsimdjson" if srcs else ""))
        sh_ = open(d + "/demo.sh").read()
        for a, b in spec.get("flags", []): assert a in sh_; sh_ = sh_.replace(a, b)
        open(d + "/demo.sh", "w").write(sh_)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd=SRC)
        if r0.returncode: print("demo fails on the unchanged tree:", r0.stdout[-3000:]); return 1
        r1 = sh("bash", d + "/demo.sh", cwd=c)
        if not r1.returncode: print("demo passes with the patch"); return 1
        if "error:" in r1.stdout and "runtime error" not in r1.stdout and "ERROR: Addr" not in r1.stdout: print("demo does not compile with patch?", r1.stdout[-2000:]); return 1
        # stable tests with the patch
        for n in ("build", "test"):
            t = open(f"/opt/vp/{n}.sh").read().replace("/repo", c).replace("/opt/vp/build.sh", f"{d}.build.sh")
            open(f"{d}.{n}.sh", "w").write(t)
        b = sh("bash", d + ".build.sh")
        if b.returncode: print("build fails", b.stdout[-1500:]); return 1
        sh("bash", d + ".test.sh", d + ".json")
        res = json.load(open(d + ".json")); base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(res.get("passed", [])); want = set(base.get("stable", base.get("passed", [])))
        miss = want - passed
        if miss: print("stable tests break:", miss); return 1
        shutil.rmtree(f"{VERIF}/seeded/{i}", ignore_errors=True)
        shutil.copytree(d, f"{VERIF}/seeded/{i}")
        shutil.rmtree(d)
        print("kept", i, "demo:", r1.stdout.strip().splitlines()[:1])
    finally:
        shutil.rmtree(c)
sys.exit(main())
