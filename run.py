#!/usr/bin/env python3
"""Builds one property check from /repo's working tree, runs it and writes its evidence.

usage: run.py Cxx [--tier quick|thorough] [--replay FILE] [--dev ...engine args]
Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': broken.
Exit 2: the check itself could not give an answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks.config import CHECKS, LIB_DEFINES  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,nonnull-attribute",
       "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-g1"]
COMMON = ["-std=c++17", "-pthread", "-w", "-DNDEBUG"]


def tree_hash(paths, flags):
    h = hashlib.sha256()
    for f in flags:
        h.update(f.encode() + b"\0")
    for p in paths:
        if os.path.isdir(p):
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if not f.endswith(".pyc"))
        else:
            files = [p]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def compile_one(cxx, src, flags, deps):
    key = tree_hash([src] + deps, [cxx] + flags)
    shared = "-shared" in flags
    out = os.path.join(BUILD, os.path.basename(src) + "." + key + (".so" if shared else ".o"))
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run([cxx, *flags, *([] if shared else ["-c"]), src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
        os.replace(tmp, out)
    return out, key


def build(cid, cfg, tier, fuzzer=False, variant=None):
    """returns path of the binary"""
    os.makedirs(BUILD, exist_ok=True)
    v = dict(cfg)
    if variant:
        v.update(variant)
    cxx = v.get("cxx", "clang++")
    opt = v.get("opt", {"quick": "-O0", "thorough": "-O1"}[tier])
    defs = v.get("lib_defines", LIB_DEFINES)
    san = v.get("san_flags") or (SAN if v.get("san", True) else ["-g1"])
    if cxx == "g++":
        san = [s for s in san if "trivial-auto" not in s]
    base = [*COMMON, opt, *san, *defs, *v.get("flags", []), "-I" + REPO + "/include"]
    lib_srcs = [os.path.join(REPO, "src", f) for f in v.get("lib", ["fastgltf.cpp", "base64.cpp", "io.cpp"])]
    own = [os.path.join(VERIF, "checks", f) for f in v.get("sources", [cid + ".cpp"])]
    inc = [os.path.join(REPO, "include"), os.path.join(REPO, "src")]
    fz = ["-fsanitize=fuzzer-no-link"] if fuzzer else []
    jobs = [(cxx, s, base + fz, inc) for s in lib_srcs]
    own_opt = [("-O1" if f == "-O0" and v.get("own_opt") else f) for f in base]
    for s in own:
        fl = own_opt + fz + ["-I" + VERIF, *v.get("own_flags", [])] + (["-DPBT_LIBFUZZER"] if fuzzer else [])
        jobs.append((cxx, s, fl, inc + [os.path.join(VERIF, "pbt"), os.path.join(VERIF, "lib")]))
    if v.get("gen"):
        jobs.append((cxx, os.path.join(VERIF, "lib", "gen.cpp"), [*COMMON, "-O1", "-g1", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-I" + VERIF, "-I" + VERIF + "/lib"], [os.path.join(VERIF, "pbt"), os.path.join(VERIF, "lib")]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    key = hashlib.sha256(("".join(k for _, k in res) + str(fuzzer)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s.%s%s" % (cid, key, ".fuzz" if fuzzer else ""))
    if not os.path.exists(exe):
        tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        link = [cxx, *(san), *(["-fsanitize=fuzzer"] if fuzzer else []), "-pthread", *[o for o, _ in res], "-o", tmp, *v.get("libs", ["-lsimdjson"])]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("linking failed:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


def build_shared(cfg, tier, env):
    """the library in several configurations, each a shared object named in VERIF_SHARED (name=path;...)"""
    sh = cfg.get("shared")
    if not sh:
        return
    os.makedirs(BUILD, exist_ok=True)
    inc = [os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "pbt"), os.path.join(VERIF, "lib")]

    def one(s):
        cxx = s.get("cxx", "clang++")
        san = [f for f in SAN if cxx == "clang++" or "trivial-auto" not in f] if s.get("san", True) else ["-g1"]
        flags = [s.get("std", "-std=c++17"), "-pthread", "-w", "-DNDEBUG", s.get("opt", "-O0"), *san, *s.get("defines", LIB_DEFINES), "-DPBT_NO_MAIN", "-I" + REPO + "/include", "-I" + VERIF,
                 *['-DFG_SRC_%s="%s/src/%s.cpp"' % (n.upper(), REPO, n) for n in ("base64", "io", "fastgltf")],
                 "-shared", "-fPIC", "-fvisibility=hidden", "-Wl,-Bsymbolic", *(["-fno-gnu-unique"] if cxx == "g++" else [])]
        return s["name"] + "=" + compile_one(cxx, os.path.join(VERIF, "checks", "probe", cfg["probe"]), flags, inc)[0]
    with ThreadPoolExecutor(8) as ex:
        env["VERIF_SHARED"] = ";".join(ex.map(one, sh))


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:max_malloc_fill_size=65536:malloc_fill_byte=190:"
                    "detect_stack_use_after_return=1:handle_abort=0:quarantine_size_mb=16:abort_on_error=0:symbolize=1:new_delete_type_mismatch=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:symbolize=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0",
}


def prune_build_dir():
    try:
        ents = [(os.path.getmtime(p), p) for p in (os.path.join(BUILD, f) for f in os.listdir(BUILD))]
        total = sum(os.path.getsize(p) for _, p in ents)
        for _, p in sorted(ents):
            if total < 3 << 30:
                break
            total -= os.path.getsize(p)
            os.remove(p)
    except OSError:
        pass


def main():
    args = sys.argv[1:]
    cid = args.pop(0)
    if cid == "--self-check":  # the framework is built on demand by each check: only look for the tools
        for t in ("clang++", "ar", "objcopy"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        print("ok: %d checks" % len(CHECKS))
        return 0
    if cid not in CHECKS:
        print("unknown check", cid)
        return 2
    cfg = CHECKS[cid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    dev = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = os.path.abspath(args.pop(0))
        elif a == "--dev":
            dev = args
            args = []
    t0 = time.time()
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_SEED"] = str(seed)
    env["VERIF_REPO"] = REPO
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % cid)
    env["VERIF_SCRATCH"] = scratch
    try:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        variants = cfg.get("variants", [None])
        build_shared(cfg, tier, env)
        if dev or replay:
            named = [v for v in variants if v and "%s-%s-" % (cid, v["name"]) in os.path.basename(replay or "")]
            if dev and dev[0] == "--variant":  # development: run.py Cxx --dev --variant NAME ...
                named = [v for v in variants if v and v["name"] == dev[1]]
                dev = dev[2:] or ["--keep-going"]
            exe = build(cid, cfg, tier, variant=(named or variants)[0])
            eng = ["--replay", os.path.abspath(replay)] if replay else ["--tier", tier, "--seed", str(seed), *dev]
            cwd = os.path.join(scratch, "cwd")
            os.makedirs(cwd, exist_ok=True)
            return subprocess.run([exe, *eng], env=env, cwd=cwd).returncode
        total = {"evaluations": 0, "discarded": 0, "nontrivial": 0, "distinct_nontrivial": 0, "labels": {}, "per_sub": {}, "samples": []}
        rc = 0
        violation = None
        extra = {}
        hook = cfg.get("py")  # checks that drive several binaries themselves
        if hook:
            mod = __import__("checks." + hook, fromlist=["run"])
            rc, violation, stats_list, extra = mod.run(sys.modules[__name__], cid, cfg, tier, seed, env, scratch)
        else:
            stats_list = []
            with ThreadPoolExecutor(4) as ex:
                exes = list(ex.map(lambda vr: build(cid, cfg, tier, variant=vr), variants))
            for vr, exe in zip(variants, exes):
                if vr and vr.get("probe") and subprocess.run([exe, "--list"], env=env, capture_output=True).returncode:
                    extra.setdefault("skipped_builds", []).append(vr["name"] + ": does not start in this environment")
                    continue
                r, viol, st = run_engine(cid, exe, tier, seed, env, scratch, vr and vr.get("name"), cfg, (vr or {}).get("args", {}).get(tier, ()))
                if vr and st:
                    st["labels"] = {vr["name"] + ": " + k: c for k, c in st["labels"].items()}
                    st["per_sub"] = {vr["name"] + ": " + k: c for k, c in st["per_sub"].items()}
                if st:
                    stats_list.append(st)
                if r:
                    rc, violation = r, viol
                    break
            if rc == 0 and tier == "thorough" and cfg.get("fuzz"):
                rc, violation, fz = run_fuzz(cid, cfg, seed, env, scratch, exes[0])
                extra["libfuzzer"] = fz
                for f in fz:
                    total["evaluations"] += f.get("executions", 0)
        for st in stats_list:
            for k in ("evaluations", "discarded", "nontrivial", "distinct_nontrivial"):
                total[k] += st[k]
            for k in ("labels", "per_sub"):
                for l, c in st[k].items():
                    total[k][l] = total[k].get(l, 0) + c
            total["samples"] += st["samples"]
        if rc == 0:
            # vacuity guard: every label the check promises to reach must have been reached
            for lab, minimum in cfg.get("must_reach", {}).items():
                if total["labels"].get(lab, 0) < minimum:
                    print("vacuous: label %r reached %d times, expected at least %d" % (lab, total["labels"].get(lab, 0), minimum))
                    rc = 2
        total["samples"] = total["samples"][:20]
        cov = {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct_nontrivial"],
               "rule": cfg["rule"], "samples": total["samples"], "discarded": total["discarded"],
               "sub_properties": total["per_sub"], "labels": total["labels"], **extra}
        ev = {"property": cid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
        with open(os.path.join(VERIF if REPO == "/repo" else scratch, "evidence" if REPO == "/repo" else "", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for line in known_findings(cid):
            print(line)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (cid, violation))
        else:
            print("%s: %s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (cid, "held" if rc == 0 else "NO ANSWER", total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
        return rc
    except Exception as e:
        print("error:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        prune_build_dir()


def known_findings(cid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % cid):
                out.append("KNOWN-FINDING: " + l[len("finding: "):])
    return out


def run_engine(cid, exe, tier, seed, env, scratch, name, cfg, extra_args=()):
    out = os.path.join(scratch, "stats-%s.json" % (name or "main"))
    rep = os.path.join("replays", "%s%s-%s-%d.json" % (cid, "-" + name if name else "", tier, seed))
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-out", os.path.join(VERIF, rep), *extra_args]
    if tier == "quick":
        cmd += ["--max-wall", str(cfg.get("max_wall", 400))]
    else:
        cmd += ["--max-wall", str(cfg.get("thorough_wall", 5400))]
    cwd = os.path.join(scratch, "cwd-" + (name or "main"))  # a broken tree may write relative to it
    os.makedirs(cwd, exist_ok=True)
    p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, errors="replace")
    st = None
    if os.path.exists(out):
        with open(out, encoding="utf-8", errors="replace") as f:
            st = json.load(f)
    if p.returncode == 1 and st and st.get("failure"):
        print(p.stdout[-6000:])
        return 1, rep, st
    if p.returncode != 0:
        print("engine exit %d\n%s\n%s" % (p.returncode, p.stdout[-3000:], p.stderr[-3000:]))
        return 2, None, st
    return 0, None, st


def run_fuzz(cid, cfg, seed, env, scratch, exe):
    """libFuzzer campaigns over the same sub-properties: bytes -> choice sequence."""
    fexe = build(cid, cfg, "thorough", fuzzer=True)
    res = []
    for sub, secs in cfg["fuzz"].items():
        d = os.path.join(scratch, "corpus-" + sub)
        os.makedirs(d)
        e = dict(env)
        e["FUZZ_SUB"] = sub
        dic = []
        if cfg.get("fuzz_seeds", {}).get(sub):  # another sub-property that writes documents to VERIF_DOCS
            subprocess.run([exe, "--only", cfg["fuzz_seeds"][sub], "--cases", "1500", "--seed", str(seed)], env={**env, "VERIF_DOCS": d}, cwd=scratch, capture_output=True)
            words = set()
            for f in os.listdir(d):
                with open(os.path.join(d, f), "rb") as fh:
                    words.update(re.findall(rb'"[A-Za-z0-9_/.]{1,40}"', fh.read()))
            with open(os.path.join(scratch, sub + ".dict"), "w") as fh:
                for w in sorted(words)[:3000]:
                    fh.write('"' + w.decode().replace('"', '\\"') + '"\n')
            dic = ["-dict=" + os.path.join(scratch, sub + ".dict")]
        art = os.path.join(scratch, "art-%s-" % sub)
        cmd = [fexe, d, "-seed=%d" % (seed or 1), "-max_total_time=%d" % secs, "-max_len=%d" % cfg.get("fuzz_len", 4096), "-fork=8", "-ignore_crashes=0", "-rss_limit_mb=3500", "-artifact_prefix=" + art, "-timeout=60", *dic]
        p = subprocess.run(cmd, env=e, cwd=scratch, capture_output=True, text=True, errors="replace")
        info = {"sub": sub, "seconds": secs, "corpus": len(os.listdir(d))}
        for l in p.stderr.splitlines():
            if l.startswith("#") and "cov:" in l:
                info["last"] = l.strip()
                try:
                    info["executions"] = int(l[1:].split(":")[0].split()[0])
                except ValueError:
                    pass
        res.append(info)
        arts = [os.path.join(scratch, f) for f in os.listdir(scratch) if f.startswith("art-%s-" % sub) and ("crash" in f or "timeout" in f)]
        for a in arts:
            rep = os.path.join("replays", "%s-fuzz-%s-%d.json" % (cid, sub, seed))
            q = subprocess.run([exe, "--bytes", a, "--only", sub, "--replay-out", os.path.join(VERIF, rep)], env=env, cwd=VERIF, capture_output=True, text=True, errors="replace")
            if q.returncode == 1:
                print(q.stdout[-6000:])
                return 1, rep, res
    return 0, None, res


if __name__ == "__main__":
    sys.exit(main())
