#!/usr/bin/env python3
"""Mutation testing of the checks: random small edits of the library, each judged by the checks of the region it is in.
mutate.py SECONDS SEED [FILE-REGEX] ; survivors are listed in /tmp/mut/survivors.txt with the changed line.
Nothing in MANIFEST.json uses this; it is a tool for finding what the checks miss."""
import os, random, re, shutil, subprocess, sys, time
SRC = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["src/fastgltf.cpp", "src/io.cpp", "src/base64.cpp", "include/fastgltf/core.hpp", "include/fastgltf/tools.hpp", "include/fastgltf/math.hpp", "include/fastgltf/types.hpp", "include/fastgltf/util.hpp", "include/fastgltf/base64.hpp"]


def checks_for(path, func, line):
    b = os.path.basename(path)
    f = func or ""
    if b == "base64.cpp" or b == "base64.hpp": return ["C11", "C10"]
    if b == "math.hpp": return ["C21", "C20", "C17"]
    if b == "util.hpp": return ["C25", "C02", "C17", "C13"]
    if b == "tools.hpp": return ["C17", "C18", "C20", "C23", "C25"]
    if b == "types.hpp": return ["C22", "C25", "C17", "C02", "C13"]
    if b == "io.cpp": return ["C08", "C10", "C09", "C16", "C13"]
    if b == "core.hpp": return ["C02", "C13", "C25", "C08", "C24"]
    if "validate" in f: return ["C23", "C14"]
    if "URI" in f or "uri" in f.lower(): return ["C12", "C10"]
    if re.search(r"write|Export|export|escape|prettyPrint|getBufferName|getImageName", f): return ["C13", "C14", "C15", "C16"]
    if re.search(r"Binary|determine", f): return ["C09", "C08", "C07"]
    if re.search(r"Physics|Collision|Shapes|Joint", f): return ["C03", "C04", "C24", "C06", "C13"]
    return ["C04", "C02", "C03", "C10", "C05", "C24", "C06", "C23", "C19", "C01"]


def skip_regions(lines):
    """lines for other platforms"""
    out, stack = set(), []
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r"#\s*if", s):
            stack.append(bool(re.search(r"ANDROID|_WIN32|_MSC_VER|__APPLE__|IS_A64|ARM|NEON|HAS_MEMORY_MAPPED_FILE == 0|DEBUG|CONCEPTS|CPP_23|CPP_20|__INTEL", s)) and not re.search(r"!|else", s))
        elif re.match(r"#\s*endif", s) and stack:
            stack.pop()
        elif re.match(r"#\s*el", s) and stack:
            stack[-1] = False
        if any(stack) or s.startswith("#") or s.startswith("//") or s.startswith("*") or s.startswith("/*"):
            out.add(i)
    return out


OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " + "), (r" % ", " / "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b([2-9]|[1-9][0-9]+)\b", lambda m: str(int(m.group(0)) + 1)), (r"!(?=[a-z])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\+\+", "--"), (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r"\+= ", "= "), (r"std::move\(([a-zA-Z.]+)\)", r"\1"), ("DELETE", ""), ("DELETE", ""), ("DELETE", ""),
       (r"InvalidGltf", "None"), (r"has_value\(\)", "has_value() == false"), (r'"([a-zA-Z]{3,})"', r'"\1X"'), (r"\bi\b", "(i + 1)"), (r"continue;", "break;"), (r"break;", "continue;")]


def mutants(rng, path, text):
    lines = text.split("\n")
    skip = skip_regions(lines)
    while True:
        i = rng.randrange(len(lines))
        if i in skip or len(lines[i].strip()) < 4 or "assert" in lines[i]:
            continue
        pat, rep = rng.choice(OPS)
        if pat == "DELETE":
            s = lines[i].strip()
            if not s.endswith(";") or not re.match(r"(return Error|break|continue|[\w.>\[\]()-]+ (=|\+=|\|=) |[\w.>-]+\(.*\);$|\+\+|--)", s) or s.startswith("return") and "Error" not in s:
                continue
            new = lines[i].replace(s, ";")
        else:
            ms = list(re.finditer(pat, lines[i]))
            if not ms:
                continue
            m = rng.choice(ms)
            if pat in (r" < ", r" > ") and "template" in lines[i]:
                continue
            new = lines[i][:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + lines[i][m.end():]
        if new == lines[i]:
            continue
        func = None
        for k in range(i, -1, -1):
            if re.match(r"^[a-zA-Z].*\(.*", lines[k]) and not lines[k].startswith("#"):
                func = lines[k]
                break
        yield i, lines[i], new, func, "\n".join(lines[:i] + [new] + lines[i + 1:])


def main():
    secs, seed = int(sys.argv[1]), int(sys.argv[2])
    rx = sys.argv[3] if len(sys.argv) > 3 else "."
    rng = random.Random(seed)
    texts = {f: open(os.path.join(SRC, f)).read() for f in FILES if re.search(rx, f)}
    weights = [len(t) for t in texts.values()]
    end = time.time() + secs
    c = "/tmp/mut/tree-%d" % seed
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(SRC, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "_build"))
    n = k = 0
    while time.time() < end:
        f = rng.choices(list(texts), weights)[0]
        i, old, new, func, text = next(mutants(rng, f, texts[f]))
        open(os.path.join(c, f), "w").write(text)
        flags = ["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + c + "/include", "-DNDEBUG"]
        if subprocess.run(flags + [os.path.join(c, f if f.endswith(".cpp") else "src/fastgltf.cpp")], capture_output=True).returncode == 0:
            n += 1
            verdict, tried = "SURVIVED", []
            for chk in checks_for(f, func, i):
                try:
                    r = subprocess.run(["python3", VERIF + "/run.py", chk], env=dict(os.environ, VERIF_REPO=c), cwd=VERIF, capture_output=True, text=True, errors="replace", timeout=600)
                except subprocess.TimeoutExpired:
                    verdict = "TIMEOUT " + chk
                    break
                tried.append(chk)
                if r.returncode == 1:
                    verdict = "caught by " + chk
                    break
                if r.returncode != 0:
                    verdict = "no answer from " + chk + " " + r.stdout[:200].replace("\n", " ")
                    break
            if not verdict.startswith("caught"):
                k += 1
                with open("/tmp/mut/survivors.txt", "a") as s:
                    s.write("%s:%d %s tried=%s\n  in %s\n- %s\n+ %s\n" % (f, i + 1, verdict, ",".join(tried), (func or "")[:120], old.strip(), new.strip()))
            print("%s:%d %s | %s -> %s" % (f, i + 1, verdict, old.strip()[:90], new.strip()[:90]), flush=True)
        open(os.path.join(c, f), "w").write(texts[f])
    print("mutants", n, "not caught", k)
    shutil.rmtree(c, ignore_errors=True)


main()
