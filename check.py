#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of /repo's current source by static analysis.

exit 0: every obligation discharged (or, for changed code, not refuted; undecided ones are named in the evidence)
exit 1: a definite violation, with a VIOLATION line
exit 2: the analysis itself broke (harness no longer builds, engine error, vacuous obligation)
"""
import sys, os, re, json, subprocess, tempfile, time, shutil, glob, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TOTAL = 700  # seconds; what is not finished by then is undecided
CXX, OPT = "clang++-18", "opt-18"
CXXFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-w", "-I" + REPO + "/include", "-I" + HERE + "/harness"]
PASSES = "cgscc(inline),function(sroa,simplifycfg,instsimplify,dce),globaldce"
TRUSTED = [
    "clang 18 front end (C++ to LLVM IR), its always-exact inline/sroa/simplifycfg/instsimplify passes",
    "engine/ (abstract interpreter over LLVM IR: intervals, linear and floor-division relations, polynomial error forms, trace partitioning)",
    "harness/ (the obligation text: public calls, admissible inputs, reference relation)",
]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, log=""):
    print("ANALYSIS-BROKEN: " + msg)
    if log:
        print(log[-4000:])
    sys.exit(2)

def newest(paths):
    return max(os.path.getmtime(p) for p in paths)

def build_engine():
    for tool, srcs, script in (("absint", glob.glob(HERE + "/engine/*.h") + glob.glob(HERE + "/engine/*.cpp"), HERE + "/engine/build.sh"),
                               ("effects", glob.glob(HERE + "/effects/*.cpp"), HERE + "/effects/build.sh")):
        if not srcs or not os.path.exists(script):
            continue
        exe = os.path.join(BUILD, tool)
        if os.path.exists(exe) and os.path.getmtime(exe) >= newest(srcs):
            continue
        r = sh(["bash", script, BUILD])
        if r.returncode:
            die("engine does not build", r.stdout)

def header(path):
    h = {"flags": [], "absint": [], "tool": "absint"}
    with open(path) as f:
        for line in f:
            if not line.startswith("//"):
                break
            m = re.match(r"//\s*(flags|absint|absint-thorough|tool|tier):\s*(.*)", line)
            if m:
                h[m.group(1)] = m.group(2).split()
    return h

SYS = ["-I" + HERE + "/lib/sysroot"] + [x for d in ("/usr/include/c++/13", "/usr/include/x86_64-linux-gnu/c++/13", "/usr/include/x86_64-linux-gnu", "/usr/include") for x in ("-isystem", d)]
TARGETS = { # other platforms: unsigned plain char and another vector unit; 32-bit long and pointers (long as on Windows)
    "aarch64": ["--target=aarch64-linux-gnu"] + SYS,
    "ilp32": ["--target=i386-linux-gnu", "-fforce-enable-int128"] + SYS,
    "unsigned char": ["-funsigned-char"],
}

def targets(path, tier):
    """the obligations of other checks, for other targets:  // target: aarch64 = C01 C02"""
    us = []
    for line in open(path):
        m = re.match(r"//\s*target(-thorough)?:\s*(.*?)\s*=\s*(.*)", line)
        if not m or (m.group(1) and tier != "thorough"):
            continue
        for pid in m.group(3).split():
            for p, h in units(pid, tier):
                if h["tool"] in ("absint", ["absint"]):
                    us.append((p, dict(h, target=m.group(2), flags=h["flags"] + TARGETS[m.group(2)])))
    return us

def units(pid, tier):
    us = []
    for p in sorted(glob.glob(HERE + "/harness/" + pid + "*.cpp")):
        h = header(p)
        if h.get("tier") == ["thorough"] and tier != "thorough":
            continue
        us.append((p, h))
    return us

CE = [(r"\bif\s*!\s*consteval\b|\bif\s+not\s+consteval\b", "if constexpr(false)"), (r"\bif\s*consteval\b", "if constexpr(true)"),
      (r"(?:\bstd\s*::\s*)?\bis_constant_evaluated\s*\(\s*\)|\b__builtin_is_constant_evaluated\s*\(\s*\)", "true")]

def constant_evaluated(tmp):
    """where the sources ask whether they are being constant-evaluated: a copy of them as the compiler evaluates
    them in constant expressions, for which the obligations are decided as well"""
    src = os.path.join(REPO, "include")
    texts = {}
    for p in glob.glob(src + "/**/*.[hi]*", recursive=True):
        if os.path.isfile(p):
            texts[p] = open(p, errors="replace").read()
    if not any(re.search(r, re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)) for t in texts.values() for r, _ in CE):
        return None
    dst = os.path.join(tmp, "ce", "include")
    shutil.copytree(src, dst)
    for p, t in texts.items():
        for r, w in CE:
            t = re.sub(r, w, t)
        open(os.path.join(dst, os.path.relpath(p, src)), "w").write(t)
    return [f.replace(src, dst) if f.startswith("-I") else f for f in CXXFLAGS]

VARIANTS = [("as GCC", None), ("NDEBUG", ["-DNDEBUG"]), ("C++23", ["-std=c++23"]), ("AVX-512", ["-march=x86-64-v4"]), ("without optimisation", ["-U__OPTIMIZE__"]), ("debug", ["-D_DEBUG", "-DDEBUG"]),
            ("no SIMD", ["-DEIRIN_MATH_NO_SIMD"]), ("fast math, hardened library", ["-D__FAST_MATH__", "-D_GLIBCXX_ASSERTIONS", "-D_FORTIFY_SOURCE=2"])]

def own_text(src, flags, inc):
    """the library's own text as the preprocessor leaves it"""
    r = subprocess.run([CXX] + flags + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode:
        return None
    out, on = [], False
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            on = m.group(1).startswith(inc)
        elif on and l.strip() and not l.lstrip().startswith("#pragma"):
            out.append(l.strip().replace(" ", ""))
    return re.sub(r"\[\[\w+::\w+\]\]|__attribute__\(\(\w+\)\)|__forceinline", "", "".join(out)) # what is written on which line does not matter

def variants(tmp):
    """build configurations (compiler, language version, macros) in which the library's own text is another one than
    in the one analysed: the obligations are decided for them as well"""
    inc, res, effect = os.path.join(REPO, "include"), [], False
    plain, gcc = os.path.join(tmp, "plain", "include"), os.path.join(tmp, "gcc", "include")
    shutil.copytree(inc, plain)
    shutil.copytree(inc, gcc)
    for d in (plain, gcc):
        for p in glob.glob(d + "/**/*", recursive=True):
            if os.path.isfile(p):
                x = open(p, errors="replace").read()
                if d == gcc:
                    x = re.sub(r"\b__clang(_m\w+)?__\b", "EIRIN_ANALYSED_AS_GCC", x)
                    open(p, "w").write(x)
                    continue
                # assertions differ with NDEBUG, which matters only if they have an effect
                effect = effect or any(re.search(r"\+\+|--|[^=!<>]=[^=]", a) for a in re.findall(r"\bassert\s*\((.*?)\)\s*;", x, re.S))
                open(p, "w").write(re.sub(r"\bassert\s*\(", "assertion_of_the_library(", x))
    src = os.path.join(tmp, "variant.cpp")
    hs = sorted(os.path.relpath(x, inc) for x in glob.glob(inc + "/**/*.hpp", recursive=True))
    open(src, "w").write("".join("#include <%s>\n" % x for x in hs))
    def at(flags, d):
        return [f.replace(inc, d) if f.startswith("-I") else f for f in flags]
    jobs = [(CXXFLAGS, plain), (CXXFLAGS, inc)] + [(CXXFLAGS, gcc) if more is None else (CXXFLAGS + more, plain) for _, more in VARIANTS]
    with cf.ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(lambda j: own_text(src, at(j[0], j[1]), j[1]), jobs))
    if texts[0] is None or texts[1] is None:
        return []
    for (name, more), t in zip(VARIANTS, texts[2:]):
        if t is None:
            continue
        if more is None and t.replace(gcc, inc) != texts[1]:
            res.append((name, at(CXXFLAGS, gcc)))
        if more is not None and (t != texts[0] or effect and name == "NDEBUG"):
            res.append((name, CXXFLAGS + more))
    return res

def compile_unit(path, h, tier, tmp, cxxflags=None, suffix=""):
    base = os.path.join(tmp, os.path.basename(path)[:-4] + suffix)
    flags = (cxxflags or CXXFLAGS) + h["flags"] + (["-DTHOROUGH"] if tier == "thorough" else [])
    r = sh([CXX] + flags + ["-emit-llvm", "-c", path, "-o", base + ".0.bc"])
    if r.returncode:
        return None, r.stdout
    r = sh([OPT, "-passes=" + PASSES, "-inline-threshold=100000000", base + ".0.bc", "-o", base + ".bc"])
    if r.returncode:
        return None, r.stdout
    return base + ".bc", ""

def load_known(pid):
    """known-findings.txt:  known: property=C30 obligation=ob_x text..."""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+obligation=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out

def run_absint(pid, tier, path, h, bc, deadline):
    js = bc[:-3] + ".json"
    left = int(deadline - time.time())
    opts = ["--total", str(max(left, 20))] + h["absint"] + (h.get("absint-thorough", []) if tier == "thorough" else [])
    r = sh(["bash", "-c", 'ulimit -v 24000000; exec "$@"', "x", BUILD + "/absint", bc, "--out", js] + opts)
    if not os.path.exists(js) or r.returncode not in (0, 1, 2, 3):
        die("engine failed on %s (rc %d)" % (os.path.basename(path), r.returncode), r.stdout)
    return json.load(open(js))

def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        build_engine()
        return 0
    pid = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    us = units(pid, tier)
    if not us:
        die("no harness for " + pid)
    build_engine()
    tmp = tempfile.mkdtemp(prefix="sa-" + pid + "-")
    try:
        return decide(pid, tier, seed, t0, evdir, us, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, tier, seed, t0, evdir, us, tmp):
    import witness
    known = load_known(pid)
    results, violations, extra = [], [], {}
    absus = [(p, h) for p, h in us if h["tool"] in ("absint", ["absint"])]
    for p, h in us:
        if h["tool"] == ["targets"]:
            absus += targets(p, tier)
    with cf.ThreadPoolExecutor(8) as ex:
        comp = list(ex.map(lambda u: compile_unit(u[0], u[1], tier, tmp, None, "." + u[1]["target"].replace(" ", "_") if "target" in u[1] else ""), absus))
    for (p, h), (bc, log) in zip(absus, comp):
        if bc is None and "target" in h:
            # not a program for this target: the library's own text is at fault, or else it is not known here
            err = next((l for l in log.splitlines() if " error: " in l), log[:300])
            ours = REPO + "/include/" in err and "file not found" not in err
            results.append({"name": "compiles (%s)" % h["target"], "unit": os.path.basename(p), "line": 1, "asserts": 1, "why": err,
                            "status": "FAIL" if ours else "UNDECIDED", "fails": [{"msg": "does not compile for this target", "loc": err.replace(REPO + "/", "")}]})
        elif bc is None:
            die("harness %s does not compile against the current tree" % os.path.basename(p), log)
    lines, funcs = {}, set()
    for (p, h), (bc, _) in zip(absus, comp):
        if bc is None:
            continue
        if "target" in h and time.time() > t0 + TOTAL - 20:
            results.append({"name": "%s (%s)" % (os.path.basename(p)[:-4], h["target"]), "unit": os.path.basename(p), "line": 1, "status": "UNDECIDED", "why": "time budget"})
            continue
        j = run_absint(pid, tier, p, h, bc, t0 + TOTAL)
        if not j.get("obligations"):
            die("no obligations in " + os.path.basename(p))
        for o in j["obligations"]:
            o["unit"] = os.path.basename(p)
            if "target" in h:
                o["name"] += " (%s)" % h["target"]
            results.append(o)
        for f, ls in j.get("lines", {}).items():
            lines.setdefault(f, set()).update(ls)
        funcs.update(j.get("functions", []))
    ce = constant_evaluated(tmp) if absus else None
    for p, h in absus if ce else []:
        if "target" in h:
            continue
        bc, _ = compile_unit(p, h, tier, tmp, ce, ".ce")
        if bc is None:
            continue
        for o in run_absint(pid, tier, p, h, bc, t0 + TOTAL).get("obligations", []):
            o["unit"] = os.path.basename(p)
            o["name"] += " (constant evaluation)"
            results.append(o)
    for vname, flags in variants(tmp):
        for p, h in us:
            try:
                more = []
                if h["tool"] == ["witness"]:
                    more = witness.run(p, h, tier, tmp, CXX, flags)
                elif h["tool"] == ["effects"]:
                    more = witness.effects(p, h, tier, tmp, CXX, flags, BUILD)[0]
            except witness.Broken:
                continue
            results += [dict(o, name="%s (%s)" % (o["name"], vname)) for o in more]
        for p, h in absus:
            if "target" in h or time.time() > t0 + TOTAL - 60:
                continue
            bc, _ = compile_unit(p, h, tier, tmp, flags, ".v_" + re.sub(r"\W", "_", vname))
            if bc is None:
                continue
            for o in run_absint(pid, tier, p, h, bc, t0 + TOTAL).get("obligations", []):
                o["unit"] = os.path.basename(p)
                o["name"] += " (%s)" % vname
                results.append(o)
    try:
        for p, h in us:
            if h["tool"] == ["witness"]:
                results += witness.run(p, h, tier, tmp, CXX, CXXFLAGS)
            elif h["tool"] == ["headers"]:
                import headers
                results += headers.run(p, h, tier, tmp, REPO)
            elif h["tool"] == ["effects"]:
                obs, ls = witness.effects(p, h, tier, tmp, CXX, CXXFLAGS, BUILD)
                results += obs
                for f, v in ls.items():
                    lines.setdefault(f, set()).update(v)
    except witness.Broken as e:
        die("%s" % str(e)[:200], str(e))
    for o in results:
        if o["status"] == "PROVED" and not (o.get("asserts") or o.get("paths")):
            die("obligation %s is vacuous" % o["name"])
    bad = [o for o in results if o["status"] == "FAIL"]
    und = [o for o in results if o["status"] == "UNDECIDED"]
    und_known = []
    replay = os.path.join(evdir, pid + ".violations.json")
    if os.path.exists(replay):
        os.unlink(replay)
    for o in bad:
        if o["name"] in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["name"], known[o["name"]]))
        else:
            violations.append(o)
    good = [o for o in results if o["status"] == "PROVED"]
    nk = len(bad) - len(violations)
    repo_lines = {f: len(v) for f, v in lines.items() if f.startswith("include/")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVELS.get(pid, "proof"),
        "coverage": {
            "obligations": len(results) - nk, "discharged": len(good),
            "checker_cmd": "python3 check.py %s --tier %s" % (pid, tier), "trusted_base": TRUSTED,
            "explanation": "each obligation is a universally quantified statement about public calls, decided on the LLVM IR of the current /repo headers; see DESIGN.md",
            "rule": RULES.get(tools(us)) or "an obligation is discharged when the abstract interpreter shows its assertions on every path of every input cell; it is refuted only by a cell on which the assertion is false for certain",
            "undecided": [o["name"] for o in und], "known_findings": nk,
            "cells": sum(o.get("cells", 0) for o in results), "paths": sum(o.get("paths", 0) for o in results),
            "abstract_steps": sum(o.get("steps", 0) for o in results), "assertion_checks": sum(o.get("asserts", 0) for o in results),
            "repo_lines_analysed": repo_lines,
            "functions_analysed": len(funcs),
            "samples": [{k: o.get(k) for k in ("name", "unit", "status", "cells", "paths", "asserts", "worst_error", "cpu_s") if o.get(k) is not None} for o in results[:400]],
        },
        "assumptions": ["x86-64 LP64, clang's C++20 semantics", "admissible inputs as stated in the property"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d cells, %d paths, %.1f s" % (
        pid, len(results) - nk, len(good), len(und), len(violations), ev["coverage"]["cells"], ev["coverage"]["paths"], time.time() - t0))
    for o in und[:20]:
        print("UNDECIDED %s: %s" % (o["name"], (o.get("why") or "")[:300]))
    if violations:
        json.dump(violations, open(replay, "w"), indent=1)
        for o in violations[:8]:
            f = (o.get("fails") or [{}])[0]
            print("  %s (%s:%s): %s" % (o["name"], o.get("unit"), o.get("line"), f.get("msg", o.get("why", ""))))
            print("    at %s" % f.get("loc", ""))
            if f.get("witness"):
                print("    for %s" % f["witness"])
            for s in (f.get("path") or [])[:12]:
                print("    via %s" % s)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0

def tools(us):
    t = us[0][1]["tool"]
    return t if isinstance(t, str) else t[0]

RULES = {
    "headers": "each header, alone and together, must compile in every configuration; in the IR of a unit that includes all headers every definition must have a linkage that other units may share (inline), and no variable with internal linkage may be mutable; with exceptions disabled the abstract interpreter decides where std::terminate is reached",
    "effects": "each root is a public operation; every instruction of every function reachable from it is inspected, and an access to mutable, static or thread-local state, a volatile or atomic access, inline assembly, a denied external call, or floating point computation on the input is a violation (float conversions may use floating point)",
    "witness": "each obligation is a program that must compile, or must be rejected, against the current headers; the compiler's type checking and constant evaluation decide, nothing is executed",
}
LEVELS = {}
if __name__ == "__main__":
    sys.path.insert(0, os.path.join(HERE, "lib"))
    sys.exit(main())
