"""Every public header on its own, in every configuration, and the symbols a translation unit of all headers defines."""
import os, re, glob, subprocess, itertools, concurrent.futures as cf

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

CONFIGS = [("clang, C++20", "clang++-18", ["-std=c++20"]), ("clang, C++23, AVX2", "clang++-18", ["-std=c++23", "-mavx2"]),
           ("clang, no exceptions", "clang++-18", ["-std=c++20", "-fno-exceptions"]), ("clang, no exceptions by macro, no RTTI", "clang++-18", ["-std=c++20", "-DEIRIN_NO_EXCEPTIONS", "-fno-rtti"]),
           ("gcc, C++20", "g++", ["-std=c++20"]), ("gcc, C++23, AVX2, no exceptions", "g++", ["-std=c++23", "-mavx2", "-fno-exceptions"])]

# without a 128-bit integer type (32-bit compilers) there is no fixed64; every header but the two that are about it compiles
NO128 = [("no 128-bit integers, C++20", "clang++-18", ["-std=c++20", "-U__SIZEOF_INT128__"]), ("no 128-bit integers, gcc", "g++", ["-std=c++20", "-U__SIZEOF_INT128__"]),
         ("32-bit target", "clang++-18", ["-std=c++20", "--target=i386-linux-gnu", "-isystem", os.path.join(os.path.dirname(os.path.abspath(__file__)), "sysroot"),
                                       "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu"])]
ABOUT64 = ("eirin/detail/util.hpp", "eirin/ext/simd_math.hpp")

def ob(name, unit, line, ok, msg="", loc="", path=()):
    o = {"name": name, "unit": unit, "line": line, "status": "PROVED" if ok else "FAIL", "asserts": 1}
    if not ok:
        o["fails"] = [{"msg": msg, "loc": loc, "path": list(path)}]
    return o

def first_error(out):
    l = next((x for x in out.splitlines() if "error" in x), out[:200])
    return re.sub(r"^\S*include/", "include/", l.strip())[:300]

def run(p, h, tier, tmp, repo):
    inc = repo + "/include"
    hs = sorted(os.path.relpath(x, inc) for x in glob.glob(inc + "/**/*.hpp", recursive=True))
    unit, base, jobs = os.path.basename(p), os.path.join(tmp, os.path.basename(p)[:-4]), []
    def syntax(name, cc, flags, text):
        jobs.append((name, [cc] + flags + ["-w", "-I" + inc, "-fsyntax-only"], text))
    for cname, cc, flags in CONFIGS:
        for x in hs:
            syntax("alone_%s (%s)" % (x, cname), cc, flags, "#include <%s>\n#include <%s>\n" % (x, x))
        for n, o in (("sorted", hs), ("reverse", hs[::-1])):
            syntax("%s (%s)" % (n, cname), cc, flags, "".join("#include <%s>\n" % x for x in o))
    for cname, cc, flags in NO128:
        for x in hs:
            if x not in ABOUT64:
                syntax("alone_%s (%s)" % (x, cname), cc, flags, "#include <%s>\n#include <%s>\n" % (x, x))
    if tier == "thorough":
        for a, b in itertools.permutations(hs, 2):
            for cname, cc, flags in CONFIGS[::4]:
                syntax("pair_%s_%s (%s)" % (a, b, cname), cc, flags, "#include <%s>\n#include <%s>\n" % (a, b))
    def one(k):
        name, cmd, text = jobs[k]
        src = "%s.h%d.cpp" % (base, k)
        open(src, "w").write(text)
        r = sh(cmd + [src])
        os.unlink(src)
        return ob(name, unit, 1, r.returncode == 0, "does not compile: " + first_error(r.stdout), text.split("\n")[0])
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(jobs))))
    # what a unit that includes everything defines: nothing another unit would define again, nothing mutable
    for cname, cc, flags in CONFIGS[:4]:
        src, ll = base + ".all.cpp", base + ".all.ll"
        open(src, "w").write("".join("#include <%s>\n" % x for x in hs))
        r = sh([cc] + flags + ["-w", "-I" + inc, "-O0", "-S", "-emit-llvm", src, "-o", ll])
        if r.returncode:
            continue # reported above
        n, bad, mut = 0, [], []
        for l in open(ll):
            m = re.match(r"define\s+(.*?)@(\"[^\"]+\"|[\w.$]+)\(", l)
            if m:
                n += 1
                if not re.match(r"(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally)\b", m.group(1)):
                    bad.append(m.group(2).strip('"'))
                continue
            m = re.match(r"@(\"[^\"]+\"|[\w.$]+) = (.*)", l)
            if m and " global " in " " + m.group(2):
                sym, rest = m.group(1).strip('"'), m.group(2)
                if re.match(r"external\b", rest) or sym.startswith(("llvm.", "_ZStL8__ioinit", "__dso_handle", "_ZGV")):
                    continue
                n += 1
                if not re.match(r"(linkonce|linkonce_odr|weak|weak_odr|internal|private|common)\b", rest):
                    bad.append(sym)
                elif re.match(r"(internal|private)\b", rest):
                    mut.append(sym)
            elif m and " constant " in " " + m.group(2):
                n += 1
                if not re.match(r"(linkonce|linkonce_odr|weak|weak_odr|internal|private|external|dso_local constant.*external)\b", m.group(2)) and not m.group(2).startswith("external"):
                    bad.append(m.group(1).strip('"'))
        def names(s):
            return sh(["c++filt"] + s[:5]).stdout.strip().replace("\n", ", ") if s else ""
        res.append(dict(ob("single_definition (%s)" % cname, unit, 1, not bad, "a second unit would define again: " + names(bad), "all headers"), asserts=max(n, 1)))
        res.append(dict(ob("no_state_per_unit (%s)" % cname, unit, 1, not mut, "every unit gets its own mutable: " + names(mut), "all headers"), asserts=max(n, 1)))
    return res
