"""Effect analysis and compile witnesses."""
import os, re, json, subprocess, concurrent.futures as cf

OPT = "opt-18"
EFF_PASSES = "cgscc(inline),function(sroa,simplifycfg,instsimplify,sccp,simplifycfg,instsimplify,dce),globaldce"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Broken(Exception):
    pass

def effects(p, h, tier, tmp, cxx, cxxflags, build):
    base = os.path.join(tmp, os.path.basename(p)[:-4])
    r = sh([cxx] + cxxflags + h["flags"] + ["-emit-llvm", "-c", p, "-o", base + ".0.bc"])
    if r.returncode:
        raise Broken("harness %s does not compile\n%s" % (os.path.basename(p), r.stdout))
    r = sh([OPT, "-passes=" + EFF_PASSES, "-inline-threshold=100000000", base + ".0.bc", "-o", base + ".bc"])
    if r.returncode:
        raise Broken(r.stdout)
    r = sh([build + "/effects", base + ".bc", base + ".json"])
    if r.returncode:
        raise Broken("effect analyser failed\n" + r.stdout)
    j = json.load(open(base + ".json"))
    for o in j["obligations"]:
        o["unit"] = os.path.basename(p)
    if not j["obligations"]:
        raise Broken("no roots in " + p)
    return j["obligations"], j["lines"]

def items(p):
    """//@ prelude, then //@ accept TEXT / //@ reject TEXT blocks; a block's line number is kept for the report."""
    pre, its, cur = [], [], None
    for n, line in enumerate(open(p), 1):
        m = re.match(r"//@ (prelude|accept|reject)\s*(.*)", line)
        if m:
            cur = pre if m.group(1) == "prelude" else {"kind": m.group(1), "text": m.group(2).strip(), "line": n, "code": []}
            if cur is not pre:
                its.append(cur)
        elif cur is pre:
            pre.append(line)
        elif cur is not None:
            cur["code"].append(line)
    return "".join(pre), its

def run(p, h, tier, tmp, cxx, cxxflags):
    """Compiles every block on top of the prelude (syntax and constant evaluation only, nothing is executed):
    an accept block that does not compile, or a reject block that does, violates the property."""
    pre, its = items(p)
    base = os.path.join(tmp, os.path.basename(p)[:-4])
    hdr = base + ".prelude.h"
    open(hdr, "w").write(pre)
    flags = [f for f in cxxflags if f not in ("-O1", "-g1", "-Xclang", "-disable-llvm-passes")] + h["flags"] + ["-fconstexpr-steps=50000000", "-fconstexpr-depth=2048"]
    r = sh([cxx] + flags + ["-x", "c++-header", hdr, "-o", hdr + ".pch"])
    if r.returncode:
        raise Broken("prelude of %s does not compile\n%s" % (os.path.basename(p), r.stdout))
    def one(k):
        it = its[k]
        src = "%s.%d.cpp" % (base, k)
        open(src, "w").write('#line %d "%s"\n' % (it["line"] + 1, os.path.basename(p)) + "".join(it["code"]))
        r = sh([cxx] + flags + ["-include-pch", hdr + ".pch", "-fsyntax-only", src])
        ok = r.returncode == 0
        want = it["kind"] == "accept"
        name = "w%02d_%s" % (k, re.sub(r"[^a-z0-9]+", "_", it["text"].lower())[:60].strip("_"))
        o = {"name": name, "unit": os.path.basename(p), "line": it["line"], "status": "PROVED", "asserts": max(1, "".join(it["code"]).count("&&") + "".join(it["code"]).count(";")), "paths": 1, "cells": 1, "steps": 0, "fails": []}
        if ok != want:
            first = next((l for l in r.stdout.splitlines() if "error:" in l), "")
            notes = [l for l in r.stdout.splitlines() if "note:" in l][:6]
            o["status"] = "FAIL"
            o["fails"] = [{"msg": ("must compile but does not: " if want else "must be rejected but compiles: ") + it["text"] + (" -- " + first.strip()[:300] if first else ""), "loc": "%s:%d" % (os.path.basename(p), it["line"]), "path": notes}]
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(its))))
