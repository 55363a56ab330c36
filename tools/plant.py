#!/usr/bin/env python3
"""plant.py SPEC...: confirm planted bugs in the scratch tree /tmp/w and keep them in /verif/seeded.

A spec is a Python file defining id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ source).
/tmp/w is a built copy of /repo (HEAD); it is returned to HEAD after each bug."""
import json, os, runpy, subprocess, sys
W = "/tmp/w"
SH = '''#!/bin/bash
# Run in the root of the built repository: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -I. -Iinclude -Isrc -isystem /usr/lib/llvm-19/include "$D/demo.cc" _build/libathena.a _build/libjitfusion.a \\
  -L/usr/lib/llvm-19/lib -Wl,-rpath,/usr/lib/llvm-19/lib -lLLVM-19 -lpthread -rdynamic -o "$T/demo" || exit 9
timeout 250 "$T/demo"
'''
def sh(c, cwd=W, t=1200):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
    return r.returncode, r.stdout
def fail(m): print("   FAIL:", m); return False
def one(spec):
    s = runpy.run_path(spec)
    d = f"/verif/seeded/{s['id']}"
    print("==", s["id"], s["prop"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write('#include "h.h"\n' + s["demo"])
    open(d + "/h.h", "w").write(open("/verif/tools/h.h").read())
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .")
    for f, a, b in s["edits"]:
        t = open(f"{W}/{f}").read()
        if t.count(a) != 1: return fail(f"{f}: {t.count(a)} matches of {a[:60]!r}")
        open(f"{W}/{f}", "w").write(t.replace(a, b))
    try:
        open(d + "/patch.diff", "w").write(sh("git diff")[1])
        # which lines does it change, and are they the original's?
        r, o = sh(f"bash {d}/demo.sh", "/repo")
        if r: return fail(f"demo on unchanged: rc {r} {o[-600:]}")
        r, o = sh("bash /tmp/wbuild.sh /tmp/w")
        if r: return fail("build " + o[-1500:])
        r, o = sh("timeout 300 ./_build/jitfusion_test --gtest_brief=1 2>&1 | tail -15; timeout 300 ./_build/athena_test --gtest_brief=1 2>&1 | tail -15")
        if o.count("[  PASSED  ]") != 2 or "FAILED" in o: return fail("tests " + o[-1500:])
        r, o = sh(f"bash {d}/demo.sh")
        print("   demo with bug: rc", r, o[-300:].strip())
        if r == 0 or r == 9: return fail("demo passes or does not build with the bug")
    finally:
        sh("git checkout -q -- .")
    print("   KEPT"); return True
bad = [s for s in sys.argv[1:] if not one(s)]
for s in bad:
    i = runpy.run_path(s)["id"]; subprocess.run(["rm", "-r", f"/verif/seeded/{i}"])
print("not kept:", bad)
