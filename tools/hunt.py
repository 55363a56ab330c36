#!/usr/bin/env python3
"""hunt.py FILE... [--jobs N] [--only ID,..]: does the check of a property see these changes?

Each FILE is Python defining muts = [(id, prop, [(file, old, new), ...]), ...].  Every change is applied to
a scratch copy of /repo's sources and the quick check of its property is run against that copy."""
import concurrent.futures as cf, os, runpy, shutil, subprocess, sys, re
T = "/tmp/hunt"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files = [a for a in sys.argv[1:] if a.endswith(".py")]
jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 2
only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
cpus = os.cpu_count() // jobs
shutil.rmtree(T + "/v", ignore_errors=True)
os.makedirs(T + "/cache", exist_ok=True)
subprocess.run(f"mkdir -p {T}/v && cd {V} && tar cf - --exclude=./build --exclude=./evidence --exclude=./seeded --exclude=./.git . | tar xf - -C {T}/v", shell=True, check=True)
def one(m, slot):
    i, prop, edits = m[0], m[1], m[2]
    r = f"{T}/r{slot}"; b = f"{T}/b{slot}"; v = f"{T}/v{slot}"
    for d in (r, b, v): shutil.rmtree(d, ignore_errors=True)
    os.makedirs(b); os.symlink(T + "/cache", b + "/cache")
    shutil.copytree(T + "/v", v)
    os.makedirs(r)
    for d in ("src", "include", "athena"): shutil.copytree("/repo/" + d, f"{r}/{d}")
    for e in edits:
        f, a, n = e[0], e[-2], e[-1]
        t = open(f"{r}/{f}").read()
        if len(e) == 4:  # (file, anchor, old, new): the first occurrence after the anchor
            k = t.find(e[1]); k2 = t.find(a, k) if k >= 0 else -1
            if k2 < 0: return i, prop, "BADEDIT", f"{f}: no {e[1][:50]!r} / {a[:50]!r}"
            open(f"{r}/{f}", "w").write(t[:k2] + n + t[k2 + len(a):])
            continue
        if t.count(a) != 1: return i, prop, "BADEDIT", f"{f}: {t.count(a)} x {a[:70]!r}"
        open(f"{r}/{f}", "w").write(t.replace(a, n))
    e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=b, VERIF_SEED="1")
    p = subprocess.run(["python3", "check.py", prop, "quick"], cwd=v, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    o = p.stdout
    s = {0: "MISSED", 1: "caught", 2: "noanswer"}.get(p.returncode, str(p.returncode))
    l = [x for x in o.split("\n") if x and not x.startswith("KNOWN") and not x.startswith("VIOLATION")]
    d = (l[0][:160] if s != "noanswer" else o[-800:]) if l else ""
    return i, prop, s, d + " | " + (l[-1][-60:] if l else "")
muts = [m for f in files for m in runpy.run_path(f)["muts"] if not only or m[0] in only]
import queue
slots = queue.Queue()
for k in range(jobs): slots.put(k)
def go(m):
    s = slots.get()
    try: return one(m, s)
    except Exception as x: return m[0], m[1], "ERROR", repr(x)
    finally: slots.put(s)
with cf.ThreadPoolExecutor(jobs) as ex:
    for f in cf.as_completed([ex.submit(go, m) for m in muts]):
        print("%-34s %s %-8s %s" % f.result(), flush=True)
