#!/usr/bin/env python3
"""check.py ID [quick|thorough]: build the harness for one property against /repo, run it,
write evidence/ID.json, print VIOLATION / KNOWN-FINDING lines.  Exit 0 held, 1 violated, 2 no answer.
check.py ID --case N [--seed S]: re-run one case and print what it does."""
import json, os, shutil, subprocess, sys, tempfile, time
import vbuild
from checks import CHECKS

V = vbuild.VERIF


def known():
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def env(variant):
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    # leaks are judged by the histories themselves (heap bytes before/after), not by LSan, which needs ptrace
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=0:max_allocation_size_mb=2048:handle_segv=1:"
                         "allow_user_segv_handler=0:print_legend=0:detect_odr_violation=0:fast_unwind_on_malloc=1:malloc_context_size=8")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = f"halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions={V}/tsan.supp:history_size=4"
    return e


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    case = None
    for i, a in enumerate(sys.argv):
        if a == "--case":
            case = sys.argv[i + 1]
        if a == "--seed":
            seed = int(sys.argv[i + 1])
    spec = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    rc = 2
    try:
        rc = go(pid, spec, tier, seed, case, scratch, t0)
    except vbuild.BuildError as e:
        print("the harness or /repo does not build:\n" + str(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def go(pid, spec, tier, seed, case, scratch, t0):
    res, fails, builds, outs = [], [], 0.0, []
    for part in spec["parts"]:
        exe, bt = vbuild.build(part["src"], part["variant"], pid, only=part.get("only"), defs=part.get("defs", ()), san_harness=part.get("san_harness", False))
        builds += bt
        out = os.path.join(scratch, part["src"][0].replace("/", "_") + part["variant"] + ".json")
        sc = os.path.join(scratch, part["variant"] + str(len(outs)))
        os.makedirs(sc)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", sc]
        if "scale" in part:
            cmd += ["--scale", str(part["scale"])]
        if case is not None:
            r = subprocess.run(cmd + ["--case", case], env=env(part["variant"]))
            continue
        limit = 800 if tier == "quick" else 3000
        try:
            r = subprocess.run(cmd, env=env(part["variant"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=limit)
            txt, code = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            txt, code = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -999
        outs.append(txt)
        j = json.load(open(out)) if os.path.exists(out) else None
        if j is None:
            # the monitored process itself died: that is an observation, not an error of the check
            j = dict(evaluations=0, distinct=0, rule="", counts={}, samples=[], fails=[])
            j["fails"].append("\x1f".join(["crash", f"the monitored process ended with {code}\n" + txt[-5000:], "0", ""]))
        elif code not in (0, 1):
            j["fails"].append("\x1f".join(["sanitizer", f"sanitizer reports (exit {code})\n" + txt[:6000], "0", ""]))
        j["variant"] = part["variant"]
        res.append(j)
        fails += j["fails"]
    if case is not None:
        return 0
    kn = [k for k in known() if k.get("property") == pid and k.get("status") == "open"]
    violations, shown = [], set()
    for f in fails:
        key, msg, idx, desc = (f.split("\x1f") + ["", "", "", ""])[:4]
        hit = [k for k in kn if k["key"] == key]
        if hit:
            if hit[0]["key"] not in shown:
                shown.add(hit[0]["key"])
            continue
        violations.append((key, msg, idx, desc))
    for k in kn:  # one line per listed finding, on every run
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    cov = dict(
        evaluations=sum(j["evaluations"] for j in res),
        distinct_nontrivial=sum(j["distinct"] for j in res),
        rule=" | ".join(j["rule"] for j in res if j["rule"]),
        samples=[s for j in res for s in j["samples"]][:8] or ["none"],
        observed={},
        instrumentation=[p["variant"] for p in spec["parts"]],
        build_s=round(builds, 1),
    )
    for j in res:
        for k, v in j["counts"].items():
            cov["observed"][k] = cov["observed"].get(k, 0) + v
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp_dir = os.path.join(ev_dir, "replay")
    for n, (key, msg, idx, desc) in enumerate(violations[:5]):
        os.makedirs(rp_dir, exist_ok=True)
        rp = os.path.join(rp_dir, f"{pid}-{n}.txt")
        with open(rp, "w", errors="replace") as f:
            f.write(f"property {pid}\nkind {key}\nreplay: python3 /verif/check.py {pid} --case {idx} --seed {seed}\n\n"
                    f"{msg}\n\ncase:\n{desc}\n")
        print(f"VIOLATION property={pid} replay={rp}")
        print("  " + key + ": " + msg[:1500].replace("\n", "\n  "))
    print(f"{pid} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct, "
          f"{len(violations)} violations, build {builds:.0f}s, wall {ev['wall_s']}s")
    vacuous = spec.get("min_eval", 20)
    if not violations and cov["evaluations"] < vacuous:
        print(f"only {cov['evaluations']} cases ran: no answer")
        return 2
    return 1 if violations else 0


main()
