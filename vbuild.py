#!/usr/bin/env python3
"""Builds a harness against the *current* sources of /repo (never a copy of them).

Every .cc of the two libraries (the same globs CMakeLists.txt uses) is compiled with the
variant's sanitizers, grouped into a few "unity" translation units so LLVM's headers are
parsed about a dozen times instead of forty; a group that does not compile as a unit (two
files that define the same name) is compiled file by file instead.
Objects go to /verif/build (git-ignored) and are keyed by the content of every source and
header plus the flags, so an object is reused only for byte-identical input.
"""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
UB = "alignment,bool,enum,return,shift,bounds,unreachable,integer-divide-by-zero"
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["-O1", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-g1"],
    "plain": ["-O2"],
}
LLVM_INC = "/usr/lib/llvm-19/include"
LLVM_LIB = "/usr/lib/llvm-19/lib"


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]


def repo_sources():
    src = sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True))
    ath = sorted(glob.glob(REPO + "/athena/*.cc"))
    hdr = []
    for d in ("include", "src", "athena"):
        for ext in ("h", "hh", "hpp", "inc"):
            hdr += glob.glob(f"{REPO}/{d}/**/*.{ext}", recursive=True)
    return src, ath, sorted(h for h in hdr if "/test/" not in h)


def groups(src, ath):
    """Heavy files alone; light ones together, balanced by size."""
    solo, gen, core, fe = [], [], [], []
    for f in src:
        rel = os.path.relpath(f, REPO)
        if rel.startswith("src/function/") or rel == "src/jit_core.cc":
            solo.append([f])
        elif rel.startswith("src/codegen/"):
            gen.append(f)
        else:
            core.append(f)
    for f in ath:
        (solo.append([f]) if os.path.basename(f) in ("token.cc",) else fe.append(f))
    out = solo
    core.sort(key=os.path.getsize, reverse=True)
    a, b = [], []
    for f in core:
        t = a if sum(map(os.path.getsize, a)) <= sum(map(os.path.getsize, b)) else b
        t.append(f)
    out += [g for g in (gen, a, b, fe) if g]
    out.sort(key=lambda g: -sum(map(os.path.getsize, g)) - (40000 if "list_" in g[0] or "athena" in g[0] else 0))
    return out


class BuildError(Exception):
    pass


def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log.append("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.returncode == 0


def build(harness_srcs, variant, out_name, repo=True, only=None, jobs=None, defs=(), san_harness=False):
    """harness_srcs: paths under /verif/harness. only: restrict repo sources to these basenames."""
    t0 = time.time()
    jobs = jobs or os.cpu_count() or 4
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    src, ath, hdr = repo_sources()
    flags = ["-std=c++17", "-w", "-pthread"] + VARIANTS[variant] + list(defs)
    inc = ["-isystem", LLVM_INC, f"-I{REPO}/include", f"-I{REPO}/src", f"-I{REPO}/src/codegen",
           f"-I{REPO}/athena", f"-I{REPO}"]
    if only is not None:
        flat = [f for f in src + ath if os.path.basename(f) in only]
        grp = [[f] for f in flat]
    else:
        grp = groups(src, ath)
    hdr_sha = sha(*[x for h in hdr for x in (os.path.relpath(h, REPO), read(h))])
    com = sorted(glob.glob(VERIF + "/harness/**/*.h", recursive=True))
    com_sha = sha(*[read(c) for c in com])
    base = " ".join(flags)
    log, objs, tasks = [], [], []

    def compile_one(f, key, extra):
        o = os.path.join(cache, key + ".o")
        if not os.path.exists(o):
            tmp = f"{o}.{os.getpid()}.tmp"
            l = []
            if not run(["g++", "-c"] + flags + extra + inc + [f, "-o", tmp], l):
                return None, l
            os.replace(tmp, o)
        return [o], []

    def do_group(g):
        key = sha(base, hdr_sha, *[x for f in g for x in (os.path.relpath(f, REPO), read(f))])
        if len(g) == 1:
            return compile_one(g[0], key, [])
        u = os.path.join(cache, key + ".unity.cc")
        with open(u + f".{os.getpid()}", "w") as fh:
            fh.write("".join(f'#include "{f}"\n' for f in g))
        os.replace(u + f".{os.getpid()}", u)
        o, l = compile_one(u, key, [])
        if o is not None:
            return o, []
        objs2, logs = [], []
        for f in g:
            o, l = compile_one(f, sha(base, hdr_sha, os.path.relpath(f, REPO), read(f)), [])
            if o is None:
                return None, l
            objs2 += o
        return objs2, []

    def do_harness(f):
        p = os.path.join(VERIF, "harness", f)
        # models and generators are not under test: instrumenting them doubles the build time.
        # The repository's objects come first on the link line, so inline functions that both
        # define resolve to the instrumented copies.
        extra = [f"-I{VERIF}/harness"] + ([] if variant == "tsan" or san_harness else ["-fno-sanitize=all"])
        key = sha(base, hdr_sha, com_sha, f, read(p), " ".join(extra[1:]))
        return compile_one(p, key, extra)

    with cf.ThreadPoolExecutor(jobs) as ex:
        fut = [ex.submit(do_harness, f) for f in harness_srcs]
        if repo:
            fut += [ex.submit(do_group, g) for g in grp]
        for f in fut[len(harness_srcs):] + fut[:len(harness_srcs)]:
            o, l = f.result()
            if o is None:
                log += l
            else:
                objs += o
    if log:
        raise BuildError("\n".join(log))
    exe_key = sha(base, *objs)
    exe = os.path.join(cache, f"{out_name}-{variant}-{exe_key[:12]}")
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
        if not run(["g++", "-pthread"] + san + objs + ["-o", tmp, "-L" + LLVM_LIB, "-lLLVM-19", "-ldl"], log):
            raise BuildError("\n".join(log))
        os.replace(tmp, exe)
    return exe, time.time() - t0


if __name__ == "__main__":
    e, t = build(sys.argv[2:], sys.argv[1], "manual")
    print(e, f"{t:.1f}s")
