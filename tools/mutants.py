#!/usr/bin/env python3
"""mutants.py gen N SEED > LIST.jsonl     random small changes of /repo's own sources
mutants.py filter LIST.jsonl OUT.jsonl [SLOTS]   those that build and that the existing tests do not notice
mutants.py check OUT.jsonl LOG [--jobs N]         which checks notice them

A change is one token or one statement: a comparison, an arithmetic or logical operator, a constant, a
condition negated, a statement dropped, a signedness swapped.  Works on scratch copies only."""
import concurrent.futures as cf, glob, json, os, queue, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "/tmp/mu"
MAP = [
    ("src/function/list_arithmetic", "C06"), ("src/function/list_comparison", "C07"), ("src/function/list_aggregation", "C08"),
    ("src/function/list_group", "C08"), ("src/function/list_basic", "C08 C09 C07 C06"), ("src/function/list_indexing", "C09"),
    ("src/function/math", "C01 C06 C02 C04"), ("src/function/string", "C09 C01 C04"), ("src/function/murmur", "C09"),
    ("src/codegen/const", "C22 C01 C14 C17"), ("src/codegen/function_codegen", "C20 C10 C02 C03 C01 C17"),
    ("src/codegen/if_block", "C03 C04"), ("src/codegen/no_op", "C03 C04 C02"), ("src/codegen/", "C01 C02 C03 C04 C17"),
    ("src/jit_core", "C16 C14 C10 C13 C20 C17"), ("src/exec_engine", "C16 C10 C14"), ("src/batch_exec", "C13 C16 C14 C15 C10"),
    ("src/execute_dispatch", "C10 C16 C13"), ("src/compiled_artifact", "C15 C14"), ("src/arena", "C18"), ("include/arena", "C18 C10"),
    ("src/diagnostic", "C21"), ("src/exec_node", "C23 C21 C04"), ("src/function_registry", "C20 C16"), ("include/function_registry", "C20"),
    ("src/type", "C04 C01 C21"), ("src/validator", "C04 C21 C03 C13"), ("src/scope_stack", "C04 C03"), ("include/", "C16 C10 C18 C23"),
    ("athena/ast_builder", "C11 C21 C04 C23"), ("athena/athena", "C16 C12 C21 C11 C13 C05"), ("athena/dsu", "C05"), ("athena/pipeline", "C05"),
]
def props(f):
    for p, c in MAP:
        if f.startswith(p): return c.split()
    return ["C16"]
def files():
    o = []
    for p in ("src/**/*.cc", "src/**/*.h", "athena/*.cc", "athena/*.h", "include/arena.h", "include/exec_node.h", "include/function_registry.h", "include/exec_engine.h"):
        o += [os.path.relpath(x, "/repo") for x in glob.glob("/repo/" + p, recursive=True)]
    return sorted(set(x for x in o if not re.search(r"parser|token|location|/test/", x)))
def ops(line):
    s = line.split("//")[0]
    if not s.strip() or s.strip().startswith(("#", "*", "/*", "using", "namespace", "template", "static_assert")): return []
    r = []
    def sub(pat, to, name):
        for m in re.finditer(pat, s):
            r.append((name, line[:m.start()] + m.expand(to) + line[m.end():]))
    sub(r"(?<=[\w)\]] )<(?= [\w(*&!-])", "<=", "lt-le"); sub(r"(?<=[\w)\]] )<=(?= )", "<", "le-lt")
    sub(r"(?<=[\w)\]] )>(?= [\w(*&!-])", ">=", "gt-ge"); sub(r"(?<=[\w)\]] )>=(?= )", ">", "ge-gt")
    sub(r"==", "!=", "eq-ne"); sub(r"!=", "==", "ne-eq"); sub(r"(?<= )&&(?= )", "||", "and-or"); sub(r"\|\|", "&&", "or-and")
    sub(r"(?<=[\w)\]] )\+(?= )", "-", "plus-minus"); sub(r"(?<=[\w)\]] )-(?= )", "+", "minus-plus"); sub(r"(?<=[\w)\]] )\*(?= [\w(])", "+", "mul-add")
    sub(r"\btrue\b", "false", "true-false"); sub(r"\bfalse\b", "true", "false-true")
    sub(r"(?<![\w.])0(?![\w.])", "1", "0-1"); sub(r"(?<![\w.])1(?![\w.])", "2", "1-2"); sub(r"(?<![\w.])1(?![\w.])", "0", "1-0")
    sub(r"CreateICmpS", "CreateICmpU", "scmp-u"); sub(r"CreateICmpU", "CreateICmpS", "ucmp-s"); sub(r"CreateSExt", "CreateZExt", "sext-z")
    sub(r"CreateZExt", "CreateSExt", "zext-s"); sub(r"\+\+(\w)", r"--\1", "inc-dec"); sub(r"\bbreak;", "continue;", "break-cont"); sub(r"\bcontinue;", "break;", "cont-break")
    sub(r"begin_", "end_", "begin-end"); sub(r"front\(\)", "back()", "front-back"); sub(r"\bstd::min\b", "std::max", "min-max"); sub(r"\bstd::max\b", "std::min", "max-min")
    sub(r"(ValueType::k)U(8|16|32|64)\b", r"\1I\2", "u-i"); sub(r"(ValueType::k)I(8|16|32|64)\b", r"\1U\2", "i-u"); sub(r"kF64\b", "kF32", "f64-f32")
    if "FunctionSignature(" in s: r = [x for x in r if x[0] not in ("u-i", "i-u", "f64-f32") or hash(s) % 8 == 0]
    m = re.match(r"^(\s*)(?:\} else )?if \((.*)\) \{\s*$", s)
    if m: r.append(("negate", line.replace("(" + m.group(2) + ")", "(!(" + m.group(2) + "))", 1)))
    if m: r.append(("never", line.replace("(" + m.group(2) + ")", "(false && (" + m.group(2) + "))", 1)))
    if re.match(r"^\s+[\w.\->\[\]:*()]+(\(.*\)| [-+|&^]?= .*);\s*$", s) and not re.match(r"^\s*(return|auto|const|using|throw|case|delete|static)\b", s) and not re.match(r"^\s*[\w:<>]+ \w+ = ", s):
        r.append(("drop", re.match(r"^\s*", line).group(0) + ";"))
    return r
def gen(n, seed):
    rnd = random.Random(seed); pool = {}
    for f in files():
        for i, l in enumerate(open("/repo/" + f).read().split("\n")):
            for name, new in ops(l):
                if new != l: pool.setdefault(f, []).append((i, name, new))
    weight = {f: len(p) ** .6 for f, p in pool.items()}
    seen = set()
    while len(seen) < n:
        f = rnd.choices(list(weight), list(weight.values()))[0]
        i, name, new = rnd.choice(pool[f])
        if (f, i, new) in seen: continue
        seen.add((f, i, new))
        print(json.dumps(dict(id=f"{os.path.basename(f).split('.')[0]}:{i + 1}:{name}", file=f, line=i, new=new, old=open('/repo/' + f).read().split('\n')[i])), flush=True)
def edit(root, m):
    p = f"{root}/{m['file']}"; t = open(p).read().split("\n")
    assert t[m["line"]] == m["old"]
    t[m["line"]] = m["new"]; open(p, "w").write("\n".join(t))
def sh(c, cwd, t):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, ""
def filt(lst, out, slots):
    ms = [json.loads(l) for l in open(lst)]; q = queue.Queue()
    done = set()
    if os.path.exists(out + ".done"): done = set(open(out + ".done").read().split("\n"))
    for k in range(slots):
        w = f"{T}/w{k}"
        if not os.path.isdir(w):
            shutil.copytree("/tmp/w", w, symlinks=True)
            sh(f"rm -rf {w}/_build; bash /tmp/wbuild.sh {w}", "/tmp", 1500)
        sh("git checkout -q -- .", w, 60)
        q.put(w)
    def one(m):
        w = q.get()
        try:
            sh("git checkout -q -- .", w, 60)
            edit(w, m)
            r, o = sh(f"ninja -j2 -C _build jitfusion_test athena_test", w, 900)
            if r: return m, "nobuild"
            r, o = sh("timeout 60 ./_build/jitfusion_test --gtest_brief=1 2>&1 | tail -3; timeout 60 ./_build/athena_test --gtest_brief=1 2>&1 | tail -3", w, 200)
            return m, "survives" if o.count("[  PASSED  ]") == 2 and "FAILED" not in o else "killed"
        finally:
            sh("git checkout -q -- .", w, 60); q.put(w)
    n = {}
    with cf.ThreadPoolExecutor(slots) as ex:
        for f in cf.as_completed([ex.submit(one, m) for m in ms if m["id"] + m["new"] not in done]):
            m, s = f.result(); n[s] = n.get(s, 0) + 1
            open(out + ".done", "a").write(m["id"] + m["new"] + "\n")
            print(s, m["id"], "|", m["new"].strip()[:100], flush=True)
            if s == "survives": open(out, "a").write(json.dumps(m) + "\n")
    print(n)
def check(lst, log, jobs):
    done = set(l.split()[0] for l in open(log)) if os.path.exists(log) else set()
    shutil.rmtree(T + "/v", ignore_errors=True); os.makedirs(T + "/cache", exist_ok=True)
    sh(f"mkdir -p {T}/v && cd {V} && tar cf - --exclude=./build --exclude=./evidence --exclude=./seeded --exclude=./.git . | tar xf - -C {T}/v", "/tmp", 100)
    q = queue.Queue()
    for k in range(jobs): q.put(k)
    def one(m):
        k = q.get()
        try:
            r, b, v = f"{T}/r{k}", f"{T}/b{k}", f"{T}/v{k}"
            for d in (r, b, v): shutil.rmtree(d, ignore_errors=True)
            os.makedirs(b); os.symlink(T + "/cache", b + "/cache"); shutil.copytree(T + "/v", v); os.makedirs(r)
            for d in ("src", "include", "athena"): shutil.copytree("/repo/" + d, f"{r}/{d}")
            edit(r, m)
            for p in props(m["file"]):
                x = subprocess.run(["python3", "check.py", p, "quick"], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_BUILD=b, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if x.returncode:
                    l = [y for y in x.stdout.split("\n") if y and not y.startswith(("KNOWN", "VIOLATION"))]
                    return m, f"{'caught' if x.returncode == 1 else 'noanswer'} {p} {(l or [''])[0][:110]}"
            return m, "MISSED " + ",".join(props(m["file"])) + " | " + m["old"].strip()[:110] + "  =>  " + m["new"].strip()[:130]
        finally: q.put(k)
    ms = [json.loads(l) for l in open(lst)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(one, m) for m in ms if m["id"] not in done]):
            m, s = f.result()
            open(log, "a").write(f"{m['id']} {s}\n")
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen": gen(int(a[2]), int(a[3]))
    elif a[1] == "filter": filt(a[2], a[3], int(a[4]) if len(a) > 4 else 3)
    else: check(a[2], a[3], int(a[4]) if len(a) > 4 else 2)
