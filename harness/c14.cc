// C14: saved artifacts reload to an engine with the same behaviour, here and in another process.
#include <spawn.h>
#include "common/big.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;
extern char** environ;

// A second set of registered functions at other addresses: an artifact must call these after loading.
static thread_local std::vector<Event>* g_trace2 = nullptr;
static thread_local uint64_t g_alt_calls = 0;
template <class C>
C LdNum2(void* e, int32_t i) { ++g_alt_calls; return LdNum<C>(e, i); }
template <class S>
S LdObj2(void* e, int32_t i) { ++g_alt_calls; return LdObj<S>(e, i); }
template <class S>
S Eff2(int32_t id, S v) {
  ++g_alt_calls;
  if (g_trace2) g_trace2->push_back({id, FromAbi(v)});
  return v;
}
template <class S>
void St2(void* out, int32_t id, S v) {
  ++g_alt_calls;
  St<S>(out, id, v);
}
static int32_t MayFail2(int32_t id, int32_t v, void* ctx) {
  ++g_alt_calls;
  return MayFail(id, v, ctx);
}
static jitfusion::I32ListStruct Rep2(int32_t v, uint32_t n, void* ctx) {
  ++g_alt_calls;
  return Rep(v, n, ctx);
}
static RegPtr AltReg(const std::string& without = "") {
  RegPtr r = MakeReg(false);
  auto* q = r.get();
#define X(K, C, S, N)                                                                                                         \
  if (without != "ld_" #N) Must(q->RegisterReadOnlyCFunc(FunctionSignature("ld_" #N, {VT::kPtr, VT::kI32}, VT::K), (void*)&LdNum2<C>), "ld"); \
  Must(q->RegisterReadOnlyCFunc(FunctionSignature("ld_" #N "list", {VT::kPtr, VT::kI32}, VT::K##List), (void*)&LdObj2<jitfusion::S>), "ld"); \
  Must(q->RegisterFunc(FunctionSignature("eff", {VT::kI32, VT::K}, VT::K), Opaque((void*)&Eff2<C>)), "eff");                   \
  Must(q->RegisterFunc(FunctionSignature("eff", {VT::kI32, VT::K##List}, VT::K##List), Opaque((void*)&Eff2<jitfusion::S>)), "eff"); \
  Must(q->RegisterStoreCFunc(FunctionSignature("st", {VT::kPtr, VT::kI32, VT::K}, VT::kVoid), (void*)&St2<C>, 1), "st");       \
  Must(q->RegisterStoreCFunc(FunctionSignature("st", {VT::kPtr, VT::kI32, VT::K##List}, VT::kVoid), (void*)&St2<jitfusion::S>, 1), "st");
  VJ_NUM(X)
#undef X
#define X(K, S, N)                                                                                                             \
  Must(q->RegisterReadOnlyCFunc(FunctionSignature("ld_" #N, {VT::kPtr, VT::kI32}, VT::K), (void*)&LdObj2<S>), "ld");            \
  Must(q->RegisterFunc(FunctionSignature("eff", {VT::kI32, VT::K}, VT::K), Opaque((void*)&Eff2<S>)), "eff");                    \
  Must(q->RegisterStoreCFunc(FunctionSignature("st", {VT::kPtr, VT::kI32, VT::K}, VT::kVoid), (void*)&St2<S>, 1), "st");
  X(kString, StringStruct, string)
  X(kStringList, StringListStruct, stringlist)
#undef X
  AddMix(q);
  Must(q->RegisterFunc(FunctionSignature("mayfail", {VT::kI32, VT::kI32, VT::kPtr}, VT::kI32), Opaque((void*)&MayFail2)), "mf");
  Must(q->RegisterReadOnlyCFuncWithExecCtx(FunctionSignature("rep", {VT::kI32, VT::kU32}, VT::kI32List), (void*)&Rep2), "rep");
  return r;
}

struct Case {
  bool batch = false, strict = true;
  std::vector<P> exprs;
  std::vector<bool> voids;
  std::vector<std::vector<RetType>> inputs;
};
// calls of the shipped functions, so that artifacts reference them
static P Lib(Gen& g, VT t) {
  Rng& r = g.r;
  auto any = [&](VT x) { return g.Expr(x, 1); };
  switch (r.Below(7)) {
    case 0: return Fn("StringConcat", {any(VT::kString), any(VT::kString)}, VT::kString, nullptr);
    case 1: return Fn("Sum", {any(VT::kI32List)}, VT::kI64, nullptr);
    case 2: return Fn("ListAdd", {any(VT::kF64List), any(VT::kF64)}, VT::kF64List, nullptr);
    case 3: return Fn("SortAsc", {any(VT::kU16List)}, VT::kU16List, nullptr);
    case 4: return Fn("FilterByBitmap", {any(VT::kI32List), Fn("GenLargeBitmap", {any(VT::kI32List), any(VT::kI32)}, VT::kU8List, nullptr)}, VT::kI32List, nullptr);
    case 5: return Fn("rep", {any(VT::kI32), Const(static_cast<uint32_t>(r.Below(50)))}, VT::kI32List, nullptr);
    default: return Fn("sin", {any(VT::kF64)}, VT::kF64, nullptr);
  }
  (void)t;
}
static Case Make(Rng& r) {
  Case k;
  k.batch = r.P(.45);
  k.strict = r.P(.6);
  GenOpt o;
  o.effects = r.P(.4);
  o.fails = r.P(.4);
  o.nan = r.P(.5);
  Gen g(r, o);
  g.MakeInputs(4 + r.Below(4));
  g.in.push_back(VT::kI32);
  size_t n = k.batch ? 1 + r.Below(r.P(.2) ? 20 : 5) : 1;
  bool big = k.batch && r.P(.03);  // more entries than a byte can count
  if (big) n = 120 + r.Below(300);
  // every constant at most once or many times: constants are what an artifact must carry
  for (size_t i = 0; i < n; ++i) {
    if (big && r.P(.97)) {
      k.exprs.push_back(r.P(.5) ? Const(static_cast<int32_t>(i)) : Const(RandOf(r, r.P(.3) ? VT::kString : r.Pick(kNums))));
      k.voids.push_back(false);
      continue;
    }
    if (r.P(.2)) {
      ProgOpt po;
      po.stmts = 1 + static_cast<int>(r.Below(6));
      po.prefix = "v" + std::to_string(i) + "_";
      ProgGen pg(g, po);
      k.exprs.push_back(r.P(.15) ? BigGen(g, 150).Make() : pg.Pipeline());
      g.vars.clear();
      k.voids.push_back(true);
      continue;
    }
    P e = r.P(.25) ? Lib(g, VT::kVoid) : r.P(.2) ? Const(RandOf(r, r.P(.5) ? r.Pick(kLists) : r.P(.5) ? VT::kString : r.Pick(kNums))) : g.Expr(g.AnyT(), 1 + r.Below(3));
    k.exprs.push_back(e);
    k.voids.push_back(false);
  }
  // inputs inside the documented domain of every expression with a model
  for (int t = 0; t < 20 && k.inputs.size() < 4; ++t) {
    auto in = g.InValues();
    bool ok = true;
    for (auto& e : k.exprs) {
      Machine m;
      RetType v;
      try {
        ok = ok && Reference(e, in, &m, &v) && m.stores.size() < 500;
      } catch (const std::bad_function_call&) {
      }
    }
    if (ok) k.inputs.push_back(in);
  }
  return k;
}
static bool HasModelHole(const P& e) {
  if (e->k == NK::Fn && !e->model) return true;
  for (auto& c : e->ch)
    if (HasModelHole(c)) return true;
  for (auto& s : e->body)
    if (HasModelHole(s.e)) return true;
  return false;
}

static std::string Line(const Status& st, const RetType& v, const Out& out, const std::vector<Event>& tr, bool is_void) {
  std::string s = st.ToString() + " | ";
  // a failed scalar call leaves its result unspecified
  if (!is_void) {
    OutRec rec = MakeRec(0, v);
    char b[64];
    snprintf(b, sizeof b, " %016llx", static_cast<unsigned long long>(rec.hash ^ HashBytes(rec.raw, sizeof rec.raw)));
    s += std::string(Name(rec.t)) + " " + Show(v).substr(0, 200) + b;
  }
  s += " |" + Trace(tr);
  if (out.n) {
    for (auto& r : Stored(out)) {
      char b[64];
      snprintf(b, sizeof b, " st%d:%016llx", r.id, static_cast<unsigned long long>(r.hash ^ HashBytes(r.raw, sizeof r.raw)));
      s += b;
    }
  }
  return s + "\n";
}
struct Eng {  // either kind
  std::unique_ptr<ExecEngine> one;
  std::unique_ptr<BatchExecEngine> many;
  Eng(const Case& k, bool save) {
    auto o = Opt(k.strict, save);
    if (k.batch) many = std::make_unique<BatchExecEngine>(o);
    else one = std::make_unique<ExecEngine>(o);
  }
  Status Compile(const Case& k, const RegPtr& reg) {
    std::vector<NodePtr> v;
    for (auto& e : k.exprs) v.push_back(Build(e));
    return many ? many->Compile(v, reg) : one->Compile(v[0], reg);
  }
  Status Save(std::string* s) const { return many ? many->SaveCompiled(s) : one->SaveCompiled(s); }
  Status Load(const std::string& s, const RegPtr& reg) { return many ? many->LoadCompiled(s, reg) : one->LoadCompiled(s, reg); }
  std::string Shape() const {
    std::string s;
    if (many) {
      s = "entries " + std::to_string(many->GetFunctionCount()) + ":";
      for (size_t i = 0; i < many->GetFunctionCount(); ++i) s += std::string(" ") + Name(many->GetReturnType(i));
    }
    return s + "\n";
  }
  std::string Run(const Case& k, std::vector<Event>** sink) {
    std::string log = Shape();
    ExecContext ctx(64);
    for (auto& in : k.inputs)
      for (size_t i = 0; i < k.exprs.size(); ++i) {
        Inputs inp(in);
        auto out = std::make_unique<Out>();
        RetType v;
        std::vector<Event> tr;
        *sink = &tr;
        Status st;
        if (k.voids[i]) {
          void* o = out.get();
          st = many ? many->ExecuteAt(i, ctx, inp.Ptr(), o) : one->Execute(ctx, inp.Ptr(), o);
        } else if (i % 2) {
          st = many ? many->ExecuteAt(i, ctx, inp.Ptr(), &v) : one->Execute(ctx, inp.Ptr(), &v);
        } else {
          st = many ? many->ExecuteAt(i, inp.Ptr(), &v) : one->Execute(inp.Ptr(), &v);
        }
        *sink = nullptr;
        log += Line(st, v, *out, tr, k.voids[i] || (!st.ok() && v.index() < 10));
      }
    return log;
  }
};
static std::string Describe(const Case& k) {
  std::string s = k.batch ? "batch\n" : "single\n";
  for (auto& e : k.exprs) s += Dump(e) + "\n";
  for (auto& in : k.inputs) s += "inputs:\n" + Dump(in);
  return s;
}

static std::string g_dir;
static int g_seq = 0;
struct Pending {
  uint64_t state, idx;
  std::string blob, want, desc;
};
static std::vector<Pending> g_pending;

static void PutS(std::string& o, const std::string& s) {
  o += std::to_string(s.size()) + ":" + s;
}
static std::string GetS(const std::string& f, size_t& p) {
  size_t c = f.find(':', p);
  size_t n = strtoull(f.c_str() + p, nullptr, 10);
  p = c + 1 + n;
  return f.substr(c + 1, n);
}
// the other process: argv = --load FILE OUT
static int Child(const char* in, const char* out) {
  std::string f = vr::ReadFile(in), o;
  RegPtr reg = AltReg();
  size_t p = 0;
  while (p < f.size()) {
    uint64_t state = strtoull(GetS(f, p).c_str(), nullptr, 10);
    std::string blob = GetS(f, p);
    Rng r(1);
    r.s = state;
    Case k = Make(r);
    vr::WriteFile(out, o + "");
    Eng e(k, false);
    Status st = e.Load(blob, reg);
    blob.assign(blob.size(), 'x');
    std::string log = st.ok() ? e.Run(k, &g_trace2) : "load: " + st.ToString();
    PutS(o, log);
    vr::WriteFile(out, o);
  }
  return 0;
}
static void Flush(Ctx& c) {
  if (g_pending.empty()) return;
  std::string base = g_dir + "/art" + std::to_string(getpid()) + "_" + std::to_string(g_seq++), f;
  for (auto& p : g_pending) PutS(f, std::to_string(p.state)), PutS(f, p.blob);
  vr::WriteFile(base + ".in", f);
  vr::WriteFile(base + ".out", "");
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n] = 0;
  std::string in = base + ".in", out = base + ".out", l = "--load";
  char* av[] = {exe, l.data(), in.data(), out.data(), nullptr};
  pid_t pid;
  int st = 0;
  if (posix_spawn(&pid, exe, nullptr, nullptr, av, environ) == 0) waitpid(pid, &st, 0);
  std::string o = vr::ReadFile(out);
  unlink(in.c_str());
  unlink(out.c_str());
  size_t p = 0, i = 0;
  for (; i < g_pending.size() && p < o.size(); ++i) {
    std::string got = GetS(o, p);
    c.Desc(g_pending[i].desc);
    if (got != g_pending[i].want)
      c.Report("other-process", "case " + std::to_string(g_pending[i].idx) + ": loaded in another process it gives\n" + got + "the original gives\n" + g_pending[i].want);
    c.Count("artifacts run in another process");
  }
  if (i < g_pending.size()) {
    c.Desc(g_pending[i].desc);
    c.Report("other-process", "case " + std::to_string(g_pending[i].idx) + ": the process that loaded it died, status " + std::to_string(st));
  }
  c.Count("other processes");
  g_pending.clear();
}

int main(int argc, char** argv) {
  if (argc == 4 && std::string(argv[1]) == "--load") return Child(argv[2], argv[3]);
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--scratch") g_dir = argv[i + 1];
  vr::Plan p;
  p.id = "C14";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 20;
  p.thorough_secs = 600;
  p.rule = "distinct programs (single and batch) saved and loaded with a registry whose functions live at other addresses, in this and in other processes; every status, value, event and store compared with the original engine";
  static RegPtr alt;
  p.worker_init = [] { alt = AltReg(); };
  p.worker_done = [](Ctx& c) { Flush(c); };
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    uint64_t state = c.rng.s;
    Case k = Make(c.rng);
    if (k.inputs.empty()) return;
    c.Desc(Describe(k));
    auto eng = std::make_unique<Eng>(k, true);
    std::string s;
    if (c.rng.P(.1)) {
      if (eng->Save(&s).ok()) c.Fail("save", "saving before compiling succeeds");
      Eng off(k, false);
      if (off.Compile(k, Reg()).ok() && off.Save(&s).ok()) c.Fail("save", "saving without having enabled it succeeds");
      c.Count("saves that must fail");
      s.clear();
    }
    Status st = eng->Compile(k, Reg());
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", st.ToString());
    }
    bool late = c.rng.P(.3);
    std::string want;
    if (!late) want = eng->Run(k, &g_trace);
    st = eng->Save(&s);
    if (!st.ok()) c.Fail("save", st.ToString());
    std::string s2;
    if (late) want = eng->Run(k, &g_trace);
    st = eng->Save(&s2);
    if (!st.ok()) c.Fail("save", "second save: " + st.ToString());
    std::string after = eng->Run(k, &g_trace);
    if (after != want) c.Fail("engine", "after saving, the original gives\n" + after + "before\n" + want);
    if (c.rng.P(.5)) eng.reset();
    // equivalent registry, other addresses; the destination may hold another program
    auto check = [&](const std::string& blob, const RegPtr& reg, bool is_alt) {
      Case other = k;
      other.exprs = {Const(static_cast<int32_t>(77))};
      Eng d(k, c.rng.P(.5));
      if (c.rng.P(.4)) d.Compile(other, Reg());
      std::string copy = blob;
      Status l = d.Load(copy, reg);
      copy.assign(copy.size(), '\xee');  // the engine must not depend on the caller's bytes
      if (!l.ok()) c.Fail("load", "a fresh artifact is refused: " + l.ToString());
      uint64_t calls = g_alt_calls;
      std::vector<Event> stray;
      std::string got = d.Run(k, is_alt ? &g_trace2 : &g_trace);
      if (got != want) c.Fail("behaviour", "the loaded engine gives\n" + got + "the original gives\n" + want);
      if (!is_alt && g_alt_calls != calls) c.Fail("registry", "an engine loaded with one registry calls functions of another");
      c.Count("loaded engines run");
      c.Count("results compared", k.inputs.size() * k.exprs.size());
      std::string re;
      if (d.Save(&re).ok()) c.Fail("re-save", "a loaded engine can be saved, which the documentation excludes");
    };
    check(s, alt, true);
    if (c.rng.P(.5)) check(s2, Reg(), false);
    // another program compiled into the engine that was saved: its artifact is the new program's
    if (eng && c.rng.P(.6)) {
      Case k2;
      for (int t = 0; t < 8; ++t) {
        k2 = Make(c.rng);
        k2.strict = k.strict;
        if (k2.batch == k.batch && !k2.inputs.empty()) break;
      }
      if (k2.batch == k.batch && !k2.inputs.empty() && eng->Compile(k2, Reg()).ok()) {
        std::string keep = c.cur_desc, s3;
        c.Desc(keep + "then, in the same engine:\n" + Describe(k2));
        std::string want2 = eng->Run(k2, &g_trace);
        st = eng->Save(&s3);
        if (!st.ok()) c.Fail("save", "after compiling another program: " + st.ToString());
        Eng d(k2, false);
        Status l = d.Load(s3, alt);
        if (!l.ok()) c.Fail("load", "the artifact of the second program is refused: " + l.ToString());
        std::string got = d.Run(k2, &g_trace2);
        if (got != want2) c.Fail("behaviour", "the loaded engine gives\n" + got + "the second program gives\n" + want2);
        c.Count("artifacts of a second program in the same engine");
        c.Desc(keep);
      }
    }
    if (c.rng.P(.1)) {
      RegPtr missing = AltReg("ld_i32");
      bool needs = false;
      for (auto& e : k.exprs) needs |= Dump(e).find(":i32") != std::string::npos;
      if (needs) {
        Eng d(k, false);
        std::string before = "x";
        if (d.Load(s, missing).ok()) c.Count("loads without a needed function accepted (optimised away)");
        else c.Count("loads without a needed function refused");
      }
    }
    g_pending.push_back({state, c.idx, s, want, c.cur_desc});
    if (g_pending.size() >= 12 || c.replay) Flush(c);
    for (auto& e : k.exprs) c.Nontrivial(Shape(e));
    c.Count(k.batch ? "batch programs" : "single programs");
    if (c.idx < 40) c.Sample(c.cur_desc.substr(0, 400) + want.substr(0, 300));
  });
}
