// C10: run-time errors surface, and never poison later executions; contexts are reusable and bounded.
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

// reports one error per entry of the string list, in order, verbatim
static int32_t Multi(jitfusion::StringListStruct l, void* ctx) {
  for (uint32_t i = 0; i < l.len; ++i) static_cast<ExecContext*>(ctx)->AddError(std::string(l.data[i].len ? l.data[i].data : "", l.data[i].len));
  return static_cast<int32_t>(l.len);
}
// allocates n bytes in the arena and returns a string of them
static StringStruct Blob(uint32_t n, int32_t c, void* ctx) {
  StringStruct s;
  s.len = n;
  s.data = reinterpret_cast<char*>(static_cast<ExecContext*>(ctx)->arena.Allocate(n));
  if (n) memset(const_cast<char*>(s.data), c, n);
  return s;
}
static RegPtr& R() {
  static RegPtr r = [] {
    RegPtr x = MakeReg();
    Must(x->RegisterFunc(FunctionSignature("multi", {VT::kStringList, VT::kPtr}, VT::kI32), Opaque((void*)&Multi)), "multi");
    Must(x->RegisterReadOnlyCFuncWithExecCtx(FunctionSignature("blob", {VT::kU32, VT::kI32}, VT::kString), (void*)&Blob), "blob");
    return x;
  }();
  return r;
}
static P MultiN(int slot) {
  auto n = Fn("multi", {In(VT::kStringList, slot)}, VT::kI32, [](const std::vector<RetType>& v) -> RetType {
    return static_cast<int32_t>(std::get<std::vector<std::string>>(v[0]).size());
  });
  return n;
}
static P BlobN(P n, P c) {
  return Fn("blob", {n, c}, VT::kString, [](const std::vector<RetType>& v) -> RetType {
    return std::string(std::get<uint32_t>(v[0]), static_cast<char>(std::get<int32_t>(v[1])));
  });
}
static NodePtr BuildX(const P& n) {  // multi takes the context explicitly
  if (n->k == NK::Fn && n->name == "multi")
    return FnNode("multi", Args(Build(n->ch[0]), NodePtr(new jitfusion::ExecContextNode)));
  return Build(n);
}

// one thing a context can execute
struct Job {
  std::string what;
  P e;
  std::vector<VT> in;
  std::unique_ptr<ExecEngine> eng;
  std::unique_ptr<BatchExecEngine> batch;
  size_t at = 0;
  bool is_void = false, blob = false;
  bool model = true;  // status and value predicted by the interpreter; otherwise compared with a fresh context only
};

static void Predict(Ctx& c, const Job& j, const std::vector<RetType>& in, const Status& st, const RetType& v, const Out& out) {
  Machine m;
  RetType want;
  if (!j.model || !Reference(j.e, in, &m, &want)) return;
  if (j.e->k == NK::Bin && j.e->ch[0]->k == NK::Fn && j.e->ch[0]->name == "multi") {
    m.errors.clear();
    for (auto& s : std::get<std::vector<std::string>>(in[0])) m.errors.push_back(s);
    for (auto& s : std::get<std::vector<std::string>>(in[1])) m.errors.push_back(s);
  }
  if (m.errors.empty() != st.ok())
    c.Fail("status", j.what + " on\n" + Dump(in) + "expected " + std::to_string(m.errors.size()) + " errors, status " + st.ToString());
  if (!m.errors.empty() && st.ToString() != "Runtime Error: " + Joined(m.errors))
    c.Fail("message", j.what + " on\n" + Dump(in) + "expected Runtime Error: " + Joined(m.errors) + "\ngot " + st.ToString());
  if (m.errors.empty() && !j.is_void && !Same(v, want))
    c.Fail("value", j.what + " on\n" + Dump(in) + "got " + Show(v) + ", expected " + Show(want));
  if (j.is_void && !(Stored(out) == m.stores)) c.Fail("stores", j.what + " on\n" + Dump(in) + SpotDiff(Stored(out), m.stores));
}

static Status Run(Job& j, ExecContext* ctx, void* in, RetType* v, Out* out) {
  if (j.is_void) {
    void* o = out;
    if (j.eng) return ctx ? j.eng->Execute(*ctx, in, o) : j.eng->Execute(in, o);
    return ctx ? j.batch->ExecuteAt(j.at, *ctx, in, o) : j.batch->ExecuteAt(j.at, in, o);
  }
  if (j.eng) return ctx ? j.eng->Execute(*ctx, in, v) : j.eng->Execute(in, v);
  return ctx ? j.batch->ExecuteAt(j.at, *ctx, in, v) : j.batch->ExecuteAt(j.at, in, v);
}

static RetType ErrList(Rng& r) {
  std::vector<std::string> v(r.P(.4) ? 0 : r.P(.06) ? 10 + r.Below(300) : r.Below(4));
  for (auto& s : v) {
    s = RandStr(r, r.P(.1) ? 5000 : 12);
    if (r.P(.2)) s += r.P(.5) ? "; " : "| ";
  }
  return v;
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C10";
  p.quick_cases = 100000;
  p.thorough_cases = 3000000;
  p.quick_secs = 20;
  p.thorough_secs = 500;
  p.rule = "random sequences of executions of several engines through one context, some failing (user errors, mismatched lists), some allocating heavily; every call compared with a fresh context and, where possible, with the interpreter; distinct = sequence position, program shape and status";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    Rng& r = c.rng;
    std::vector<std::unique_ptr<Job>> jobs;
    size_t n = 2 + r.Below(3);
    std::string d;
    for (size_t i = 0; i < n; ++i) {
      auto j = std::make_unique<Job>();
      GenOpt o;
      o.fails = true;
      o.floats = false;
      Gen g(r, o);
      switch (r.Below(7)) {
        case 6: {  // arena pressure through statements
          j->in = {VT::kU32, VT::kI32};
          j->e = Seq({{"b", false, BlobN(In(VT::kU32, 0), In(VT::kI32, 1))}, {"", false, StoreN(1, RefN("b", VT::kString))}});
          j->is_void = j->blob = true;
          break;
        }
        case 0: {  // verbatim user errors
          j->in = {VT::kStringList, VT::kStringList};
          j->e = Bin(B::kAdd, MultiN(0), MultiN(1));
          break;
        }
        case 1: {  // arena pressure
          j->in = {VT::kU32, VT::kI32, VT::kU32, VT::kI32};
          j->e = Bin(B::kAdd, BlobN(In(VT::kU32, 0), In(VT::kI32, 1)), BlobN(In(VT::kU32, 2), FailN(1, In(VT::kI32, 3))));
          break;
        }
        case 2: {  // a builtin that reports an error for some inputs
          static const VT ls[] = {VT::kI32List, VT::kU8List, VT::kF64List, VT::kI64List, VT::kU16List};
          VT l = ls[r.Below(5)];
          j->in = {l, l};
          j->model = false;
          j->e = Fn(r.P(.5) ? "ListAdd" : "ListMul", {In(l, 0), In(l, 1)}, l, nullptr);
          break;
        }
        case 3: {  // statements and stores
          g.MakeInputs(3);
          g.in.push_back(VT::kI32);
          ProgOpt po;
          po.stmts = 4;
          po.nest = 1;
          ProgGen pg(g, po);
          j->e = pg.Pipeline();
          j->in = g.in;
          j->is_void = true;
          break;
        }
        default: {
          g.MakeInputs(2);
          g.in.push_back(VT::kI32);
          g.in.push_back(VT::kI32);
          j->e = g.Expr(r.P(.6) ? VT::kI32 : g.AnyT(), 3);
          j->in = g.in;
        }
      }
      j->what = "job " + std::to_string(i) + " " + Dump(j->e);
      d += j->what + "\n";
      jobs.push_back(std::move(j));
    }
    c.Desc(d);
    for (size_t i = 0; i < n; ++i) {
      Job& j = *jobs[i];
      NodePtr node;
      if (j.e->k == NK::Bin && j.e->ch[0]->k == NK::Fn && j.e->ch[0]->name == "multi")
        node = std::make_unique<jitfusion::BinaryOPNode>(B::kAdd, BuildX(j.e->ch[0]), BuildX(j.e->ch[1]));
      else node = Build(j.e);
      ExecEngineOption opt = Opt(true);
      static const int64_t chunk[] = {1, 7, 64, 4096, 1 << 20};
      opt.exec_ctx_arena_alloc_min_chunk_size = chunk[r.Below(5)];
      Status st;
      if (r.P(.5)) {
        j.eng = std::make_unique<ExecEngine>(opt);
        st = j.eng->Compile(node, R());
      } else {
        j.batch = std::make_unique<BatchExecEngine>(opt);
        std::vector<NodePtr> v;
        size_t k = 1 + r.Below(3);
        j.at = r.Below(k);
        for (size_t x = 0; x < k; ++x) v.push_back(x == j.at ? std::move(node) : ConstNode(int32_t(x)));
        st = j.batch->Compile(v, R());
      }
      if (!st.ok()) {
        if (Contains(st.ToString(), "constant zero")) return;
        c.Fail("refused", st.ToString());
      }
    }
    static const int64_t chunks[] = {1, 16, 300, 4096, 65536};
    ExecContext ctx(chunks[r.Below(5)]);
    auto values = [&](Job& j) {
      std::vector<RetType> v;
      GenOpt o;
      Gen g(r, o);
      for (size_t i = 0; i < j.in.size(); ++i) {
        VT t = j.in[i];
        if (t == VT::kStringList && j.e->k == NK::Bin && j.e->ch[0]->k == NK::Fn) v.push_back(ErrList(r));
        else if (j.blob && t == VT::kU32) v.push_back(static_cast<uint32_t>(r.P(.1) ? r.Below(20000) : r.Below(600)));
        else if (j.e->k == NK::Bin && j.e->ch[0]->k == NK::Fn && t == VT::kU32)
          v.push_back(static_cast<uint32_t>(r.P(.1) ? r.Below(200000) : r.Below(600)));
        else if (!j.model) v.push_back(RandList(r, t, r.Below(3) + 1, 1));
        else v.push_back(g.Value(t));
      }
      return v;
    };
    size_t steps = c.thorough ? 120 : 50;
    std::vector<std::tuple<std::string, RetType, RetType>> kept;  // results by value, checked at the end
    std::string hist;
    struct Step { size_t j; std::vector<RetType> in; };
    std::vector<Step> script;
    uint64_t maxbytes = 0, fails = 0;
    for (size_t s = 0; s < steps; ++s) {
      size_t k = r.Below(n);
      Job& j = *jobs[k];
      auto vals = values(j);
      if (j.model) {  // a step outside its documented domain may do anything: leave it out
        Machine m;
        RetType want;
        if (!Reference(j.e, vals, &m, &want)) {
          c.Count("steps left out: outside their domain");
          continue;
        }
      }
      script.push_back({k, vals});
      Inputs in(vals);
      auto out1 = std::make_unique<Out>(), out2 = std::make_unique<Out>();
      RetType a, b;
      Status s1 = Run(j, &ctx, in.Ptr(), &a, out1.get());
      Status s2;
      if (r.P(.5)) {
        ExecContext fresh(4096);
        s2 = Run(j, &fresh, in.Ptr(), &b, out2.get());
      } else {
        s2 = Run(j, nullptr, in.Ptr(), &b, out2.get());
      }
      std::string where = "step " + std::to_string(s) + " " + j.what + " on\n" + Dump(vals);
      if (s1.ToString() != s2.ToString())
        c.Fail("poisoned", where + "reused context: " + s1.ToString() + "\nfresh context: " + s2.ToString());
      if (s1.ok() && !j.is_void && !Same(a, b)) c.Fail("poisoned", where + "reused context: " + Show(a) + "\nfresh context: " + Show(b));
      if (j.is_void && !(Stored(*out1) == Stored(*out2))) c.Fail("poisoned", where + SpotDiff(Stored(*out1), Stored(*out2)));
      Predict(c, j, vals, s1, a, *out1);
      if (!in.Intact()) c.Fail("input-modified", where);
      if (s1.ok() && !j.is_void) kept.emplace_back(where, a, b);
      maxbytes = std::max<uint64_t>(maxbytes, ctx.arena.total_bytes());
      c.Count("executions compared with a fresh context");
      if (!s1.ok()) {
        ++fails;
        c.Count("failing executions");
        if (!j.model) c.Count("failing built-in functions");
      }
      c.Nontrivial(Shape(j.e) * 7 + vr::Hash(s1.ToString()));
    }
    if (script.empty()) return;
    // the same history again and again: the context must not grow
    uint64_t later = 0;
    for (int rep = 0; rep < 3; ++rep)
      for (auto& s : script) {
        Inputs in(s.in);
        auto out = std::make_unique<Out>();
        RetType a;
        Run(*jobs[s.j], &ctx, in.Ptr(), &a, out.get());
        later = std::max<uint64_t>(later, ctx.arena.total_bytes());
      }
    if (later > 2 * maxbytes + 4096)
      c.Fail("growth", "after repeating the same executions the context holds " + std::to_string(later) + " bytes, " +
                           std::to_string(maxbytes) + " in the first round");
    // one step alone, over and over, through a context of its own
    for (auto& j : jobs) {
      size_t k = r.Below(script.size());
      for (size_t x = 0; x < script.size() && jobs[script[k].j] != j; ++x) k = (k + 1) % script.size();
      if (jobs[script[k].j] != j) continue;
      ExecContext own(16);
      uint64_t first = 0;
      for (int rep = 0; rep < 40; ++rep) {
        Inputs in(script[k].in);
        auto out = std::make_unique<Out>();
        RetType a;
        Run(*j, &own, in.Ptr(), &a, out.get());
        if (rep == 1) first = own.arena.total_bytes();
        if (own.arena.total_bytes() > 2 * first + 1024 && rep > 1)
          c.Fail("growth", j->what + " on\n" + Dump(script[k].in) + "repeated " + std::to_string(rep) + " times through one context holds " +
                               std::to_string(own.arena.total_bytes()) + " bytes, " + std::to_string(first) + " after two runs");
        if (own.HasErrors()) c.Fail("growth", "a context holds errors after the execution that reported them");
      }
      c.Count("single steps repeated 40 times");
    }
    if (ctx.errors.size() > script.size()) c.Fail("growth", "errors accumulate in the context");
    c.Count("repeated executions", 3 * script.size());
    for (auto& [w, a, b] : kept)
      if (!Same(a, b)) c.Fail("result-changed", "a result obtained earlier changed later: " + w);
    c.Count("results kept across executions", kept.size());
    if (fails > 3) c.Sample(d);
  });
}
