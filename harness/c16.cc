// C16: engines obey their life cycle under any call history.
// Histories over a population of engines of all four kinds, artifacts, expression trees, registries and contexts. Every
// program carries a constant of its own and every registry a function tag() of its own, so each result tells which
// program, compiled against which registry, really ran.
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

// ---- registries that answer differently ----------------------------------------------------------------
template <int N>
int32_t Tag32(int32_t x) { return static_cast<int32_t>(static_cast<uint32_t>(x) * 31u + 1000003u * N); }
template <int N>
int64_t Tag64(int32_t x) { return static_cast<int64_t>(x) * 31 + (int64_t{1} << 40) + 1000003LL * N; }
static const int kTags = 8;
template <int... I>
static void* TagPtr(int n, bool wide, std::integer_sequence<int, I...>) {
  void* a[] = {(void*)&Tag32<I>...};
  void* b[] = {(void*)&Tag64<I>...};
  return wide ? b[n] : a[n];
}
struct Sem {  // what tag() is under a registry
  int n = 0;
  bool wide = false;
  bool missing = false;
  bool operator==(const Sem& o) const { return n == o.n && wide == o.wide && missing == o.missing; }
  std::string Str() const { return missing ? "none" : (wide ? "wide" : "") + std::to_string(n); }
};
struct RegSlot {
  RegPtr reg;
  Sem sem;
};
static RegSlot NewReg(Rng& r) {
  RegSlot s;
  s.reg = MakeReg();
  s.sem.n = static_cast<int>(r.Below(kTags));
  s.sem.wide = r.P(.25);
  s.sem.missing = r.P(.15);
  if (!s.sem.missing) {
    FunctionSignature g("tag", {VT::kI32}, s.sem.wide ? VT::kI64 : VT::kI32);
    void* p = TagPtr(s.sem.n, s.sem.wide, std::make_integer_sequence<int, kTags>());
    Must(r.P(.5) ? s.reg->RegisterReadOnlyCFunc(g, p) : s.reg->RegisterFunc(g, Opaque(p)), "tag");
  }
  return s;
}
static P TagN(const Sem& s, P x) {
  Sem k = s;
  return Fn("tag", {x}, s.wide ? VT::kI64 : VT::kI32, [k](const std::vector<RetType>& v) -> RetType {
    int32_t x = std::get<int32_t>(v[0]);
    if (k.wide) return static_cast<int64_t>(x) * 31 + (int64_t{1} << 40) + 1000003LL * k.n;
    return static_cast<int32_t>(static_cast<uint32_t>(x) * 31u + 1000003u * static_cast<uint32_t>(k.n));
  });
}

// ---- programs ----------------------------------------------------------------------------------------------
enum Kind { kOne, kMany, kExpr, kPipe };
static const char* kKindName[] = {"engine", "batch", "expression", "pipeline"};
enum Bad { kFine, kTypes, kNoFunc, kNoVar, kSyntax, kEmpty, kZero, kLet };
struct Prog {
  Kind kind;
  int32_t k = 0;
  std::vector<int> shapes;  // one per entry
  bool is_void = false;
  bool uses_tag = false;
  // the expression of entry i as compiled against a registry of meaning s
  P Entry(size_t i, const Sem& s) const {
    int32_t K = k + static_cast<int32_t>(i) * 100000;
    P x = In(VT::kI32, 0);
    std::string name = "prog" + std::to_string(K);
    switch (shapes[i]) {
      case 0: return Bin(B::kAdd, Const(K), TagN(s, x));
      case 1: return Const(name);
      case 2: return Const(std::vector<int32_t>{K, K + 1, K + 2});
      case 3: return Bin(B::kAdd, FailN(K, x), Const(K));
      case 4: return Bin(B::kBitwiseXor, x, Const(K));
      case 5: return If(Bin(B::kLarge, x, Const(0)), TagN(s, Const(K)), Bin(B::kAdd, TagN(s, x), Const(K)));
      case 10: return Seq({{"", false, StoreN(K, TagN(s, x))}});
      case 11: return Seq({{"", false, StoreN(K, Const(name))}, {"", false, StoreN(K + 1, x)}});
      case 12: {
        P t = TagN(s, x);
        P a = RefN("a", t->t);
        return Seq({{"a", false, t}, {"a", false, Bin(B::kAdd, a, Const(K))}, {"", false, StoreN(K, a)}});
      }
      case 13: return Seq({{"", false, StoreN(K, FailN(K, x))}});
      default: return When({Bin(B::kLarge, x, Const(0)), Seq({{"", false, StoreN(K, Const(K))}}), Seq({{"", false, StoreN(K, TagN(s, x))}})});
    }
  }
  std::string Str() const {
    std::string s = std::string(kKindName[kind]) + " program " + std::to_string(k) + " (";
    for (int x : shapes) s += std::to_string(x) + ",";
    return s + ")";
  }
};
static Prog NewProg(Rng& r, Kind kind, int32_t k) {
  Prog p;
  p.kind = kind;
  p.k = k;
  size_t n = kind == kMany || kind == kPipe ? 1 + r.Below(4) : 1;
  p.is_void = kind == kPipe || (kind != kExpr && r.P(.25));
  for (size_t i = 0; i < n; ++i) p.shapes.push_back(p.is_void ? 10 + static_cast<int>(r.Below(5)) : static_cast<int>(r.Below(6)));
  for (int s : p.shapes) p.uses_tag |= s == 0 || s == 5 || s == 10 || s == 12 || s == 14;
  return p;
}
static P AsRoot(const P& e) { return e->k == NK::When ? Seq({{"", false, e}}) : e; }
static std::vector<NodePtr> Nodes(const Prog& p) {
  std::vector<NodePtr> v;
  for (size_t i = 0; i < p.shapes.size(); ++i) v.push_back(Build(AsRoot(p.Entry(i, Sem{}))));
  return v;
}
static std::vector<std::string> Texts(const Prog& p) {
  std::vector<std::string> v;
  for (size_t i = 0; i < p.shapes.size(); ++i) v.push_back(Text(AsRoot(p.Entry(i, Sem{}))));
  return v;
}
// the same program with one flaw
static NodePtr BadNode(Bad b, int32_t k) {
  switch (b) {
    case kTypes: return Build([&] {
      auto n = Mk(NK::Bin, VT::kI32);
      n->bop = B::kAdd;
      n->ch = {Const(k), Const(std::string("x"))};
      return n;
    }());
    case kNoFunc: return Build(Fn("no_such_function", {Const(k)}, VT::kI32, nullptr));
    case kZero: return Build(Bin(B::kDiv, In(VT::kI32, 0), Const(0)));
    case kLet: return Build(Seq({{"a", true, Const(k)}, {"a", false, Const(k)}, {"", false, StoreN(k, RefN("a", VT::kI32))}}));
    default: return Build(Seq({{"", false, StoreN(k, RefN("nowhere", VT::kI32))}}));
  }
}
static std::string BadText(Bad b, bool expr, int32_t k) {
  std::string K = std::to_string(k), s;
  switch (b) {
    case kTypes: s = K + " + \"x\""; break;
    case kNoFunc: s = "no_such_function(" + K + ")"; break;
    case kNoVar: s = "nowhere + " + K; break;
    case kSyntax: return expr ? "a = " + K + "; a + ;" : "st(output, " + K + ", 1); when (1) {";
    case kEmpty: return "";
    case kLet: return "let a = " + K + "; a = 2; " + (expr ? "a;" : "st(output, " + K + ", a);");
    default: s = "ld_i32(entry_arg, 0) / 0"; break;
  }
  return expr ? s + ";" : "st(output, " + K + ", " + s + ");";
}

// ---- engines -----------------------------------------------------------------------------------------------
struct Eng {
  int id;
  Kind kind;
  bool save, ir, strict = true;
  std::unique_ptr<ExecEngine> one;
  std::unique_ptr<BatchExecEngine> many;
  std::unique_ptr<athena::AthenaExpression> ex;
  std::unique_ptr<athena::AthenaPipeline> pl;
  // model
  std::shared_ptr<Prog> prog;  // the program that runs, or null
  Sem sem;
  bool maybe = false;   // a compile failed since: running it may also be an error
  bool loaded = false;
  std::string ir_text;  // as seen after the last successful compile
  std::string Str() const { return std::string(kKindName[kind]) + "#" + std::to_string(id) + (save ? "+save" : "") + (ir ? "+ir" : ""); }
  std::string_view IR() const {
    switch (kind) {
      case kOne: return one->GetIRCode();
      case kMany: return many->GetIRCode();
      case kExpr: return ex->GetIRCode();
      default: return "";
    }
  }
};
struct Blob {
  std::string bytes;
  std::shared_ptr<Prog> prog;
};
struct Tree {  // nodes that are compiled over and over
  std::shared_ptr<Prog> prog;
  std::vector<NodePtr> nodes;
};

struct World {
  Ctx& c;
  Rng& r;
  std::vector<std::unique_ptr<Eng>> engs;
  std::vector<RegSlot> regs;
  std::vector<Blob> blobs;
  std::vector<Tree> trees;
  std::vector<std::unique_ptr<ExecContext>> ctxs;
  std::vector<std::pair<RetType, RetType>> kept;  // results still held, and copies of them
  int next_id = 0;
  int32_t next_k = 1001;
  explicit World(Ctx& cc) : c(cc), r(cc.rng) {
    for (int i = 0; i < 3; ++i) regs.push_back(NewReg(r));
    regs[0].sem.missing ? (regs[0] = NewReg(r), 0) : 0;
    for (int i = 0; i < 2; ++i) ctxs.push_back(std::make_unique<ExecContext>(r.P(.5) ? 16 : 4096));
  }
  void Say(const std::string& s) { c.AddDesc(s + "\n"); }
  int32_t NewK() { return next_k += 10; }

  void Add() {
    auto e = std::make_unique<Eng>();
    e->id = next_id++;
    e->kind = r.P(.45) ? kOne : r.P(.6) ? kMany : r.P(.5) ? kExpr : kPipe;
    e->save = r.P(.6);
    e->ir = r.P(.4);
    e->strict = r.P(.5);
    auto o = Opt(e->strict, e->save, e->ir);
    if (r.P(.2)) o.exec_ctx_arena_alloc_min_chunk_size = r.P(.5) ? 1 : 100000;
    switch (e->kind) {
      case kOne: e->one = std::make_unique<ExecEngine>(o); break;
      case kMany: e->many = std::make_unique<BatchExecEngine>(o); break;
      case kExpr: e->ex = std::make_unique<athena::AthenaExpression>(o); break;
      default: e->pl = std::make_unique<athena::AthenaPipeline>(o);
    }
    Say("create " + e->Str());
    if (r.P(.5)) Run(*e);  // nothing compiled yet
    CheckIR(*e);
    engs.push_back(std::move(e));
  }
  Status CompileNodes(Eng& e, const std::vector<NodePtr>& v, const RegPtr& reg) {
    return e.kind == kOne ? e.one->Compile(v[0], reg) : e.many->Compile(v, reg);
  }
  Status CompileTexts(Eng& e, const std::vector<std::string>& t, const RegPtr& reg) {
    return e.kind == kExpr ? e.ex->Compile(t[0], reg) : e.pl->Compile(t, reg);
  }
  void CompileGood(Eng& e) {
    RegSlot& g = regs[r.Below(regs.size())];
    Status st;
    std::shared_ptr<Prog> p;
    std::string how;
    if (e.kind == kOne || e.kind == kMany) {
      std::vector<size_t> fit;
      for (size_t i = 0; i < trees.size(); ++i)
        if (trees[i].prog->kind == e.kind || (trees[i].nodes.size() == 1)) fit.push_back(i);
      if (!fit.empty() && r.P(.4)) {  // a tree that was compiled before, perhaps elsewhere, perhaps against another registry
        Tree& t = trees[fit[r.Below(fit.size())]];
        p = std::make_shared<Prog>(*t.prog);
        p->kind = e.kind;
        how = " (tree used before)";
        st = CompileNodes(e, t.nodes, g.reg);
        c.Count("trees compiled again");
      } else {
        p = std::make_shared<Prog>(NewProg(r, e.kind, NewK()));
        auto n = Nodes(*p);
        st = CompileNodes(e, n, g.reg);
        if (r.P(.3)) {
          trees.push_back({p, std::move(n)});
          if (trees.size() > 4) trees.erase(trees.begin());
        }
      }
    } else {
      p = std::make_shared<Prog>(NewProg(r, e.kind, NewK()));
      st = CompileTexts(e, Texts(*p), g.reg);
    }
    bool must_fail = p->uses_tag && g.sem.missing;
    Say("compile " + e.Str() + " " + p->Str() + how + " tag=" + g.sem.Str() + ": " + st.ToString());
    if (must_fail) {
      if (st.ok()) c.Fail("accepted", "a program calling an unregistered function compiles");
      Failed(e);
      return;
    }
    if (!st.ok()) c.Fail("refused", st.ToString());
    std::string before = e.ir_text;
    bool same_prog = e.prog && e.prog->k == p->k;
    e.prog = p;
    e.sem = g.sem;
    e.maybe = false;
    e.loaded = false;
    e.ir_text.clear();
    CheckIR(e);
    if (e.ir && e.kind != kPipe) {
      e.ir_text = std::string(e.IR());
      if (!before.empty() && !same_prog && p->shapes[0] == 4 && before == e.ir_text) c.Fail("ir", "the IR text is still that of the program before");
      // the text of this program alone: as an engine that compiles nothing else gives
      if (r.P(.5) && how.empty()) {
        std::string fresh;
        auto o = Opt(e.strict, e.save, true);
        Status s2;
        if (e.kind == kExpr) {
          athena::AthenaExpression x(o);
          s2 = x.Compile(Texts(*p)[0], g.reg);
          fresh = x.GetIRCode();
        } else if (e.kind == kOne) {
          ExecEngine x(o);
          auto n = Nodes(*p);
          s2 = x.Compile(n[0], g.reg);
          fresh = x.GetIRCode();
        } else {
          BatchExecEngine x(o);
          auto n = Nodes(*p);
          s2 = x.Compile(n, g.reg);
          fresh = x.GetIRCode();
        }
        if (s2.ok() && fresh.size() != e.ir_text.size())
          c.Fail("ir", e.Str() + "'s IR text is not the one of its program alone: " + std::to_string(e.ir_text.size()) + " bytes, fresh engine " + std::to_string(fresh.size()));
        c.Count("IR texts compared with a fresh engine's");
      }
    }
    c.Count("successful compiles");
  }
  void Failed(Eng& e) {
    e.maybe = true;
    c.Count("failed compiles");
    CheckIR(e);
  }
  void CompileBad(Eng& e) {
    RegSlot& g = regs[r.Below(regs.size())];
    int32_t k = NewK();
    Status st;
    std::string d;
    if (e.kind == kOne || e.kind == kMany) {
      Bad b = r.Pick(std::vector<Bad>{kTypes, kNoFunc, kNoVar, kZero, kLet});
      std::vector<NodePtr> v;
      if (e.kind == kMany && r.P(.15)) {
        d = "empty list";
      } else {
        size_t n = e.kind == kMany ? 1 + r.Below(4) : 1, at = r.Below(n);
        for (size_t i = 0; i < n; ++i) {
          if (i == at) {
            v.push_back(BadNode(b, k));
          } else {
            Prog q = NewProg(r, kOne, NewK());
            v.push_back(std::move(Nodes(q)[0]));
          }
        }
        d = "flaw " + std::to_string(b) + " at " + std::to_string(at) + " of " + std::to_string(n);
      }
      st = CompileNodes(e, v, g.reg);
    } else {
      Bad b = r.Pick(std::vector<Bad>{kTypes, kNoFunc, kNoVar, kSyntax, kEmpty, kZero, kLet});
      std::vector<std::string> t;
      size_t n = e.kind == kPipe ? 1 + r.Below(4) : 1, at = r.Below(n);
      for (size_t i = 0; i < n; ++i) t.push_back(i == at ? BadText(b, e.kind == kExpr, k) : Texts(NewProg(r, kPipe, NewK()))[0]);
      d = "flaw " + std::to_string(b) + " at " + std::to_string(at) + " of " + std::to_string(n);
      st = CompileTexts(e, t, g.reg);
    }
    Say("compile " + e.Str() + " " + d + ": " + st.ToString());
    if (st.ok()) c.Fail("accepted", d + " compiles");
    Failed(e);
  }
  void CheckIR(Eng& e) {
    if (e.kind == kPipe) return;
    std::string_view ir = e.IR();
    if (!e.ir && !ir.empty()) c.Fail("ir", e.Str() + " was not asked for IR text but has it");
    if ((!e.prog || e.loaded) && !e.maybe && !ir.empty()) c.Fail("ir", e.Str() + " has IR text although " + (e.loaded ? "its program was loaded" : "nothing is compiled"));
    if (e.maybe && !ir.empty() && ir != e.ir_text) c.Fail("ir", e.Str() + "'s IR text after a refused compile is not that of the program before");
    if (e.ir && e.prog && !e.loaded && !e.maybe) {
      if (ir.empty()) c.Fail("ir", e.Str() + " was asked for IR text, has compiled and has none");
      if (!e.ir_text.empty() && ir != e.ir_text) c.Fail("ir", e.Str() + "'s IR text changed without a compile");
      if (ir.find("define") == std::string_view::npos) c.Fail("ir", e.Str() + "'s IR text holds no function");
      c.Count("IR texts seen");
    }
  }
  void Save(Eng& e) {
    if (e.kind != kOne && e.kind != kMany) return;
    std::string s;
    Status st = e.kind == kOne ? e.one->SaveCompiled(&s) : e.many->SaveCompiled(&s);
    Say("save " + e.Str() + ": " + st.ToString());
    bool can = e.save && e.prog && !e.loaded;
    if (st.ok() && !can) c.Fail("save", e.Str() + " saves although " + (!e.prog ? "nothing is compiled" : e.loaded ? "its program was loaded" : "saving is not enabled"));
    if (!st.ok() && can && !e.maybe) c.Fail("save", st.ToString());
    if (!st.ok()) {
      c.Count("saves refused");
      return;
    }
    c.Count("saves");
    blobs.push_back({s, e.prog});
    if (blobs.size() > 5) blobs.erase(blobs.begin());
  }
  void Load(Eng& e) {
    if ((e.kind != kOne && e.kind != kMany) || blobs.empty()) return;
    const Blob& b = blobs[r.Below(blobs.size())];
    RegSlot& g = regs[r.Below(regs.size())];
    std::string s = b.bytes, what = "sound";
    bool bad = false;
    if (r.P(.3)) {
      bad = true;
      switch (r.Below(6)) {
        case 0: s.resize(r.Below(s.size())); what = "truncated"; break;
        case 1: s[r.Below(4)] ^= 1; what = "wrong magic"; break;
        case 2: s[4] ^= 2; what = "wrong version"; break;
        case 3: s.back() ^= 1; what = "wrong footer"; break;
        case 4: s += '\0'; what = "extended"; break;
        default: s.clear(); what = "empty";
      }
    }
    if (b.prog->kind != e.kind) bad = true, what += ", other kind";
    if (b.prog->uses_tag && g.sem.missing) bad = true, what += ", function missing";
    // an equivalent registry must declare the same types
    bool mismatch = false;
    if (!bad && b.prog->uses_tag) mismatch = g.sem.wide != WideOf(b);
    if (mismatch) return;
    Status st = e.kind == kOne ? e.one->LoadCompiled(s, g.reg) : e.many->LoadCompiled(s, g.reg);
    std::fill(s.begin(), s.end(), 'z');
    Say("load " + e.Str() + " <- " + b.prog->Str() + " [" + what + "] tag=" + g.sem.Str() + ": " + st.ToString());
    if (bad) {
      if (st.ok()) c.Fail("load-accepted", what + " artifact is loaded");
      c.Count("loads refused");
      CheckIR(e);
      return;
    }
    if (!st.ok()) c.Fail("load-refused", st.ToString());
    e.prog = std::make_shared<Prog>(*b.prog);
    e.sem = g.sem;
    e.maybe = false;
    e.loaded = true;
    e.ir_text.clear();
    CheckIR(e);
    c.Count("loads");
  }
  std::map<const Prog*, bool> wide;
  bool WideOf(const Blob& b) { return wide[b.prog.get()]; }

  void Run(Eng& e) {
    int32_t x = r.P(.5) ? static_cast<int32_t>(r.Below(9)) - 4 : static_cast<int32_t>(r.Next());
    if (x > 2000000000 || x < -2000000000) x = 7;
    std::vector<RetType> vals{x};
    Inputs in(vals);
    ExecContext* cx = r.P(.5) ? ctxs[r.Below(ctxs.size())].get() : nullptr;
    auto out = std::make_unique<Out>();
    void* o = out.get();
    size_t n = e.prog ? e.prog->shapes.size() : 0;
    bool v_out = e.prog ? e.prog->is_void : e.kind == kPipe || (e.kind != kExpr && r.P(.5));
    // what a run of entry i must show
    std::vector<Machine> m(n);
    std::vector<RetType> want(n);
    for (size_t i = 0; i < n; ++i) Reference(AsRoot(e.prog->Entry(i, e.sem)), vals, &m[i], &want[i]);
    auto join = [&](size_t i) { return "Runtime Error: " + Joined(m[i].errors); };
    auto stale = [&](const std::string& call, const Status& st) {
      if (st.ok() && !e.prog) c.Fail("ghost", e.Str() + ": " + call + " succeeds although nothing was ever compiled");
      return !st.ok() && (!e.prog || e.maybe) && (!out->n);
    };
    auto bad = [&](const std::string& call, const std::string& msg) {
      c.Fail("wrong-program", e.Str() + " on " + std::to_string(x) + ": " + call + " " + msg + "\nthe program in force is " + (e.prog ? e.prog->Str() + " tag=" + e.sem.Str() : "none"));
    };
    auto check = [&](const std::string& call, size_t i, const Status& st, const RetType& v) {
      if (st.ok() != m[i].errors.empty() || (!st.ok() && st.ToString() != join(i))) bad(call, "gives " + st.ToString() + (m[i].errors.empty() ? "" : ", expected " + join(i)));
      if (st.ok() && !v_out && !Same(v, want[i])) bad(call, "gives " + std::string(Name(TypeOf(v))) + " " + Show(v) + ", expected " + Show(want[i]));
      if (v_out && !(Stored(*out) == m[i].stores)) bad(call, "stores\n" + SpotDiff(Stored(*out), m[i].stores));
      if (st.ok() && !v_out) Keep(v);
    };
    c.Count("executions");
    if (!e.prog) c.Count("executions with nothing compiled");
    if (e.prog && e.maybe) c.Count("executions after a failed compile");
    if (e.prog && e.loaded) c.Count("executions of loaded programs");
    RetType v;
    Status st;
    if (e.kind == kMany) {
      if (n && !e.maybe) {
        if (e.many->GetFunctionCount() != n) bad("GetFunctionCount", "is " + std::to_string(e.many->GetFunctionCount()));
        for (size_t i = 0; i < n; ++i) {
          VT t = e.prog->is_void ? VT::kVoid : e.prog->Entry(i, e.sem)->t;
          if (e.many->GetReturnType(i) != t) bad("GetReturnType(" + std::to_string(i) + ")", std::string("is ") + Name(e.many->GetReturnType(i)));
        }
      } else if (e.many->GetFunctionCount() != 0 && e.many->GetFunctionCount() != n) {
        bad("GetFunctionCount", "is " + std::to_string(e.many->GetFunctionCount()));
      }
      size_t have = e.many->GetFunctionCount();
      st = cx ? e.many->ExecuteAt(have, *cx, in.Ptr(), &v) : e.many->ExecuteAt(have, in.Ptr(), &v);
      if (st.ok()) bad("ExecuteAt(count)", "succeeds");
      if (!e.prog) {
        if (e.many->ExecuteAt(0, in.Ptr(), o).ok() || out->n) bad("ExecuteAt(0)", "succeeds");
        return;
      }
      if (r.P(.4)) {
        std::vector<RetType> res;
        st = v_out ? (cx ? e.many->ExecuteAll(*cx, in.Ptr(), o) : e.many->ExecuteAll(in.Ptr(), o))
                   : (cx ? e.many->ExecuteAll(*cx, in.Ptr(), &res) : e.many->ExecuteAll(in.Ptr(), &res));
        if (have == 0) {  // after a failed compile: nothing may run
          if (out->n || !res.empty()) bad("ExecuteAll", "runs something");
          return;
        }
        bool any = false;
        std::vector<OutRec> all;
        for (auto& y : m) any |= !y.errors.empty(), all.insert(all.end(), y.stores.begin(), y.stores.end());
        if (st.ok() == any) bad("ExecuteAll", "gives " + st.ToString());
        if (v_out && !(Stored(*out) == all)) bad("ExecuteAll", "stores\n" + SpotDiff(Stored(*out), all));
        if (!v_out && res.size() != n) bad("ExecuteAll", "gives " + std::to_string(res.size()) + " results");
        for (size_t i = 0; !v_out && i < n; ++i)
          if (m[i].errors.empty() && !Same(res[i], want[i])) bad("ExecuteAll", "gives " + Show(res[i]) + " for entry " + std::to_string(i));
        return;
      }
      size_t i = r.Below(n);
      if (v_out) st = cx ? e.many->ExecuteAt(i, *cx, in.Ptr(), o) : e.many->ExecuteAt(i, in.Ptr(), o);
      else st = cx ? e.many->ExecuteAt(i, *cx, in.Ptr(), &v) : e.many->ExecuteAt(i, in.Ptr(), &v);
      std::string call = "ExecuteAt(" + std::to_string(i) + ")";
      if (!stale(call, st)) check(call, i, st, v);
      return;
    }
    switch (e.kind) {
      case kOne:
        if (v_out) st = cx ? e.one->Execute(*cx, in.Ptr(), o) : e.one->Execute(in.Ptr(), o);
        else st = cx ? e.one->Execute(*cx, in.Ptr(), &v) : e.one->Execute(in.Ptr(), &v);
        break;
      case kExpr: st = cx ? e.ex->Execute(*cx, in.Ptr(), &v) : e.ex->Execute(in.Ptr(), &v); break;
      default: st = cx ? e.pl->Execute(*cx, in.Ptr(), o) : e.pl->Execute(in.Ptr(), o);
    }
    if (stale("Execute", st)) return;
    if (e.kind != kPipe) {
      check("Execute", 0, st, v);
      return;
    }
    // order between pipelines is open: compare as multisets
    std::vector<OutRec> all;
    size_t errs = 0;
    for (auto& y : m) errs += y.errors.size(), all.insert(all.end(), y.stores.begin(), y.stores.end());
    if (st.ok() != (errs == 0)) bad("Execute", "gives " + st.ToString());
    auto got = Stored(*out);
    bool eq = got.size() == all.size();
    for (auto& w : all) eq = eq && std::count(got.begin(), got.end(), w) == std::count(all.begin(), all.end(), w);
    if (!eq) bad("Execute", "stores\n" + Recs(got) + "expected\n" + Recs(all));
  }
  void Keep(const RetType& v) {
    kept.emplace_back(v, v);
    if (kept.size() > 20) {
      for (auto& k : kept)
        if (!Same(k.first, k.second)) c.Fail("result", "a result held by the caller changed");
      kept.clear();
    }
  }

  void Step() {
    if (engs.empty() || (engs.size() < 5 && r.P(.12))) {
      Add();
      return;
    }
    Eng& e = *engs[r.Below(engs.size())];
    switch (!e.prog && !e.maybe ? r.Below(5) : r.Below(14)) {
      case 0:
      case 1: {
        CompileGood(e);
        if (e.prog) wide[e.prog.get()] = e.sem.wide;
        // an artifact keeps its program object alive, so the address identifies it
        held.push_back(e.prog);
        break;
      }
      case 2: CompileBad(e); break;
      case 3:
      case 6: Save(e); break;
      case 4:
      case 7:
        Load(e);
        if (e.prog) wide[e.prog.get()] = e.sem.wide, held.push_back(e.prog);
        break;
      case 5:
        if (r.P(.35)) {
          Say("destroy " + e.Str());
          size_t i = 0;
          while (engs[i].get() != &e) ++i;
          engs.erase(engs.begin() + static_cast<long>(i));
          c.Count("engines destroyed");
        } else if (r.P(.4)) {
          size_t i = r.Below(regs.size());
          regs[i].reg.reset();
          regs[i] = NewReg(r);
          Say("replace registry " + std::to_string(i));
          c.Count("registries destroyed");
        }
        break;
      default: Run(e);
    }
  }
  std::vector<std::shared_ptr<Prog>> held;
};

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C16";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 20;
  p.thorough_secs = 600;
  p.rule = "histories of compiles (good and refused), saves, loads (sound and damaged), executions, IR reads, destructions of engines and registries; every result must be that of the program and registry in force";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    World w(c);
    c.Desc("");
    int n = 30 + static_cast<int>(c.rng.Below(c.thorough ? 200 : 60));
    for (int i = 0; i < n; ++i) w.Step();
    // every engine once more, then the registries go first
    for (auto& e : w.engs) w.Run(*e);
    w.regs.clear();
    w.trees.clear();
    for (auto& e : w.engs) w.Run(*e);
    while (!w.engs.empty()) {
      w.engs.erase(w.engs.begin() + static_cast<long>(c.rng.Below(w.engs.size())));
      for (auto& e : w.engs) w.Run(*e);
    }
    uint64_t h = 0;
    for (auto& k : w.held)
      if (k) h = vr::Mix(h * 31 + static_cast<uint64_t>(k->kind) * 7 + k->shapes.size() + static_cast<uint64_t>(k->shapes[0]));
    c.Nontrivial(h + c.idx);
    c.Count("steps", static_cast<uint64_t>(n));
  });
}
