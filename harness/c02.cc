// C02: laziness, exactly-once and order of side effects and run-time errors.
#include "common/big.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

struct Want {
  std::vector<RetType> in;
  RetType v;
  std::vector<Event> trace;
  std::vector<std::string> errors;
  std::vector<OutRec> stores;
};

static bool Eval(const P& e, const std::vector<RetType>& in, Want* w, Ctx& c) {
  Machine m;
  if (!Reference(e, in, &m, &w->v)) return false;
  w->in = in;
  w->trace = m.trace;
  w->errors = m.errors;
  w->stores = m.stores;
  c.Count("branches decided by the model", m.branches);
  return true;
}

static uint64_t Sig(const std::vector<Event>& t, const std::vector<std::string>& e) {
  uint64_t h = 17;
  for (auto& x : t) h = vr::Mix(h * 31 + static_cast<uint64_t>(x.id));
  for (auto& x : e) h = vr::Mix(h * 37 + vr::Hash(x));
  return h;
}

static void CheckStatus(Ctx& c, const Status& st, const std::vector<std::string>& errors, const std::string& where) {
  if (errors.empty()) {
    if (!st.ok()) c.Fail("status", where + "\nno selected operand reports an error, but: " + st.ToString());
  } else {
    std::string want = "Runtime Error: " + Joined(errors);
    if (st.ok()) c.Fail("status", where + "\nexpected " + want + ", got OK");
    if (st.ToString() != want) c.Fail("errors", where + "\nexpected " + want + "\ngot " + st.ToString());
  }
}

// a / d evaluated only where d is known to be non-zero
static P GuardedDiv(Gen& g, Rng& r, P a, P d) {
  const VT t = d->t;
  P q = Bin(r.P(.5) ? B::kDiv : B::kMod, a, d);
  P nz = Bin(B::kNotEqual, d, g.ConstInt(t, 0));
  P z = Bin(B::kEqual, d, g.ConstInt(t, 0));
  switch (r.Below(5)) {
    case 0: return If(nz, q, g.ConstInt(t, 7));
    case 1: return If(z, g.ConstInt(t, 3), q);
    case 2: return Bin(B::kAnd, nz, Bin(B::kLarge, q, g.ConstInt(t, 2)));
    case 3: return Bin(B::kOr, z, Bin(B::kLess, q, g.ConstInt(t, 2)));
    default: return Switch({z, g.ConstInt(t, 5), Bin(B::kLarge, a, g.ConstInt(t, 4)), q, g.ConstInt(t, 6)});
  }
}

static P GuardedDiv(Gen& g, Rng& r) {
  static const VT ts[] = {VT::kI32, VT::kU32, VT::kI64, VT::kU8, VT::kI16};
  VT t = ts[r.Below(5)];
  int32_t s1 = -1, s2 = -1;
  for (size_t i = 0; i < g.in.size(); ++i)
    if (g.in[i] == t) (s1 < 0 ? s1 : s2) = static_cast<int32_t>(i);
  if (s1 < 0) {
    g.in.push_back(t);
    s1 = static_cast<int32_t>(g.in.size()) - 1;
  }
  if (s2 < 0) {
    g.in.push_back(t);
    s2 = static_cast<int32_t>(g.in.size()) - 1;
  }
  return GuardedDiv(g, r, In(t, s1), In(t, s2));
}

static void Expressions(Ctx& c) {
  GenOpt o;
  o.effects = true;
  o.fails = c.rng.P(.6);
  o.floats = c.rng.P(.3);
  o.fns = c.rng.P(.5);
  Gen g(c.rng, o);
  g.MakeInputs(3 + c.rng.Below(3));
  g.in.push_back(VT::kI32);
  g.in.push_back(VT::kU8);
  std::vector<P> es;
  size_t n = 2 + c.rng.Below(3);
  for (size_t i = 0; i < n; ++i) {
    VT t = c.rng.P(.4) ? VT::kU8 : c.rng.P(.5) ? VT::kI32 : g.AnyT();
    P e = g.Expr(t, 3 + static_cast<int>(c.rng.Below(c.thorough ? 4 : 3)), t == VT::kU8);
    if (c.rng.P(.25)) {
      P d = EffN(g.next_id++, GuardedDiv(g, c.rng));
      if (IsInt(e->t)) e = Bin(B::kAdd, e, d);
      else e = If(Bin(B::kOr, d, Const(uint8_t(1))), e, e);
    }
    es.push_back(e);
  }
  bool strict = c.rng.P(.5);
  for (auto& e : es)
    if (HasFloat(e)) strict = true;
  std::string d = strict ? "strict\n" : "fast\n";
  std::vector<NodePtr> nodes;
  for (auto& e : es) {
    d += Dump(e) + "\n";
    nodes.push_back(Build(e));
  }
  c.Desc(d);
  BatchExecEngine eng(Opt(strict));
  Status st = eng.Compile(nodes, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", st.ToString());
  }
  for (size_t i = 0; i < es.size(); ++i) {
    ExecContext ctx(4096);
    int good = 0;
    for (int t = 0; t < 24 && good < 10; ++t) {
      Want w;
      if (!Eval(es[i], g.InValues(), &w, c)) continue;
      ++good;
      Inputs in(w.in);
      std::vector<Event> got;
      g_trace = &got;
      RetType v;
      st = eng.ExecuteAt(i, ctx, in.Ptr(), &v);
      g_trace = nullptr;
      std::string where = "entry " + std::to_string(i) + " " + Dump(es[i]) + " on\n" + Dump(w.in);
      if (!SameTrace(got, w.trace))
        c.Fail("trace", where + "expected effects" + Trace(w.trace) + "\ngot effects" + Trace(got));
      CheckStatus(c, st, w.errors, where);
      if (w.errors.empty() && !Same(v, w.v)) c.Fail("value", where + "got " + Show(v) + ", expected " + Show(w.v));
      c.Count("evaluations compared");
      c.Count("effects observed", got.size());
      c.Count("errors observed", w.errors.size());
      c.Nontrivial(vr::Mix(Shape(es[i])) ^ Sig(w.trace, w.errors));
    }
    if (i == 0 && good && g.size > 12) c.Sample(Dump(es[0]));
  }
}

static void Programs(Ctx& c) {
  GenOpt o;
  o.effects = true;
  o.fails = c.rng.P(.5);
  o.floats = false;
  o.lists = c.rng.P(.5);
  o.back = c.rng.P(.4);
  Gen g(c.rng, o);
  g.MakeInputs(3 + c.rng.Below(3));
  g.in.push_back(VT::kI32);
  g.in.push_back(VT::kU8);
  ProgOpt po;
  po.stmts = 3 + static_cast<int>(c.rng.Below(4));
  po.nest = 1 + static_cast<int>(c.rng.Below(3));
  ProgGen pg(g, po);
  bool big = c.rng.P(.12);
  BigGen bg(g, c.thorough ? 1000 : 120);
  P e = big ? bg.Make() : pg.Pipeline();
  if (big) c.Count("programs with one construct much larger than usual");
  if (!big && c.rng.P(.4)) {  // the operands of the guarded division are variables and constants, not calls
    Rng& r = c.rng;
    VT t = r.P(.5) ? VT::kI32 : VT::kU8;
    int32_t s[2] = {-1, -1};
    for (size_t i = 0; i < g.in.size(); ++i)
      if (g.in[i] == t) (s[0] < 0 ? s[0] : s[1]) = static_cast<int32_t>(i);
    for (auto& x : s)
      if (x < 0) {
        g.in.push_back(t);
        x = static_cast<int32_t>(g.in.size()) - 1;
      }
    e->body.push_back({"ga", r.P(.3), In(t, s[0])});
    e->body.push_back({"gd", false, In(t, s[1])});
    P a = r.P(.3) ? g.ConstInt(t, 9) : RefN("ga", t), d = RefN("gd", t);
    P q = GuardedDiv(g, r, a, d);
    if (r.P(.3)) {
      e->body.push_back({"gq", false, q});
      q = RefN("gq", q->t);
    }
    e->body.push_back({"", false, StoreN(9001, q)});
  }
  c.Desc(Dump(e));
  ExecEngine eng(Opt(c.rng.P(.5)));
  auto node = Build(e);
  Status st = eng.Compile(node, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", st.ToString());
  }
  ExecContext ctx(4096);
  int good = 0;
  for (int t = 0; t < 24 && good < 10; ++t) {
    Want w;
    if (!Eval(e, g.InValues(), &w, c)) continue;
    ++good;
    Inputs in(w.in);
    auto out = std::make_unique<Out>();
    std::vector<Event> got;
    g_trace = &got;
    st = eng.Execute(ctx, in.Ptr(), static_cast<void*>(out.get()));
    g_trace = nullptr;
    std::string where = "on\n" + Dump(w.in);
    if (!SameTrace(got, w.trace)) c.Fail("trace", where + "expected effects" + Trace(w.trace) + "\ngot effects" + Trace(got));
    CheckStatus(c, st, w.errors, where);
    if (!(Stored(*out) == w.stores)) c.Fail("stores", where + SpotDiff(Stored(*out), w.stores));
    c.Count("program runs compared");
    c.Count("effects observed", got.size());
    c.Count("errors observed", w.errors.size());
    c.Nontrivial(vr::Mix(Shape(e)) ^ Sig(w.trace, w.errors));
  }
  if (pg.whens > 1) c.Sample(Dump(e));
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C02";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 18;
  p.thorough_secs = 600;
  p.rule = "random expression trees and pipeline programs whose operands log their evaluation or report errors, executed on inputs that steer the branches; distinct = program shape and order of observed effects and errors";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    if (c.idx % 3 == 2) Programs(c);
    else Expressions(c);
  });
}
