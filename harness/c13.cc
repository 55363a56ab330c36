// C13: a batch engine behaves like one engine per expression.
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

struct Entry {
  P e;
  bool is_void = false;
  std::unique_ptr<ExecEngine> single;
};
struct Obs {
  Status st;
  RetType v;
  std::vector<Event> trace;
  std::vector<OutRec> stores;
};

static void Hist(Ctx& c) {  // before compilation and after a refused compilation
  BatchExecEngine e;
  RetType v;
  std::vector<RetType> vs(3);
  Out out;
  ExecContext ctx(64);
  auto all_fail = [&](const char* when) {
    for (size_t i : {size_t(0), size_t(1), size_t(-1), size_t(1) << 40}) {
      if (e.ExecuteAt(i, nullptr, &v).ok()) c.Fail("uncompiled", std::string("ExecuteAt succeeds ") + when);
      if (e.ExecuteAt(i, ctx, nullptr, &v).ok()) c.Fail("uncompiled", std::string("ExecuteAt(ctx) succeeds ") + when);
      if (e.ExecuteAt(i, nullptr, static_cast<void*>(&out)).ok()) c.Fail("uncompiled", std::string("ExecuteAt(void*) succeeds ") + when);
      if (e.ExecuteAt(i, ctx, nullptr, static_cast<void*>(&out)).ok()) c.Fail("uncompiled", std::string("ExecuteAt(ctx, void*) succeeds ") + when);
    }
    if (e.ExecuteAll(nullptr, &vs).ok()) c.Fail("uncompiled", std::string("ExecuteAll succeeds ") + when);
    if (e.ExecuteAll(ctx, nullptr, &vs).ok()) c.Fail("uncompiled", std::string("ExecuteAll(ctx) succeeds ") + when);
    if (e.ExecuteAll(nullptr, static_cast<void*>(&out)).ok()) c.Fail("uncompiled", std::string("ExecuteAll(void*) succeeds ") + when);
    if (e.ExecuteAll(ctx, nullptr, static_cast<void*>(&out)).ok()) c.Fail("uncompiled", std::string("ExecuteAll(ctx, void*) succeeds ") + when);
    c.Count("calls refused before compilation", 20);
  };
  if (e.GetFunctionCount() != 0) c.Fail("count", "a fresh engine has functions");
  all_fail("on a fresh engine");
  std::vector<NodePtr> none;
  if (e.Compile(none, Reg()).ok()) c.Fail("accepted", "an empty list compiles");
  all_fail("after an empty compile");
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C13";
  p.quick_cases = 100000;
  p.thorough_cases = 3000000;
  p.quick_secs = 20;
  p.thorough_secs = 500;
  p.rule = "batches of 1 to 12 random expressions and statement lists of mixed types, duplicates included, each compared entry by entry with an engine of its own on the same inputs; distinct = batch shape and observed results";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    Rng& r = c.rng;
    if (c.idx % 97 == 0) Hist(c);
    GenOpt o;
    o.effects = true;
    o.fails = r.P(.5);
    o.floats = r.P(.6);
    o.nan = r.P(.3);
    Gen g(r, o);
    g.MakeInputs(3 + r.Below(3));
    g.in.push_back(VT::kI32);
    int kind = static_cast<int>(r.Below(4));  // 0: all void, else values (and a few voids)
    size_t n = 1 + (r.P(.06) ? 9 + r.Below(24) : r.Below(c.thorough ? 24 : 8));
    bool often = o.fails && kind && r.P(.2);
    if (often && r.P(.6)) n = 12 + r.Below(40);
    std::vector<Entry> es(n);
    std::string d;
    bool strict = r.P(.7);
    std::vector<NodePtr> nodes;
    for (size_t i = 0; i < n; ++i) {
      Entry& x = es[i];
      if (i && r.P(.15)) {
        size_t k = r.Below(i);
        x.e = es[k].e;
        x.is_void = es[k].is_void;
      } else if (kind == 0) {
        g.vars.clear();
        ProgOpt po;
        po.stmts = 1 + static_cast<int>(r.Below(4));
        po.nest = 1;
        ProgGen pg(g, po);
        pg.next_store = static_cast<int>(i) * 100;
        x.e = pg.Pipeline();
        x.is_void = true;
      } else {
        g.vars.clear();
        VT t = g.AnyT();  // every type of result often enough
        if (r.P(.4)) t = r.P(.5) ? r.Pick(kLists) : r.Pick(kNums);
        x.e = g.Expr(t, static_cast<int>(r.Below(n > 8 ? 2 : 4)));
        if (r.P(.1)) x.e = Const(g.Value(g.AnyT()));
        if (often && r.P(.6)) {  // an entry that nearly always reports an error, perhaps several
          x.e = FailN(g.next_id++, In(VT::kI32, static_cast<int32_t>(g.in.size() - 1)));
          if (r.P(.3)) x.e = Bin(B::kBitwiseXor, x.e, FailN(g.next_id++, Bin(B::kBitwiseOr, In(VT::kI32, static_cast<int32_t>(g.in.size() - 1)), Const(static_cast<int32_t>(4)))));
        }
      }
      d += "[" + std::to_string(i) + "] " + Dump(x.e) + "\n";
      nodes.push_back(Build(x.e));
    }
    c.Desc(std::string(strict ? "strict\n" : "fast\n") + d);
    BatchExecEngine b(Opt(strict));
    Status st = b.Compile(nodes, Reg());
    bool zero = false;
    for (size_t i = 0; i < n; ++i) {
      es[i].single = std::make_unique<ExecEngine>(Opt(strict));
      auto node = Build(es[i].e);
      Status s1 = es[i].single->Compile(node, Reg());
      if (!s1.ok()) {
        if (!Contains(s1.ToString(), "constant zero")) c.Fail("refused", "alone: " + s1.ToString());
        zero = true;
      }
    }
    if (zero) {
      if (st.ok()) c.Fail("accepted", "the batch compiles although one entry alone is refused");
      RetType v;
      if (b.ExecuteAt(0, nullptr, &v).ok()) c.Fail("stale", "a refused batch executes");
      c.Count("batches refused because of one entry");
      return;
    }
    if (!st.ok()) c.Fail("refused", "every entry compiles alone, the batch is refused: " + st.ToString());
    if (b.GetFunctionCount() != n) c.Fail("count", "GetFunctionCount is " + std::to_string(b.GetFunctionCount()) + " for " + std::to_string(n));
    for (size_t i = 0; i < n; ++i)
      if (b.GetReturnType(i) != (es[i].is_void ? VT::kVoid : es[i].e->t))
        c.Fail("type", "entry " + std::to_string(i) + " has type " + Name(b.GetReturnType(i)));
    // with floats in fast mode a batch may legitimately round differently: compare those approximately only in strict mode
    ExecContext ctx(r.P(.5) ? 16 : 4096);
    auto at = [&](auto&& f) {
      Obs x;
      auto out = std::make_unique<Out>();
      g_trace = &x.trace;
      x.st = f(&x.v, out.get());
      g_trace = nullptr;
      x.stores = Stored(*out);
      return x;
    };
    auto same = [&](const Obs& a, const Obs& w, size_t i, const std::string& where) {
      if (a.st.ToString() != w.st.ToString())
        c.Fail("status", where + ": batch " + a.st.ToString() + "\nsingle " + w.st.ToString());
      bool flt = HasFloat(es[i].e) && !strict;
      if (!flt && w.st.ok() && !es[i].is_void && !Same(a.v, w.v))
        c.Fail("value", where + ": batch " + Show(a.v) + "\nsingle " + Show(w.v));
      if (!flt && !SameTrace(a.trace, w.trace)) c.Fail("trace", where + ": batch" + Trace(a.trace) + "\nsingle" + Trace(w.trace));
      if (!flt && !(a.stores == w.stores)) c.Fail("stores", where + SpotDiff(a.stores, w.stores));
    };
    for (int round = 0; round < 5; ++round) {
      auto vals = g.InValues();
      Inputs in(vals);
      std::string on = " on\n" + Dump(vals);
      std::vector<Obs> w(n);
      bool undef = false;
      for (size_t i = 0; i < n && !undef; ++i) {  // stay inside the documented domain
        Machine m;
        RetType v;
        undef = !Reference(es[i].e, vals, &m, &v);
      }
      if (undef) continue;
      for (size_t i = 0; i < n; ++i)
        w[i] = at([&](RetType* v, Out* out) {
          return es[i].is_void ? es[i].single->Execute(in.Ptr(), static_cast<void*>(out)) : es[i].single->Execute(in.Ptr(), v);
        });
      std::vector<size_t> order(n);
      for (size_t i = 0; i < n; ++i) order[i] = i;
      for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.Below(i)]);
      for (size_t i : order) {
        bool use = r.P(.5);
        Obs a = at([&](RetType* v, Out* out) {
          void* o = out;
          if (es[i].is_void) return use ? b.ExecuteAt(i, ctx, in.Ptr(), o) : b.ExecuteAt(i, in.Ptr(), o);
          return use ? b.ExecuteAt(i, ctx, in.Ptr(), v) : b.ExecuteAt(i, in.Ptr(), v);
        });
        same(a, w[i], i, "ExecuteAt(" + std::to_string(i) + ")" + on);
        c.Count("entries compared");
        c.Nontrivial(Shape(es[i].e) + 131 * n + vr::Hash(Show(a.v)));
      }
      // all of them
      std::string want;
      std::vector<Event> wt;
      std::vector<OutRec> ws;
      for (size_t i = 0; i < n; ++i) {
        wt.insert(wt.end(), w[i].trace.begin(), w[i].trace.end());
        ws.insert(ws.end(), w[i].stores.begin(), w[i].stores.end());
      }
      if (ws.size() > 512) continue;
      std::vector<RetType> res(r.Below(20), RetType(std::string("old")));
      bool use = r.P(.5);
      Obs a = at([&](RetType*, Out* out) {
        if (kind == 0) return use ? b.ExecuteAll(ctx, in.Ptr(), static_cast<void*>(out)) : b.ExecuteAll(in.Ptr(), static_cast<void*>(out));
        return use ? b.ExecuteAll(ctx, in.Ptr(), &res) : b.ExecuteAll(in.Ptr(), &res);
      });
      bool flt = false;
      for (auto& x : es) flt |= HasFloat(x.e);
      flt &= !strict;
      if (!flt && !SameTrace(a.trace, wt)) c.Fail("all-order", "ExecuteAll" + on + "effects" + Trace(a.trace) + "\nexpected" + Trace(wt));
      if (!flt && !(a.stores == ws)) c.Fail("all-stores", "ExecuteAll" + on + SpotDiff(a.stores, ws));
      bool any = false;
      size_t pos = 0;
      for (size_t i = 0; i < n; ++i) {
        if (w[i].st.ok()) continue;
        any = true;
        std::string msg = w[i].st.ToString();
        std::string all = a.st.ToString();
        size_t f = all.find(msg, pos);
        if (f == std::string::npos) c.Fail("all-errors", "ExecuteAll" + on + "does not report (in order) entry " + std::to_string(i) + "'s " + msg + "\ngot " + all);
        pos = f + msg.size();
      }
      if (any == a.st.ok()) c.Fail("all-status", "ExecuteAll" + on + a.st.ToString());
      if (kind != 0) {
        if (res.size() != n) c.Fail("all-count", "ExecuteAll returns " + std::to_string(res.size()) + " results for " + std::to_string(n));
        for (size_t i = 0; i < n; ++i)
          if (w[i].st.ok() && !(HasFloat(es[i].e) && !strict) && !Same(res[i], w[i].v))
            c.Fail("all-value", "ExecuteAll" + on + "entry " + std::to_string(i) + " gives " + Show(res[i]) + ", alone " + Show(w[i].v));
      }
      c.Count(any ? "ExecuteAll runs with failing entries" : "ExecuteAll runs");
      // out of range
      RetType v(std::string("untouched"));
      for (size_t i : {n, n + 1, size_t(-1), n + (size_t(1) << 32), size_t(1) << 32, (size_t(1) << 32) + n - 1, size_t(1) << 63, (size_t(0xffff) << 32) + n / 2}) {
        if (b.ExecuteAt(i, in.Ptr(), &v).ok() || b.ExecuteAt(i, ctx, in.Ptr(), &v).ok() ||
            b.ExecuteAt(i, in.Ptr(), static_cast<void*>(nullptr)).ok() || b.ExecuteAt(i, ctx, in.Ptr(), static_cast<void*>(nullptr)).ok())
          c.Fail("range", "index " + std::to_string(i) + " of " + std::to_string(n) + " is accepted");
        c.Count("indexes out of range refused", 4);
      }
    }
    if (n > 2) c.Sample(d);
  });
}
