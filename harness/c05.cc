// C05: compiling pipelines together performs the stores each performs alone.
#include <map>
#include "common/mutate.h"
#include "common/big.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

// give every store and effect of a copied pipeline ids of its own
static void Renumber(P& n, int32_t* store, int32_t* eff) {
  if (n->k == NK::Store) n->id = (*store)++;
  if (n->k == NK::Eff || n->k == NK::Fail) n->id = (*eff)++;
  for (auto& c : n->ch) Renumber(c, store, eff);
  for (auto& s : n->body) Renumber(s.e, store, eff);
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C05";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 20;
  p.thorough_secs = 600;
  p.rule = "lists of 1 to 8 random pipelines that share variable names, whole statements and sub-expressions, executed together; per pipeline the ordered stores, effects and errors equal those of the pipeline run alone; distinct = list of shapes and observed stores";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    GenOpt o;
    o.dsl = true;
    o.floats = c.rng.P(.3);
    o.effects = c.rng.P(.5);
    o.fails = c.rng.P(.3);
    o.storev = c.rng.P(.4);
    Gen g(c.rng, o);
    g.MakeInputs(3 + c.rng.Below(3));
    g.in.push_back(VT::kI32);
    size_t n = c.rng.P(.1) ? 1 : 2 + c.rng.Below(c.thorough ? 11 : 7);
    bool rename = c.rng.P(.3);  // disjoint names in some cases
    std::vector<P> ps;
    std::vector<Stmt> pool;  // closed definitions reused by several pipelines: v = expr of inputs only
    for (int i = 0; i < 4; ++i) {
      VT t = g.AnyT();
      pool.push_back({"s" + std::to_string(i), c.rng.P(.2), g.Expr(t, 2)});
    }
    for (size_t i = 0; i < n; ++i) {
      P e;
      if (!ps.empty() && c.rng.P(.3)) {
        e = CloneP(c.rng.Pick(ps));  // a twin of an earlier pipeline
      } else {
        ProgOpt po;
        po.stmts = 1 + static_cast<int>(c.rng.Below(6));
        po.nest = static_cast<int>(c.rng.Below(3));
        if (rename) po.prefix = std::string(1, static_cast<char>('a' + i)) + "v";
        g.vars.clear();
        ProgGen pg(g, po);
        std::vector<Stmt> head;
        for (auto& s : pool)
          if (c.rng.P(.5)) {
            head.push_back(s);
            g.vars.emplace_back(s.var, s.e->t);
            if (s.let) pg.consts.insert(s.var);
          }
        e = n < 6 && c.rng.P(.04) ? BigGen(g, 100).Make() : pg.Pipeline();
        e = CloneP(e);
        for (auto& s : head) s.e = CloneP(s.e);
        e->body.insert(e->body.begin(), head.begin(), head.end());
      }
      int32_t st = static_cast<int32_t>(i + 1) * 1000, ef = st;
      Renumber(e, &st, &ef);
      ps.push_back(e);
    }
    size_t dup = n;  // one pipeline listed twice, word for word
    if (c.rng.P(.15)) {
      dup = c.rng.Below(n);
      ps.push_back(ps[dup]);
    }
    std::vector<std::string> texts;
    std::string d;
    PrintOpt po;
    po.r = &c.rng;
    for (auto& e : ps) {
      po.noise = c.rng.P(.1);
      texts.push_back(Text(e, po));
      d += texts.back() + "\n---\n";
    }
    c.Desc(d);
    bool flt = false;
    for (auto& e : ps) flt |= HasFloat(e);
    athena::AthenaPipeline pl(Opt(flt || c.rng.P(.5)));
    Status st = pl.Compile(texts, Reg());
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", "each pipeline is valid, the list is refused: " + st.ToString());
    }
    ExecContext ctx(4096);
    int good = 0;
    for (int t = 0; t < 16 && good < 6; ++t) {
      auto vals = g.InValues();
      std::vector<Machine> m(ps.size());
      bool ok = true;
      size_t total = 0;
      for (size_t i = 0; i < ps.size() && ok; ++i) {
        RetType v;
        ok = Reference(ps[i], vals, &m[i], &v);
        total += m[i].stores.size();
      }
      if (!ok || total > 500) continue;
      ++good;
      Inputs in(vals);
      auto out = std::make_unique<Out>();
      std::vector<Event> tr;
      g_trace = &tr;
      st = pl.Execute(ctx, in.Ptr(), static_cast<void*>(out.get()));
      g_trace = nullptr;
      if (out->n != total)
        c.Fail("count", "the pipelines perform " + std::to_string(total) + " stores alone, " + std::to_string(out->n) +
                            " together, on\n" + Dump(vals));
      std::map<int32_t, std::vector<OutRec>> by;
      std::map<int32_t, std::vector<Event>> ev;
      for (auto& r : Stored(*out)) by[r.id / 1000].push_back(r);
      for (auto& e : tr) ev[e.id / 1000].push_back(e);
      std::string err = st.ok() ? "" : st.ToString();
      for (size_t i = 0; i < n; ++i) {
        int32_t k = static_cast<int32_t>(i + 1);
        std::vector<OutRec> want = m[i].stores, got = by[k];
        std::vector<Event> wt = m[i].trace, gt = ev[k];
        if (i == dup) {
          if (got.size() != 2 * want.size() || gt.size() != 2 * wt.size())
            c.Fail("duplicate", "pipeline " + std::to_string(i) + " is listed twice but ran " + std::to_string(got.size()) +
                                    " stores instead of 2x" + std::to_string(want.size()) + " on\n" + Dump(vals));
          for (auto& w : want) {
            long a = std::count_if(got.begin(), got.end(), [&](const OutRec& x) { return x == w; });
            if (a != 2) c.Fail("duplicate", "a store of a pipeline listed twice ran " + std::to_string(a) + " times\n" + Recs({w}) + "on\n" + Dump(vals));
          }
        } else {
          if (!(got == want)) c.Fail("stores", "pipeline " + std::to_string(i) + " on\n" + Dump(vals) + SpotDiff(got, want));
          if (!SameTrace(gt, wt))
            c.Fail("trace", "pipeline " + std::to_string(i) + " on\n" + Dump(vals) + "expected effects" + Trace(wt) + "\ngot" + Trace(gt));
        }
        for (auto& e : m[i].errors) {
          size_t pos = err.find(e);
          bool whole = false;
          for (; pos != std::string::npos && !whole; pos = err.find(e, pos + 1))
            whole = pos + e.size() == err.size() || !isdigit(err[pos + e.size()]);
          if (!whole) c.Fail("errors", "error " + e + " of pipeline " + std::to_string(i) + " is not reported: " + err);
        }
        c.Count("pipelines compared");
        c.Count("stores compared", got.size());
        c.Count("effects compared", gt.size());
        c.Count("errors expected", m[i].errors.size());
        if (by[k].size()) c.Nontrivial(Shape(ps[i]) * 31 + n + static_cast<uint64_t>(got[0].hash) + HashBytes(got[0].raw, 16));
      }
      size_t ne = 0, seen = 0;
      for (auto& x : m) ne += x.errors.size();
      for (size_t pos = err.find("err"); pos != std::string::npos; pos = err.find("err", pos + 3)) ++seen;
      if (ne != seen) c.Fail("errors", "expected " + std::to_string(ne) + " reported errors, got " + std::to_string(seen) + ": " + err);
      if ((ne == 0) != st.ok()) c.Fail("status", "expected " + std::to_string(ne) + " errors, status " + st.ToString());
      if (!in.Intact()) c.Fail("input-modified", Dump(vals));
      c.Count("executions of a list");
    }
    c.Count("lists of " + std::to_string(ps.size()) + " pipelines");
    if (n > 2 && d.size() < 1200) c.Sample(d);
  });
}
