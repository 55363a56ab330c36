// C03: pipeline programs store what sequential execution stores.
#include "common/big.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

struct Run {
  std::vector<RetType> in;
  std::vector<OutRec> want;
};

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C03";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 18;
  p.thorough_secs = 600;
  p.rule = "random pipeline programs (assignments, let, stores of every type, nested when/elif/else with shadow-free local names reused across blocks), compiled both as a tree and from text, stores compared with a sequential interpreter; distinct = program shape and stored values";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    GenOpt o;
    o.floats = c.rng.P(.4);
    o.lists = c.rng.P(.6);
    o.dsl = true;
    o.branches = c.rng.P(.7);
    o.back = c.rng.P(.4);
    Gen g(c.rng, o);
    g.MakeInputs(3 + c.rng.Below(4));
    g.in.push_back(VT::kI32);
    ProgOpt po;
    bool big = c.idx % 23 == 0;
    po.stmts = big ? 40 : 3 + static_cast<int>(c.rng.Below(c.thorough ? 16 : 9));
    po.nest = static_cast<int>(c.rng.Below(4));
    po.expr_depth = c.rng.P(.6) ? 1 : 3;
    ProgGen pg(g, po);
    BigGen bg(g, c.thorough ? 4000 : 160);
    bool large = c.idx / 8 % 9 == 4;
    if (large) g.o.effects = c.rng.P(.5);
    P e = large ? bg.Make() : pg.Pipeline();
    if (large) c.Count("programs with one construct much larger than usual");
    std::string text = Text(e, {});
    c.Desc(text);
    std::vector<Run> runs;
    for (int t = 0; t < 20 && runs.size() < 8; ++t) {
      Run r;
      r.in = g.InValues();
      Machine m;
      RetType v;
      if (!Reference(e, r.in, &m, &v)) {
        c.Count("inputs outside the documented domain");
        continue;
      }
      r.want = m.stores;
      if (m.stores.size() > 500) continue;
      runs.push_back(r);
      c.Count("when blocks and branches decided by the model", m.branches);
    }
    if (runs.empty()) return;
    bool strict = HasFloat(e) || c.rng.P(.5);
    auto run = [&](const std::string& how, auto&& exec) {
      ExecContext ctx(c.rng.P(.5) ? 64 : 4096);
      for (auto& r : runs) {
        Inputs in(r.in);
        auto out = std::make_unique<Out>();
        Status st = c.rng.P(.8) ? exec(&ctx, in.Ptr(), out.get()) : exec(nullptr, in.Ptr(), out.get());
        if (!st.ok()) c.Fail("status", how + ": " + st.ToString() + " on\n" + Dump(r.in));
        auto got = Stored(*out);
        if (!(got == r.want)) c.Fail("stores", how + " on\n" + Dump(r.in) + SpotDiff(got, r.want));
        if (!in.Intact()) c.Fail("input-modified", how + " on\n" + Dump(r.in));
        c.Count("program runs compared");
        c.Count("stores compared", got.size());
        uint64_t h = Shape(e);
        for (auto& x : got) h = vr::Mix(h ^ x.hash ^ HashBytes(x.raw, 16));
        c.Nontrivial(h);
      }
    };
    bool both = c.rng.P(.3), tree = c.rng.P(.5);
    if (both || tree) {
      ExecEngine eng(Opt(strict));
      auto node = Build(e);
      Status st = eng.Compile(node, Reg());
      if (!st.ok()) {
        if (Contains(st.ToString(), "constant zero")) return;
        c.Fail("refused", "as a tree: " + st.ToString());
      }
      run("as a tree", [&](ExecContext* ctx, void* in, void* out) { return ctx ? eng.Execute(*ctx, in, out) : eng.Execute(in, out); });
    }
    if (both || !tree) {
      athena::AthenaPipeline pl(Opt(strict));
      Status st = pl.Compile({text}, Reg());
      if (!st.ok()) {
        if (Contains(st.ToString(), "constant zero")) return;
        c.Fail("refused", "from text: " + st.ToString());
      }
      run("from text", [&](ExecContext* ctx, void* in, void* out) { return ctx ? pl.Execute(*ctx, in, out) : pl.Execute(in, out); });
    }
    c.Count("when blocks", pg.whens);
    c.Count("re-assignments", pg.assigns);
    if (pg.whens > 1 && text.size() < 1200) c.Sample(text);
  });
}
