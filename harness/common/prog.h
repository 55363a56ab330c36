// Random programs: statements, scopes, when blocks, stores.
#pragma once
#include <set>
#include "gen.h"

namespace vj {
struct ProgOpt {
  int stmts = 6;
  int expr_depth = 2;
  int nest = 2;
  bool whens = true;
  bool lets = true;
  bool stores = true;
  std::string prefix = "v";  // variable names
};

struct ProgGen {
  Gen& g;
  ProgOpt o;
  std::set<std::string> consts;
  int next_store = 0;
  std::vector<std::pair<std::string, VT>> retired;  // names whose block has ended
  int whens = 0, assigns = 0, stores = 0;
  ProgGen(Gen& gen, ProgOpt opt) : g(gen), o(opt) {}

  bool Visible(const std::string& n) const {
    for (auto& v : g.vars)
      if (v.first == n) return true;
    return false;
  }
  std::string NewName() {
    if (!retired.empty() && g.r.P(.5)) {  // a name used before, in a block that has ended
      auto n = g.r.Pick(retired).first;
      if (!Visible(n)) return n;
    }
    for (;;) {
      size_t k = g.r.Below(32);
      std::string n = o.prefix + std::to_string(k);
      if (k >= 28) n = (k >= 30 ? "V" : "") + n + "_a_long_name_that_goes_on_and_on_for_" + std::to_string(k * 12345);
      if (!Visible(n)) return n;
    }
  }
  Stmt StoreS(P e) {
    ++stores;
    return {"", false, StoreN(next_store++, e)};
  }
  P E(VT t) { return g.Expr(t, static_cast<int>(g.r.Below(o.expr_depth + 1))); }

  Stmt One(int nest) {
    Rng& r = g.r;
    if (o.whens && nest > 0 && r.P(.3)) return WhenS(nest);
    if ((g.o.back || g.o.storev) && r.P(.1)) return {"", false, StoreVN(next_store++, E(VT::kI32))};
    if (o.stores && r.P(.35)) {
      if (r.P(.06)) {  // a variable holding the result of a void function
        P e = StoreS(E(g.AnyT())).e;
        std::string n = NewName();
        consts.erase(n);
        g.vars.emplace_back(n, VT::kVoid);
        return {n, false, e};
      }
      auto v = g.vars.empty() ? std::make_pair(std::string(), VT::kVoid) : r.Pick(g.vars);
      if (v.second != VT::kVoid && r.P(.6)) {
        return StoreS(RefN(v.first, v.second));
      }
      return StoreS(E(g.AnyT()));
    }
    std::vector<std::pair<std::string, VT>> mut;
    for (auto& v : g.vars)
      if (!consts.count(v.first)) mut.push_back(v);
    if (!mut.empty() && r.P(.5)) {
      auto v = r.Pick(mut);
      ++assigns;
      if (v.second == VT::kVoid) return {v.first, false, StoreS(E(g.AnyT())).e};
      return {v.first, false, E(v.second)};
    }
    if (g.o.effects && r.P(.15)) return {"", false, EffN(g.next_id++, E(g.AnyT()))};
    VT t = g.AnyT();
    P e = E(t);  // before the name is in scope
    std::string n = NewName();
    bool let = o.lets && r.P(.25);
    consts.erase(n);
    if (let) consts.insert(n);
    g.vars.emplace_back(n, t);
    return {n, let, e};
  }
  void Push(std::vector<Stmt>* b, Stmt s) {
    b->push_back(s);
    if (s.var.empty() && s.e->k != NK::When && g.r.P(.06)) b->push_back(s);  // the same statement twice
  }
  // blocks nested many levels deep, mostly entered
  Stmt Tower(int depth) {
    Rng& r = g.r;
    ++whens;
    P cond = r.P(.6) ? Const(static_cast<uint8_t>(1)) : r.P(.5) ? Bin(B::kOr, g.Cond(1), Const(static_cast<uint8_t>(1))) : g.Cond(1);
    size_t mark = g.vars.size();
    std::vector<Stmt> b;
    if (r.P(.5) || depth <= 1) Push(&b, One(0));
    if (depth > 1) b.push_back(Tower(depth - 1));
    if (r.P(.4) || depth <= 1) Push(&b, One(0));
    while (g.vars.size() > mark) {
      retired.push_back(g.vars.back());
      consts.erase(g.vars.back().first);
      g.vars.pop_back();
    }
    std::vector<P> ch{cond, Seq(std::move(b))};
    if (r.P(.2)) ch.push_back(Block(1, 0));
    return {"", false, When(std::move(ch))};
  }
  P Block(int n, int nest) {
    size_t mark = g.vars.size();
    std::vector<Stmt> b;
    for (int i = 0; i < n; ++i) Push(&b, One(nest));
    while (g.vars.size() > mark) {
      retired.push_back(g.vars.back());
      consts.erase(g.vars.back().first);
      g.vars.pop_back();
    }
    return Seq(std::move(b));
  }
  Stmt WhenS(int nest) {
    Rng& r = g.r;
    ++whens;
    size_t arms = 1 + (r.P(.5) ? r.Below(3) : r.P(.1) ? 3 + r.Below(5) : 0);
    std::vector<P> ch;
    for (size_t i = 0; i < arms; ++i) {
      ch.push_back(g.Cond(static_cast<int>(1 + r.Below(2))));
      ch.push_back(Block(static_cast<int>(1 + r.Below(3)), nest - 1));
    }
    if (r.P(.5)) ch.push_back(Block(static_cast<int>(1 + r.Below(3)), nest - 1));
    return {"", false, When(std::move(ch))};
  }
  // a pipeline that stores every variable visible at its end
  P Pipeline() {
    std::vector<Stmt> b;
    int tower = o.whens && o.nest > 0 && g.r.P(.05) ? static_cast<int>(g.r.Below(static_cast<size_t>(o.stmts))) : -1;
    for (int i = 0; i < o.stmts; ++i) {
      Push(&b, One(o.nest));
      if (i == tower) b.push_back(Tower(3 + static_cast<int>(g.r.Below(9))));
    }
    if (o.stores) {
      size_t k = 0;
      for (auto& v : g.vars)
        if (v.second != VT::kVoid) if (k++ < 8 || g.r.P(.3)) b.push_back(StoreS(RefN(v.first, v.second)));
      if (b.empty() || stores == 0) b.push_back(StoreS(g.Leaf(VT::kI32)));
    }
    return Seq(std::move(b));
  }
};

inline std::string SpotDiff(const std::vector<OutRec>& got, const std::vector<OutRec>& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return "first difference at store " + std::to_string(i) + "\ngot:\n" + Recs(got) + "expected:\n" + Recs(want);
}
}  // namespace vj
