// Pipelines in which one construct is much larger than programs usually have: many arguments, arms, statements, names,
// elements or levels.
#pragma once
#include "prog.h"

namespace vj {
struct BigGen {
  Gen& g;
  size_t most;          // upper limit of the size
  int next_store = 0;
  std::string what;
  BigGen(Gen& gen, size_t limit) : g(gen), most(limit) {}

  size_t Size(size_t lo, size_t hi) {
    hi = std::max(lo + 1, std::min(hi, most));
    double f = g.r.Below(1 << 20) / double(1 << 20);
    return lo + static_cast<size_t>((hi - lo) * f * f + .5);
  }
  P Sel(size_t n) {  // a number of 0 .. n or a little more, from the input
    size_t m = 1;
    while (m < n) m *= 2;
    size_t slot = 0;
    while (slot < g.in.size() && g.in[slot] != VT::kI32) ++slot;
    if (slot == g.in.size()) g.in.push_back(VT::kI32);
    return Bin(B::kBitwiseAnd, In(VT::kI32, static_cast<int32_t>(slot)), Const(static_cast<int32_t>(m - 1)));
  }
  P Small(size_t i) {
    Rng& r = g.r;
    switch (r.Below(5)) {
      case 0: return Sel(8);
      case 1: return Bin(B::kAdd, Sel(4), Const(static_cast<int32_t>(i)));
      case 2: return g.o.effects ? EffN(g.next_id++, Const(static_cast<int32_t>(i * 3 + 1))) : Const(static_cast<int32_t>(i * 3 + 1));
      default: return Const(static_cast<int32_t>(i * 7 + r.Below(7)));
    }
  }
  P Test(const P& sel, size_t i) {
    P e = Bin(g.r.P(.9) ? B::kEqual : B::kLessEqual, sel, Const(static_cast<int32_t>(i)));
    return g.o.effects && g.r.P(.5) ? EffN(g.next_id++, e) : e;
  }
  Stmt StoreS(P e) { return {"", false, StoreN(next_store++, e)}; }
  P Make() {
    Rng& r = g.r;
    std::vector<Stmt> b;
    if (r.P(.5)) b.push_back(StoreS(g.Expr(g.AnyT(), 1)));
    switch (r.Below(10)) {
      case 0: {
        static const size_t arity[] = {16, 33, 66, 129};
        size_t n = arity[r.Below(4)];
        what = "a call with " + std::to_string(n) + " arguments";
        std::vector<P> a;
        for (size_t i = 0; i < n; ++i) a.push_back(Small(i));
        b.push_back(StoreS(Fn("mix", std::move(a), VT::kI32, [](const std::vector<RetType>& v) -> RetType {
          int32_t h = 17;
          for (auto& x : v) h = MixStep(h, std::get<int32_t>(x));
          return h;
        })));
        break;
      }
      case 1: {
        size_t n = Size(10, 150);
        what = "a switch with " + std::to_string(n) + " cases";
        P sel = Sel(n);
        std::vector<P> ch;
        for (size_t i = 0; i < n; ++i) ch.push_back(Test(sel, i)), ch.push_back(Small(i));
        ch.push_back(Small(n));
        b.push_back(StoreS(Switch(ch)));
        break;
      }
      case 2: {
        size_t n = Size(8, 120);
        what = "a when with " + std::to_string(n) + " arms";
        P sel = Sel(n);
        b.push_back({"w", false, Const(static_cast<int32_t>(-1))});
        std::vector<P> ch;
        for (size_t i = 0; i < n; ++i) {
          ch.push_back(Test(sel, i));
          std::vector<Stmt> a;
          if (r.P(.5)) a.push_back(StoreS(Small(i)));
          if (r.P(.7) || a.empty()) a.push_back({"w", false, Small(i)});
          ch.push_back(Seq(std::move(a)));
        }
        if (r.P(.5)) ch.push_back(Seq({StoreS(Small(n))}));
        b.push_back({"", false, When(std::move(ch))});
        b.push_back(StoreS(RefN("w", VT::kI32)));
        break;
      }
      case 3: {
        size_t n = Size(20, 200);
        what = "a block of " + std::to_string(n) + " statements";
        b.push_back({"a", false, Small(0)});
        b.push_back({"z", false, Small(1)});
        std::vector<Stmt> s;
        for (size_t i = 0; i < n; ++i) {
          switch (r.Below(5)) {
            case 0: s.push_back(StoreS(RefN(r.P(.5) ? "a" : "z", VT::kI32))); break;
            case 1: s.push_back({"l" + std::to_string(i), r.P(.3), Small(i)}); break;
            default: s.push_back({r.P(.5) ? "a" : "z", false, Bin(r.P(.5) ? B::kBitwiseXor : B::kBitwiseOr, RefN(r.P(.5) ? "a" : "z", VT::kI32), Small(i))});
          }
        }
        b.push_back({"", false, When({Bin(B::kLarge, Sel(8), Const(static_cast<int32_t>(1))), Seq(std::move(s))})});
        b.push_back(StoreS(RefN("a", VT::kI32)));
        b.push_back(StoreS(RefN("z", VT::kI32)));
        break;
      }
      case 4: {
        size_t n = Size(30, 200);
        what = "a chain of " + std::to_string(n) + " operators";
        bool logic = r.P(.4), right = r.P(.3);
        P sel = Sel(n), e = logic ? Test(sel, 0) : Small(0);
        bool land = r.P(.5);
        for (size_t i = 1; i < n; ++i) {
          P x = logic ? (land ? Bin(B::kNotEqual, Small(i), sel) : Test(sel, i)) : Small(i);
          if (logic && g.o.effects && r.P(.3)) x = EffN(g.next_id++, x);
          B op = logic ? (land ? B::kAnd : B::kOr) : r.P(.5) ? B::kBitwiseXor : r.P(.5) ? B::kBitwiseOr : B::kBitwiseAnd;
          e = right ? Bin(op, x, e) : Bin(op, e, x);
        }
        b.push_back(StoreS(e));
        break;
      }
      case 5: {
        size_t n = Size(30, 150);
        what = std::to_string(n) + " names";
        std::vector<std::string> names, open;
        for (size_t i = 0; i < n; ++i) {
          bool re = !open.empty() && r.P(.3);
          P x = names.empty() || r.P(.3) ? Small(i) : Bin(B::kBitwiseXor, RefN(r.Pick(names), VT::kI32), Small(i));
          if (re) {
            b.push_back({r.Pick(open), false, x});
          } else {
            std::string nm = "n" + std::to_string(i);
            bool let = r.P(.3);
            b.push_back({nm, let, x});
            names.push_back(nm);
            if (!let) open.push_back(nm);
          }
          if (r.P(.1)) b.push_back(StoreS(RefN(r.Pick(names), VT::kI32)));
        }
        for (int i = 0; i < 12; ++i) b.push_back(StoreS(RefN(r.Pick(names), VT::kI32)));
        break;
      }
      case 6: {
        VT t = r.Pick(kLists);
        size_t n = t == VT::kStringList ? Size(60, 400) : Size(200, 1500);
        if (t != VT::kStringList && most > 100) n = std::max<size_t>(n, 200 + r.Below(1200));
        what = "a list of " + std::to_string(n) + " constants";
        RetType v = RandList(r, t, n, 2);
        if (t == VT::kStringList)
          for (auto& x : std::get<std::vector<std::string>>(v))
            for (auto& ch : x) ch = "abcAB 01"[static_cast<unsigned char>(ch) % 8];
        std::visit([](auto& x) {  // a list literal has no signs
          using T = std::decay_t<decltype(x)>;
          if constexpr (!std::is_arithmetic_v<T> && !std::is_same_v<T, std::string> && !std::is_same_v<T, std::vector<std::string>>)
            for (auto& y : x) {
              if (std::is_floating_point_v<typename T::value_type> && !std::isfinite(static_cast<double>(y))) y = 1;
              if (std::signbit(static_cast<double>(y))) y = y == std::numeric_limits<typename T::value_type>::lowest() ? 0 : static_cast<typename T::value_type>(-y);
            }
        }, v);
        b.push_back(StoreS(Const(v)));
        break;
      }
      case 7: {
        size_t n = Size(10, 45);
        what = "blocks nested " + std::to_string(n) + " deep";
        b.push_back({"o", false, Small(0)});
        P sel = Sel(8);
        std::function<Stmt(size_t)> Nest = [&](size_t d) -> Stmt {
          std::vector<Stmt> s;
          std::string nm = "d" + std::to_string(d);
          s.push_back({nm, false, Small(d)});
          if (r.P(.5)) s.push_back({"o", false, Bin(B::kBitwiseXor, RefN("o", VT::kI32), RefN(nm, VT::kI32))});
          if (d < n) s.push_back(Nest(d + 1));
          if (r.P(.3)) s.push_back(StoreS(Bin(B::kBitwiseXor, RefN("o", VT::kI32), RefN(nm, VT::kI32))));
          std::vector<P> ch{d + 2 < n || r.P(.5) ? Bin(B::kNotEqual, sel, Const(static_cast<int32_t>(d % 9))) : Const(static_cast<uint8_t>(1)), Seq(std::move(s))};
          if (r.P(.3)) ch.push_back(Seq({{"o", false, Small(d)}}));
          return {"", false, When(std::move(ch))};
        };
        b.push_back(Nest(1));
        b.push_back(StoreS(RefN("o", VT::kI32)));
        break;
      }
      case 8: {
        size_t n = Size(15, 80);
        what = "choices nested " + std::to_string(n) + " deep";
        P sel = Sel(n), e = Small(n);
        for (size_t i = n; i-- > 0;) {
          P x = Small(i), t = Test(sel, i);
          switch (r.Below(4)) {
            case 0: e = Switch({t, x, e}); break;
            case 1: e = If(Un(U::kNot, t), e, x); break;
            default: e = If(t, x, e);
          }
        }
        b.push_back(StoreS(e));
        break;
      }
      default: {
        size_t n = Size(200, 4000);
        what = "names of " + std::to_string(n) + " characters";
        std::string nm(n, 'q');
        for (auto& ch : nm) ch = "abcdefXYZ_019"[r.Below(13)];
        nm[0] = 'k';
        std::string other = nm;
        size_t at = r.P(.5) ? n - 1 : 1 + r.Below(n - 1);
        other[at] = other[at] == 'a' ? 'b' : 'a';
        b.push_back({nm, r.P(.3), Small(1)});
        b.push_back({other, false, Small(2)});
        b.push_back({"c", false, Bin(B::kSub, RefN(nm, VT::kI32), RefN(other, VT::kI32))});
        b.push_back(StoreS(RefN(nm, VT::kI32)));
        b.push_back(StoreS(RefN(other, VT::kI32)));
        b.push_back(StoreS(RefN("c", VT::kI32)));
      }
    }
    if (r.P(.5)) b.push_back(StoreS(g.Expr(g.AnyT(), 1)));
    return Seq(std::move(b));
  }
};
}  // namespace vj
