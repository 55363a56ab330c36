// C01: scalar expressions compute the documented value and type.
#include "common/run.h"
using namespace vj;
using vr::Ctx;

struct Item {  // one systematic expression shape: f(leaf...) -> expression
  std::string what;
  std::vector<VT> args;
  std::function<P(std::vector<P>)> make;
  double tol = 0;          // relative tolerance, 0 = bit-exact
  bool zero_sign = true;   // false: -0 and +0 are the same result
  std::function<bool(const std::vector<RetType>&)> ok = nullptr;
  std::function<RetType(Rng&, size_t)> gen = nullptr;
};

static double D(const RetType& v) { return std::get<double>(Conv(v, VT::kF64)); }

template <class F>
static Item Math1(const std::string& n, VT a, VT ret, F f, double tol, double lo, double hi) {
  Item it;
  it.what = n;
  it.args = {a};
  it.tol = tol;
  it.make = [=](std::vector<P> c) {
    return Fn(n, c, ret, [=](const std::vector<RetType>& v) -> RetType {
      if (ret == VT::kF32) return static_cast<float>(f(static_cast<float>(D(v[0]))));
      return static_cast<double>(f(static_cast<double>(D(v[0]))));
    });
  };
  if (lo < hi) it.ok = [=](const std::vector<RetType>& v) { return std::isfinite(D(v[0])) && D(v[0]) >= lo && D(v[0]) <= hi; };
  if (lo < hi)
    it.gen = [=](Rng& r, size_t) -> RetType {
      double x = lo + (hi - lo) * static_cast<double>(r.Next() >> 11) / 9007199254740992.0;
      if (r.P(.3)) x = std::floor(x);
      if (x < lo) x = lo;
      if (a == VT::kF32) return static_cast<float>(x);
      if (a == VT::kF64) return x;
      return Conv(RetType(std::floor(std::max(0.0, x))), a);
    };
  return it;
}

static std::vector<Item> Items() {
  std::vector<Item> v;
  for (B op : kBins)
    for (VT a : kNums)
      for (VT b : kNums)
        if (OpOk(op, a, b)) v.push_back({OpText(op), {a, b}, [op](std::vector<P> c) { return Bin(op, c[0], c[1]); }});
  for (B op : kBins)
    if (OpOk(op, VT::kString, VT::kString))
      v.push_back({OpText(op), {VT::kString, VT::kString}, [op](std::vector<P> c) { return Bin(op, c[0], c[1]); }});
  for (VT l : kLists)
    v.push_back({"+", {l, l}, [](std::vector<P> c) { return Bin(B::kAdd, c[0], c[1]); }});
  for (U op : kUns)
    for (VT a : kNums)
      if (OpOk(op, a)) v.push_back({OpText(op), {a}, [op](std::vector<P> c) { return Un(op, c[0]); }});
  for (VT a : kNums)
    for (VT t : kNums) {
      auto f = [t](std::vector<P> c) {
        return Fn("Cast" + CapName(t), {c[0]}, t, [t](const std::vector<RetType>& v) { return Conv(v[0], t); });
      };
      Item it{"Cast" + CapName(t), {a}, f};
      if (IsFloat(a) && IsInt(t))
        it.gen = [a, t](Rng& r, size_t) -> RetType {
          bool sg = IsSigned(t);
          double lim = std::ldexp(1.0, Bits(t) - (sg ? 1 : 0));
          double x = (static_cast<double>(r.Next() >> 11) / 9007199254740992.0 * (sg ? 2 : 1) - (sg ? 1 : 0)) * (r.P(.6) ? lim : 100);
          if (r.P(.2)) x = std::floor(x) + .5;
          if (a == VT::kF32) return static_cast<float>(x);
          return x;
        };
      v.push_back(it);
      // if / switch with branches of types a and t
      v.push_back({"if", {VT::kU8, a, t}, [](std::vector<P> c) { return If(c[0], c[1], c[2]); }});
      v.push_back({"switch", {VT::kU8, a, VT::kI32, t}, [](std::vector<P> c) { return Switch({c[0], c[1], c[2], c[3], c[1]}); }});
      // longer ones: the other type sits in one place, first, middle or default
      for (size_t n : {3, 4}) {
        size_t at = (static_cast<size_t>(a) * 7 + static_cast<size_t>(t) * 3 + n) % (n + 1);
        if (static_cast<size_t>(a) % 2) at = n;
        v.push_back({"switch of " + std::to_string(n), {VT::kU8, a, t, VT::kU8, VT::kI16}, [n, at](std::vector<P> c) {
                       std::vector<P> ch;
                       for (size_t k = 0; k <= n; ++k) {
                         if (k < n) ch.push_back(k % 3 == 0 ? c[0] : k % 3 == 1 ? c[3] : c[4]);
                         ch.push_back(k == at ? c[2] : c[1]);
                       }
                       return Switch(ch);
                     }});
      }
    }
  for (VT a : kNums) {  // conditions of every type
    v.push_back({"if-cond", {a}, [](std::vector<P> c) { return If(c[0], Const(int32_t(1)), Const(int32_t(2))); }});
    for (const char* n : {"min", "max"}) {
      bool mx = n[1] == 'a';
      Item it{n, {a, a}, [=](std::vector<P> c) {
                return Fn(n, c, a, [=](const std::vector<RetType>& v) -> RetType {
                  bool gt = RelC(B::kLarge, v[0], v[1]);
                  return gt == mx ? v[0] : v[1];
                });
              }};
      it.zero_sign = false;
      it.ok = [](const std::vector<RetType>& v) { return !(IsFloat(TypeOf(v[0])) && (std::isnan(D(v[0])) || std::isnan(D(v[1])))); };
      v.push_back(it);
    }
  }
  // RetType comparison above compares variants of one type by value
  for (VT a : {VT::kI32, VT::kI64, VT::kU32, VT::kU64, VT::kF32, VT::kF64}) {
    VT ret = a == VT::kF32 ? VT::kF32 : VT::kF64;
    double tol = ret == VT::kF32 ? 4e-6 : 1e-13;
    double top = ret == VT::kF32 ? 80 : 600;
    v.push_back(Math1("exp", a, ret, [](auto x) { return std::exp(x); }, tol, IsFloat(a) ? -top : 0, top));
    v.push_back(Math1("log", a, ret, [](auto x) { return std::log(x); }, tol, IsFloat(a) ? 2.0 : 2, 1e9));
    v.push_back(Math1("log2", a, ret, [](auto x) { return std::log2(x); }, tol, IsFloat(a) ? 2.0 : 2, 1e9));
    v.push_back(Math1("log10", a, ret, [](auto x) { return std::log10(x); }, tol, IsFloat(a) ? 2.0 : 2, 1e9));
    // the whole domain: zero, negative, infinite, subnormal, overflowing
    v.push_back(Math1("exp", a, ret, [](auto x) { return std::exp(x); }, tol, 1, -1));
    v.push_back(Math1("log", a, ret, [](auto x) { return std::log(x); }, tol, 1, -1));
    v.push_back(Math1("log2", a, ret, [](auto x) { return std::log2(x); }, tol, 1, -1));
    v.push_back(Math1("log10", a, ret, [](auto x) { return std::log10(x); }, tol, 1, -1));
  }
  for (VT a : {VT::kF32, VT::kF64}) {
    double tol = a == VT::kF32 ? 4e-6 : 1e-13;
    v.push_back(Math1("sin", a, a, [](auto x) { return std::sin(x); }, tol, .1, 3.0));
    v.push_back(Math1("cos", a, a, [](auto x) { return std::cos(x); }, tol, -1.4, 1.4));
    v.push_back(Math1("tan", a, a, [](auto x) { return std::tan(x); }, tol, .1, 1.4));
    v.push_back(Math1("sin", a, a, [](auto x) { return std::sin(x); }, 0.02, 100.1, 102.0));
    v.push_back(Math1("sin", a, a, [](auto x) { return std::sin(x); }, tol, 1, -1));
    v.push_back(Math1("cos", a, a, [](auto x) { return std::cos(x); }, tol, 1, -1));
    v.push_back(Math1("tan", a, a, [](auto x) { return std::tan(x); }, tol, 1, -1));
    v.push_back(Math1("sqrt", a, a, [](auto x) { return std::sqrt(x); }, 0, 0, 1e12));
    v.push_back(Math1("sqrt", a, a, [](auto x) { return std::sqrt(x); }, 0, 1, -1));
    v.push_back(Math1("ceil", a, a, [](auto x) { return std::ceil(x); }, 0, 1, -1));
    v.push_back(Math1("floor", a, a, [](auto x) { return std::floor(x); }, 0, 1, -1));
    v.push_back(Math1("round", a, a, [](auto x) { return std::round(x); }, 0, 1, -1));
    v.push_back(Math1("trunc", a, a, [](auto x) { return std::trunc(x); }, 0, 1, -1));
    v.push_back(Math1("frac", a, a, [](auto x) { return x - std::trunc(x); }, 0, 1, -1));
    v.back().ok = [](const std::vector<RetType>& v) { return std::isfinite(D(v[0])); };
    v.push_back(Math1("round", a, a, [](auto x) { return std::round(x); }, 0, -50, 50));
    v.push_back(Math1("ceil", a, a, [](auto x) { return std::ceil(x); }, 0, -50, 50));
    v.push_back(Math1("floor", a, a, [](auto x) { return std::floor(x); }, 0, -50, 50));
    v.push_back(Math1("abs", a, a, [](auto x) { return std::fabs(x); }, 0, 1, -1));
  }
  for (VT a : {VT::kI8, VT::kI16, VT::kI32, VT::kI64}) {
    VT ret = a == VT::kI64 ? VT::kI64 : VT::kI32;
    v.push_back({"abs", {a}, [ret](std::vector<P> c) {
                   return Fn("abs", c, ret, [ret](const std::vector<RetType>& v) -> RetType {
                     RetType w = Conv(v[0], ret);
                     if (ret == VT::kI64) {
                       int64_t x = std::get<int64_t>(w);
                       if (x == INT64_MIN) throw Undefined();
                       return x < 0 ? -x : x;
                     }
                     int32_t x = std::get<int32_t>(w);
                     if (x == INT32_MIN) throw Undefined();
                     return x < 0 ? -x : x;
                   });
                 }});
  }
  for (VT a : {VT::kF32, VT::kF64, VT::kI32, VT::kI64}) {
    VT ret = a == VT::kF32 ? VT::kF32 : VT::kF64;
    Item it{"pow", {a, VT::kI32}, [ret](std::vector<P> c) {
              return Fn("pow", c, ret, [ret](const std::vector<RetType>& v) -> RetType {
                double p = std::pow(D(v[0]), std::get<int32_t>(v[1]));
                if (ret == VT::kF32) return static_cast<float>(p);
                return p;
              });
            }};
    it.tol = ret == VT::kF32 ? 2e-2 : 1e-9;
    it.gen = [a](Rng& r, size_t i) -> RetType {
      if (i == 1) {
        switch (r.Below(4)) {
          case 0: return int32_t(r.Range(-9, 9));
          case 1: return int32_t(r.Range(30000, 70000));
          case 2: return int32_t(r.Range(-70000, -30000));
          default: return int32_t(r.Range(-40, 60));
        }
      }
      if (IsInt(a)) {
        int64_t x = r.P(.5) ? r.Range(-1, 1) : r.Range(-12, 12);
        return Conv(RetType(x), a);
      }
      double x = r.P(.5) ? 1 + static_cast<double>(r.Range(-50, 50)) / 1e6 : static_cast<double>(r.Range(-400, 400)) / 100;
      if (r.P(.2)) x = r.P(.5) ? 1 : -1;
      if (a == VT::kF32) return static_cast<float>(x);
      return x;
    };
    it.ok = [ret](const std::vector<RetType>& v) {
      double x = D(v[0]), n = std::get<int32_t>(v[1]);
      if (x == 0) return true;
      double e = std::fabs(n * std::log2(std::fabs(x)));
      // repeated multiplication rounds about log2(n) times amplified by n: keep f32 to small exponents
      return e < (ret == VT::kF32 ? 100 : 1000) && (ret == VT::kF64 || std::fabs(n) < 100 || std::fabs(x) == 1);
    };
    v.push_back(it);
  }
  for (VT a : {VT::kF32, VT::kF64}) {
    Item it{"pow", {a, a}, [a](std::vector<P> c) {
              return Fn("pow", c, a, [a](const std::vector<RetType>& v) -> RetType {
                if (a == VT::kF32) return std::pow(std::get<float>(v[0]), std::get<float>(v[1]));
                return std::pow(std::get<double>(v[0]), std::get<double>(v[1]));
              });
            }};
    it.tol = a == VT::kF32 ? 1e-5 : 1e-12;
    it.gen = [a](Rng& r, size_t i) -> RetType {
      double x = i == 0 ? static_cast<double>(r.Range(1, 4000)) / 100 : static_cast<double>(r.Range(-1500, 1500)) / 100;
      if (a == VT::kF32) return static_cast<float>(x);
      return x;
    };
    v.push_back(it);
    it.gen = nullptr;  // zeros, ones, infinities, NaN, negative bases with fractional exponents
    v.push_back(it);
  }
  // strings
  auto str = [&](const std::string& n, std::vector<VT> a, VT ret, Model m) {
    v.push_back({n, a, [=](std::vector<P> c) { return Fn(n, c, ret, m); }});
  };
  str("StringConcat", {VT::kString, VT::kString}, VT::kString,
      [](const std::vector<RetType>& v) -> RetType { return std::get<std::string>(v[0]) + std::get<std::string>(v[1]); });
  str("StringLen", {VT::kString}, VT::kU32,
      [](const std::vector<RetType>& v) -> RetType { return static_cast<uint32_t>(std::get<std::string>(v[0]).size()); });
  str("StringContains", {VT::kString, VT::kString}, VT::kU8, [](const std::vector<RetType>& v) -> RetType {
    return static_cast<uint8_t>(std::get<std::string>(v[0]).find(std::get<std::string>(v[1])) != std::string::npos);
  });
  for (VT a : kInts)
    v.push_back({"CastString", {a}, [](std::vector<P> c) {
                   return Fn("CastString", c, VT::kString, [](const std::vector<RetType>& v) -> RetType {
                     return std::visit(
                         [](const auto& x) -> RetType {
                           if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) return std::to_string(x);
                           else abort();
                         },
                         v[0]);
                   });
                 }});
  for (VT a : kInts) {  // number -> text -> number
    Item it{"Cast" + CapName(a), {VT::kString}, [a](std::vector<P> c) {
              return Fn("Cast" + CapName(a), c, a, [a](const std::vector<RetType>& v) -> RetType {
                const std::string& s = std::get<std::string>(v[0]);
                return WithNum(a, [&](auto z) -> RetType {
                  using T = decltype(z);
                  if constexpr (std::is_signed_v<T>) return static_cast<T>(std::stoll(s));
                  else return static_cast<T>(std::stoull(s));
                });
              });
            }};
    it.gen = [a](Rng& r, size_t) -> RetType {
      return WithNum(a, [&](auto z) -> RetType {
        auto x = RandNum<decltype(z)>(r);
        return std::to_string(x);
      });
    };
    v.push_back(it);
  }
  return v;
}

static void Compare(Ctx& c, const Item& it, const RetType& got, const RetType& want, const std::string& where) {
  bool ok;
  if (it.tol > 0 || !it.zero_sign) {
    ok = got.index() == want.index();
    if (ok && std::holds_alternative<float>(want)) ok = NearE(std::get<float>(got), std::get<float>(want), it.tol);
    else if (ok && std::holds_alternative<double>(want)) ok = NearE(std::get<double>(got), std::get<double>(want), it.tol);
    else ok = ok && Same(got, want);
  } else {
    ok = Same(got, want);
  }
  if (!ok) c.Fail("value", where + ": got " + Show(got) + ", expected " + Show(want));
}

static bool IntZero(const RetType& v) {
  return IsInt(TypeOf(v)) && !Truthy(v);
}

struct Table {  // one expression over run-time operands, operand values, the values it must have
  P all;
  std::vector<P> leaves;
  bool flt = false;
  std::vector<std::vector<RetType>> vals;
  std::vector<RetType> wants;
};
static Table Values(Ctx& c, const Item& it, size_t count, const std::vector<size_t>& slot) {
  Table tb;
  for (VT t : it.args) tb.flt |= IsFloat(t) || t == VT::kF32List || t == VT::kF64List;
  std::vector<P> named;
  for (size_t i = 0; i < it.args.size(); ++i) {
    tb.leaves.push_back(In(it.args[i], static_cast<int32_t>(slot.empty() ? i : slot[i])));
    named.push_back(In(it.args[i], static_cast<int32_t>(i)));
  }
  tb.all = it.make(tb.leaves);
  P all = it.make(named);
  tb.flt |= IsFloat(all->t);
  auto gen = [&](size_t i) -> RetType {
    VT t = it.args[i];
    if (it.gen && (t == VT::kString || c.rng.P(.85))) return it.gen(c.rng, i);
    if (it.what == "<<" || it.what == ">>")
      if (i == 1 && c.rng.P(.9)) return Conv(RetType(int64_t(c.rng.Below(Bits(it.args[0])))), t);
    if (IsList(t)) return RandList(c.rng, t, RandLen(c.rng, 20));
    if (t == VT::kString) return RandStr(c.rng, c.rng.P(.1) ? 300 : 12);
    if (it.args.size() > 2 && i == 0) return RetType(uint8_t(c.rng.Below(2)));
    if (it.what == "switch" && i == 2) return RetType(int32_t(c.rng.Below(2)));
    if (c.rng.P(.25)) return WithNum(t, [&](auto z) -> RetType { return SmallNum<decltype(z)>(c.rng); });
    return RandScalar(c.rng, t);
  };
  for (size_t tries = 0; tries < count * 8 && tb.vals.size() < count; ++tries) {
    std::vector<RetType> v;
    for (size_t i = 0; i < it.args.size(); ++i) {
      v.push_back(gen(i));
      if (i == 1 && TypeOf(v[0]) == TypeOf(v[1]) && c.rng.P(.15)) v[1] = v[0];
    }
    RetType w;
    if (it.ok && !it.ok(v)) continue;
    Machine m;
    if (!Reference(all, v, &m, &w)) continue;
    tb.vals.push_back(v);
    tb.wants.push_back(w);
  }
  if (tb.vals.size() < 4) c.Fail("harness", "no usable operand values for " + it.what);
  return tb;
}
// every item over run-time operands, many in one engine, so that every run sees all of them
constexpr size_t kSweep = 24;
static void Sweep(Ctx& c, const std::vector<Item>& items, size_t from) {
  std::vector<Table> ts;
  std::vector<VT> slots;
  std::vector<std::vector<size_t>> at;
  std::vector<NodePtr> nodes;
  std::string d = "strict\n";
  for (size_t i = from; i < std::min(items.size(), from + kSweep); ++i) {
    std::vector<size_t> slot;  // one slot per type and place
    for (size_t k = 0; k < items[i].args.size(); ++k) {
      size_t z = 0;
      while (z < slots.size() && (slots[z] != items[i].args[k] || std::find(slot.begin(), slot.end(), z) != slot.end())) ++z;
      if (z == slots.size()) slots.push_back(items[i].args[k]);
      slot.push_back(z);
    }
    ts.push_back(Values(c, items[i], c.thorough ? 400 : 96, slot));
    at.push_back(slot);
    d += Dump(ts.back().all) + "\n";
    nodes.push_back(Build(ts.back().all));
  }
  c.Desc(d);
  BatchExecEngine eng(Opt(true));
  Status st = eng.Compile(nodes, Reg());
  if (!st.ok()) c.Fail("refused", "a well-typed expression was refused: " + st.ToString());
  ExecContext ctx(4096);
  std::vector<RetType> zero;
  for (VT t : slots) zero.push_back(IsList(t) ? RandList(c.rng, t, 0) : t == VT::kString ? RetType(std::string()) : WithNum(t, [](auto z) -> RetType { return decltype(z)(0); }));
  for (size_t e = 0; e < ts.size(); ++e) {
    const Item& it = items[from + e];
    if (eng.GetReturnType(e) != ts[e].all->t)
      c.Fail("type", Dump(ts[e].all) + " has type " + Name(eng.GetReturnType(e)) + ", documented " + Name(ts[e].all->t));
    for (size_t k = 0; k < ts[e].vals.size(); ++k) {
      std::vector<RetType> v = zero;
      for (size_t i = 0; i < at[e].size(); ++i) v[at[e][i]] = ts[e].vals[k][i];
      Inputs in(v);
      RetType got;
      st = eng.ExecuteAt(e, ctx, in.Ptr(), &got);
      if (!st.ok()) c.Fail("status", Dump(ts[e].all) + " on\n" + Dump(v) + st.ToString());
      Compare(c, it, got, ts[e].wants[k], Dump(ts[e].all) + " on\n" + Dump(ts[e].vals[k]));
    }
    c.Count("operand values compared", ts[e].vals.size());
    c.Nontrivial(vr::Hash(it.what) ^ Shape(ts[e].all));
    c.Count("items of the full sweep");
  }
}

static void Systematic(Ctx& c, const Item& it) {
  Table tb = Values(c, it, 48, {});
  auto& vals = tb.vals;
  auto& wants = tb.wants;
  auto& leaves = tb.leaves;
  P all = tb.all;
  bool strict = tb.flt || c.rng.P(.6);
  // entries: run-time operands; then for a few value vectors every mix of literal and run-time operands
  std::vector<NodePtr> nodes;
  struct Entry { size_t val; };
  std::vector<int64_t> which;
  std::vector<P> exprs;
  exprs.push_back(all);
  which.push_back(-1);
  size_t nk = c.thorough ? 6 : 3;
  for (size_t k = 0; k < nk && k < vals.size(); ++k)
    for (uint32_t mask = 1; mask < (1u << it.args.size()); ++mask) {
      if (it.args.size() > 2 && mask != 1 && mask != (1u << it.args.size()) - 1 && !c.rng.P(.3)) continue;
      std::vector<P> l = leaves;
      for (size_t i = 0; i < l.size(); ++i)
        if (mask >> i & 1) l[i] = Const(vals[k][i]);
      // a literal zero divisor is refused at compile time by design
      if ((it.what == "/" || it.what == "%") && (mask & 2) && IntZero(vals[k][1])) continue;
      exprs.push_back(it.make(l));
      which.push_back(static_cast<int64_t>(k));
    }
  std::string d = std::string(strict ? "strict " : "fast ");
  for (auto& e : exprs) d += Dump(e) + "\n";
  c.Desc(d);
  for (auto& e : exprs) nodes.push_back(Build(e));
  BatchExecEngine eng(Opt(strict));
  Status st = eng.Compile(nodes, Reg());
  if (!st.ok()) c.Fail("refused", "a well-typed expression was refused: " + st.ToString());
  ExecContext ctx(4096);
  uint64_t n = 0;
  for (size_t e = 0; e < exprs.size(); ++e) {
    if (eng.GetReturnType(e) != all->t)
      c.Fail("type", Dump(exprs[e]) + " has type " + Name(eng.GetReturnType(e)) + ", documented " + Name(all->t));
    for (size_t k = 0; k < vals.size(); ++k) {
      if (which[e] >= 0) {
        if (static_cast<size_t>(which[e]) != k) continue;
      }
      Inputs in(vals[k]);
      RetType got;
      st = eng.ExecuteAt(e, ctx, in.Ptr(), &got);
      if (!st.ok()) c.Fail("status", Dump(exprs[e]) + " on\n" + Dump(vals[k]) + st.ToString());
      Compare(c, it, got, wants[k], Dump(exprs[e]) + " on\n" + Dump(vals[k]));
      ++n;
      c.Nontrivial(vr::Hash(Dump(exprs[e])) ^ vr::Hash(Dump(vals[k])));
    }
  }
  c.Count("systematic shapes");
  c.Count("operand values compared", n);
  c.Count("expressions compiled", exprs.size());
}

static void Tree(Ctx& c) {
  GenOpt o;
  o.nan = c.rng.P(.3);
  bool ints = c.rng.P(.4);
  if (ints) o.floats = o.lists = false;
  Gen g(c.rng, o);
  g.MakeInputs(3 + c.rng.Below(4));
  P e = g.Expr(ints ? g.NumT() : g.AnyT(), 3 + static_cast<int>(c.rng.Below(c.thorough ? 5 : 3)));
  bool strict = HasFloat(e) || c.rng.P(.5);
  std::vector<std::vector<RetType>> vals;
  std::vector<RetType> wants;
  for (int t = 0; t < 30 && vals.size() < 8; ++t) {
    auto v = g.InValues();
    Machine m;
    RetType w;
    if (!Reference(e, v, &m, &w)) {
      c.Count("inputs outside the documented domain");
      continue;
    }
    vals.push_back(v);
    wants.push_back(w);
    c.Count("branches taken by the model", m.branches);
  }
  if (vals.empty()) return;
  c.Desc(std::string(strict ? "strict " : "fast ") + Dump(e));
  ExecEngine eng(Opt(strict));
  auto node = Build(e);
  Status st = eng.Compile(node, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) {
      c.Count("literal zero divisor");
      return;
    }
    c.Fail("refused", "a well-typed expression was refused: " + st.ToString());
  }
  for (size_t k = 0; k < vals.size(); ++k) {
    Inputs in(vals[k]);
    RetType got;
    st = eng.Execute(in.Ptr(), &got);
    if (!st.ok()) c.Fail("status", st.ToString() + " on\n" + Dump(vals[k]));
    if (!Same(got, wants[k])) c.Fail("value", "got " + Show(got) + ", expected " + Show(wants[k]) + " on\n" + Dump(vals[k]));
    if (!in.Intact()) c.Fail("input-modified", Dump(vals[k]));
    c.Count("tree evaluations compared");
    c.Nontrivial(Shape(e) ^ vr::Hash(Show(wants[k])));
  }
  // the same with one input turned into a literal
  if (!g.in.empty() && c.rng.P(.3)) {
    size_t k = c.rng.Below(vals.size());
    size_t slot = c.rng.Below(g.in.size());
    std::function<P(const P&)> sub = [&](const P& n) -> P {
      if (n->k == NK::In && n->id == static_cast<int32_t>(slot)) return Const(vals[k][slot]);
      auto m = std::make_shared<Node>(*n);
      for (auto& ch : m->ch) ch = sub(ch);
      return m;
    };
    P e2 = sub(e);
    c.AddDesc("\nwith in" + std::to_string(slot) + " = " + Show(vals[k][slot]) + " as a literal");
    ExecEngine eng2(Opt(strict));
    auto node2 = Build(e2);
    st = eng2.Compile(node2, Reg());
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", "refused with a literal operand: " + st.ToString());
    }
    Inputs in(vals[k]);
    RetType got;
    st = eng2.Execute(in.Ptr(), &got);
    if (!st.ok()) c.Fail("status", st.ToString());
    if (!Same(got, wants[k]))
      c.Fail("value", "with a literal operand: got " + Show(got) + ", expected " + Show(wants[k]) + " on\n" + Dump(vals[k]));
    c.Count("tree evaluations with a literal operand");
  }
  if (g.size > 10) c.Sample(Dump(e) + "\n" + Dump(vals[0]) + "= " + Show(wants[0]));
}

// an operation whose result wraps around, inside an operation whose simplification would assume it does not
static P Algebra(Gen& g, Rng& r) {
  static const VT ts[] = {VT::kI8, VT::kU8, VT::kI16, VT::kU16, VT::kI32, VT::kU32, VT::kI64, VT::kU64};
  VT t = ts[r.Below(8)];
  auto in = [&](VT ty) {
    int32_t s = -1;
    for (size_t i = 0; i < g.in.size(); ++i)
      if (g.in[i] == ty && r.P(.6)) s = static_cast<int32_t>(i);
    if (s < 0) {
      g.in.push_back(ty);
      s = static_cast<int32_t>(g.in.size()) - 1;
    }
    return In(ty, s);
  };
  P x = in(t), y = in(r.P(.8) ? t : ts[r.Below(8)]);
  auto k = [&] { return r.P(.5) ? Const(RandOf(r, t)) : g.ConstInt(t, static_cast<int>(r.Below(20)) + 1); };
  uint64_t sh = r.Below(std::min(100, jitfusion::TypeHelper::GetBitWidthFromType(t)));
  P kc = k();
  auto inner = [&](P a, P b) -> P {
    switch (r.Below(9)) {
      case 0: return Bin(B::kAdd, a, kc);
      case 1: return Bin(B::kSub, a, kc);
      case 2: case 3: return Bin(B::kMul, a, kc);
      case 4: return Bin(B::kAdd, a, b);
      case 5: return Bin(B::kSub, a, b);
      case 6: return Bin(B::kMul, a, b);
      case 7: return Bin(B::kBitwiseShiftLeft, a, g.ConstInt(t, static_cast<int>(sh)));
      default: return Un(U::kMinus, a);
    }
  };
  P i = inner(x, y);
  static const B rel[] = {B::kLarge, B::kLargeEqual, B::kLess, B::kLessEqual, B::kEqual, B::kNotEqual};
  B re = rel[r.Below(6)];
  switch (r.Below(11)) {
    case 0: return Bin(B::kDiv, i, r.P(.7) ? kc : r.P(.5) ? y : k());
    case 1: return Bin(B::kMod, i, r.P(.7) ? kc : y);
    case 2: return Bin(B::kBitwiseShiftRight, i, g.ConstInt(t, static_cast<int>(sh)));
    case 3: return Bin(re, i, r.P(.5) ? x : y);
    case 4: return Bin(re, i, kc);
    case 5: {
      P other = i;
      if (i->k == NK::Bin) {
        other = std::make_shared<Node>(*i);
        other->ch[0] = y;
        if (r.P(.4)) return Bin(re, i, Bin(i->bop, y, i->ch[1]));
        return Bin(r.P(.5) ? B::kSub : re, Bin(i->bop, i->ch[0], i->ch[1]), Bin(i->bop, i->ch[0], r.P(.5) ? k() : y));
      }
      return Bin(re, i, y);
    }
    case 6: return Bin(r.P(.5) ? B::kAdd : B::kMul, i, Const(r.P(.5) ? RetType(int64_t(1)) : RetType(uint64_t(3))));
    case 7: return Bin(B::kAdd, i, Const(r.P(.5) ? RetType(double(0.5)) : RetType(float(1))));
    case 8: return If(Bin(re, i, r.P(.5) ? x : kc), i, Const(RetType(int64_t(-7))));
    case 9: return Bin(B::kAnd, Bin(re, x, kc), Bin(rel[r.Below(6)], i, kc));
    default: return Un(r.P(.5) ? U::kMinus : U::kNot, i);
  }
}
static void Algebras(Ctx& c) {
  GenOpt o;
  Gen g(c.rng, o);
  g.MakeInputs(1);
  std::vector<P> es;
  std::string d;
  for (int i = 0; i < 10; ++i) es.push_back(Algebra(g, c.rng)), d += Dump(es.back()) + "\n";
  c.Desc("strict\n" + d);
  for (size_t i = 0; i < es.size();) {
    // an expression with a literal zero divisor is refused at compile time by design
    std::function<bool(const P&)> zero = [&](const P& n) {
      if (n->k == NK::Bin && (n->bop == B::kDiv || n->bop == B::kMod) && n->ch[1]->k == NK::Const && IntZero(n->ch[1]->c)) return true;
      for (auto& ch : n->ch)
        if (zero(ch)) return true;
      return false;
    };
    if (zero(es[i])) es.erase(es.begin() + static_cast<long>(i));
    else ++i;
  }
  if (es.empty()) return;
  std::vector<NodePtr> nodes;
  for (auto& e : es) nodes.push_back(Build(e));
  BatchExecEngine eng(Opt(true));
  Status st = eng.Compile(nodes, Reg());
  if (!st.ok()) c.Fail("refused", st.ToString());
  ExecContext ctx(4096);
  for (int k = 0; k < 24; ++k) {
    auto v = g.InValues();
    if (k % 2)
      for (auto& x : v) x = RandOf(c.rng, TypeOf(x));
    Inputs in(v);
    for (size_t i = 0; i < es.size(); ++i) {
      Machine m;
      RetType w, got;
      if (!Reference(es[i], v, &m, &w)) {
        c.Count("inputs outside the documented domain");
        continue;
      }
      st = eng.ExecuteAt(i, ctx, in.Ptr(), &got);
      if (!st.ok()) c.Fail("status", Dump(es[i]) + " on\n" + Dump(v) + st.ToString());
      if (!Same(got, w)) c.Fail("value", Dump(es[i]) + " on\n" + Dump(v) + "got " + Show(got) + ", expected " + Show(w));
      c.Count("wrap-around expressions compared");
      c.Nontrivial(Shape(es[i]) ^ vr::Hash(Show(w)));
    }
  }
}

int main(int argc, char** argv) {
  auto items = Items();
  vr::Plan p;
  p.id = "C01";
  p.quick_cases = items.size() * 2 + 200000;
  p.thorough_cases = items.size() * 20 + 4000000;
  p.quick_secs = 30;
  p.thorough_secs = 600;
  p.rule = "every operator, cast and math function at every type pair on edge and random values (one pass over run-time operands), then a sample of them with literal operands and random expression trees; distinct = expression and operand values";
  uint64_t n = items.size(), m = (n + kSweep - 1) / kSweep;
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    if (c.idx < m) Sweep(c, items, c.idx * kSweep);
    else if (c.rng.P(.45)) Systematic(c, items[c.thorough && c.rng.P(.5) ? c.idx % n : c.rng.Below(n)]);
    else if (c.rng.P(.25)) Algebras(c);
    else Tree(c);
  });
}
