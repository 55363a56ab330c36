// Random well-typed programs over the model AST.
#pragma once
#include <algorithm>
#include "ast.h"

namespace vj {

inline bool OpOk(B op, VT a, VT b) {  // the documented typing rules
  if (IsLogic(op)) return IsNum(a) && IsNum(b);
  if (IsRel(op)) return (IsNum(a) && IsNum(b)) || (a == VT::kString && b == VT::kString);
  if (IsBit(op)) return IsInt(a) && IsInt(b);
  if (op == B::kAdd && a == b && (a == VT::kString || IsList(a))) return true;
  return IsNum(a) && IsNum(b);
}
inline bool OpOk(U op, VT a) {
  if (op == U::kBitwiseNot) return IsInt(a);
  return IsNum(a);
}
inline const std::vector<B> kBins = {B::kAdd,  B::kSub,       B::kMul,      B::kDiv,        B::kMod,       B::kLarge,
                                     B::kLargeEqual, B::kEqual, B::kLess,   B::kLessEqual,  B::kNotEqual,  B::kAnd,
                                     B::kOr,   B::kBitwiseAnd, B::kBitwiseOr, B::kBitwiseXor, B::kBitwiseShiftLeft,
                                     B::kBitwiseShiftRight};
inline const std::vector<U> kUns = {U::kPlus, U::kMinus, U::kNot, U::kBitwiseNot};

struct GenOpt {
  bool effects = false;   // eff() calls
  bool fails = false;     // mayfail() calls
  bool lists = true, strings = true, floats = true, fns = true, branches = true;
  bool storev = false;    // stores that return a value
  bool back = false;      // reads of what the program stored so far, stores that return a value
  bool nan = false;       // NaN/inf inputs and constants
  bool dsl = false;       // constants must be expressible as one literal
  int vars = 0;
};

struct Gen {
  Rng& r;
  GenOpt o;
  std::vector<VT> in;                               // input slot types
  std::vector<std::pair<std::string, VT>> vars;     // variables in scope
  int next_id = 0;
  uint64_t size = 0;
  Gen(Rng& rng, GenOpt opt) : r(rng), o(opt) {}

  VT NumT() {
    if (o.floats && r.P(.25)) return r.P(.5) ? VT::kF32 : VT::kF64;
    return r.Pick(kInts);
  }
  VT AnyT() {
    if (o.lists && r.P(.12)) return r.Pick(kLists);
    if (o.strings && r.P(.12)) return VT::kString;
    return NumT();
  }
  void MakeInputs(size_t n) {
    for (size_t i = 0; i < n; ++i) in.push_back(AnyT());
  }
  RetType Value(VT t) {
    if (IsList(t)) return RandList(r, t, r.P(.2) ? 0 : r.Below(6), o.nan ? 0 : 2);
    if (t == VT::kString) {
      std::string s;
      size_t n = r.Below(6);
      for (size_t i = 0; i < n; ++i) s += "abcAB 01"[r.Below(8)];
      return s;
    }
    return WithNum(t, [&](auto z) -> RetType {
      using T = decltype(z);
      if (r.P(.5)) return SmallNum<T>(r);
      T v = RandNum<T>(r, o.nan);
      if constexpr (std::is_floating_point_v<T>)
        if (!o.nan && !std::isfinite(v)) v = static_cast<T>(1.5);
      return v;
    });
  }
  std::vector<RetType> InValues() {
    std::vector<RetType> v;
    for (VT t : in) v.push_back(Value(t));
    return v;
  }
  RetType Literal(VT t) {  // what one DSL literal can denote
    if (IsList(t)) {
      if (t == VT::kStringList) {
        std::vector<std::string> v(1 + r.Below(4));
        for (auto& s : v) s = std::get<std::string>(Value(VT::kString));
        return v;
      }
      return WithNum(ElemOf(t), [&](auto z) -> RetType {
        using T = decltype(z);
        std::vector<T> v(1 + r.Below(5));
        for (auto& x : v) x = std::get<T>(Literal(ElemOf(t)));
        return v;
      });
    }
    if (t == VT::kString) return Value(t);
    return WithNum(t, [&](auto z) -> RetType {
      using T = decltype(z);
      if constexpr (std::is_floating_point_v<T>) {
        switch (r.Below(4)) {
          case 0: return static_cast<T>(r.Below(10));
          case 1: return static_cast<T>(r.Below(1000)) / 8;
          case 2: return static_cast<T>(static_cast<double>(r.Next() >> 11) / 9007199254740992.0);
          default: return static_cast<T>(static_cast<double>(r.Next() >> 40) / 1000.0);
        }
      } else {
        T v = RandNum<T>(r);
        if (r.P(.5)) v = SmallNum<T>(r);
        if constexpr (std::is_signed_v<T>)
          if (v < 0) v = static_cast<T>(-(v + 1));
        return v;
      }
    });
  }
  P Leaf(VT t) {
    ++size;
    if (o.back && t == VT::kI32 && r.P(.35)) return BackN(r.P(.6) ? (r.P(.5) ? -1 : -2) : static_cast<int32_t>(r.Below(12)));
    std::vector<int> cand;
    for (size_t i = 0; i < vars.size(); ++i)
      if (vars[i].second == t) cand.push_back(-1 - static_cast<int>(i));
    for (size_t i = 0; i < in.size(); ++i)
      if (in[i] == t) cand.push_back(static_cast<int>(i));
    if (!cand.empty() && r.P(.75)) {
      int c = r.Pick(cand);
      if (c < 0) return RefN(vars[-1 - c].first, t);
      return In(t, c);
    }
    if (IsNum(t) && !in.empty() && r.P(.4)) {  // an input of another numeric type, cast
      std::vector<int> num;
      for (size_t i = 0; i < in.size(); ++i)
        if (IsInt(in[i])) num.push_back(static_cast<int>(i));
      if (!num.empty()) {
        int c = r.Pick(num);
        return CastN(In(in[c], c), t);
      }
    }
    return Const(o.dsl ? Literal(t) : Value(t));
  }
  P CastN(P a, VT t) {
    return Fn("Cast" + CapName(t), {a}, t, [t](const std::vector<RetType>& v) { return Conv(v[0], t); });
  }
  VT NotAbove(VT t) {  // a numeric type that promotes into t
    std::vector<VT> c;
    for (VT x : kNums)
      if (Rank(x) <= Rank(t) && (o.floats || IsInt(x))) c.push_back(x);
    return r.Pick(c);
  }
  P Cond(int d) {
    if (r.P(.7)) return Expr(VT::kU8, d, true);
    return Expr(NumT(), d);
  }
  P Wrap(P e) {
    if (o.effects && r.P(.35)) return EffN(next_id++, e);
    if ((o.back || o.storev) && e->t == VT::kI32 && r.P(.12)) return StoreVN(5000 + next_id++, e);
    if (o.fails && e->t == VT::kI32 && r.P(.3)) return FailN(next_id++, e);
    return e;
  }
  P Expr(VT t, int d, bool boolish = false) {
    if (d <= 0) return Wrap(Leaf(t));
    return Wrap(Expr0(t, d, boolish));
  }
  P Expr0(VT t, int d, bool boolish) {
    ++size;
    if (o.branches && r.P(.16)) {
      if (r.P(.55)) {
        auto [a, b] = Branch(t);
        P c = Cond(d - 1);
        P x = Expr(a, d - 1);
        P y = Expr(b, d - 1);
        return If(c, x, y);
      }
      size_t n = r.P(.1) ? 3 + r.Below(6) : r.Below(3);
      std::vector<P> ch;
      bool exact = false;
      for (size_t i = 0; i < n; ++i) {
        ch.push_back(Cond(d - 2));
        VT bt = IsNum(t) && r.P(.4) ? NotAbove(t) : t;
        exact |= bt == t;
        ch.push_back(Expr(bt, d - 2));
      }
      ch.push_back(Expr(exact && IsNum(t) && r.P(.4) ? NotAbove(t) : t, d - 1));
      return Switch(ch);
    }
    if (IsList(t) || t == VT::kString) {
      if (r.P(.5)) {
        P a = Expr(t, d - 1);
        P b = Expr(t, d - 1);
        return Bin(B::kAdd, a, b);
      }
      return Leaf(t);
    }
    if (t == VT::kU8 && (boolish || r.P(.5))) {
      switch (r.Below(6)) {
        case 0: {
          P a = Cond(d - 1);
          return Un(U::kNot, a);
        }
        case 1: case 2: {
          B op = r.P(.5) ? B::kAnd : B::kOr;
          P a = Cond(d - 1);
          P b = Cond(d - 1);
          return Bin(op, a, b);
        }
        default: {
          static const B rel[] = {B::kLarge, B::kLargeEqual, B::kEqual, B::kLess, B::kLessEqual, B::kNotEqual};
          B op = rel[r.Below(6)];
          if (o.strings && r.P(.15)) {
            P a = Expr(VT::kString, d - 1);
            P b = Expr(VT::kString, d - 1);
            return Bin(op, a, b);
          }
          P a = Expr(NumT(), d - 1);
          P b = Expr(NumT(), d - 1);
          return Bin(op, a, b);
        }
      }
    }
    if (o.fns && t == VT::kI32 && r.P(.07)) {  // many arguments
      static const size_t arity[] = {2, 3, 4, 5, 6, 7, 8, 9, 12};
      size_t n = arity[r.Below(9)];
      std::vector<P> a;
      for (size_t i = 0; i < n; ++i) a.push_back(Expr(t, n > 4 ? std::min(d - 1, 1) : d - 1));
      return Fn("mix", std::move(a), t, [](const std::vector<RetType>& v) -> RetType {
        int32_t h = 17;
        for (auto& x : v) h = MixStep(h, std::get<int32_t>(x));
        return h;
      });
    }
    // numeric of type t
    switch (r.Below(10)) {
      case 0: {
        if (o.fns) {
          VT s = r.Pick(kInts);
          P a = Expr(s, d - 1);
          return CastN(a, t);
        }
        return Leaf(t);
      }
      case 1: {
        if (t == VT::kI32) {
          static const VT small[] = {VT::kI8, VT::kU8, VT::kI16, VT::kU16, VT::kI32};
          return Un(U::kMinus, Expr(small[r.Below(5)], d - 1));
        }
        if (Bits(t) >= 32) return Un(U::kMinus, Expr(t, d - 1));
        return Un(U::kPlus, Expr(t, d - 1));
      }
      case 2:
        if (IsInt(t)) return Un(U::kBitwiseNot, Expr(t, d - 1));
        return Un(U::kPlus, Expr(t, d - 1));
      case 3: case 4: {
        if (IsInt(t)) {
          switch (r.Below(4)) {
            case 0: {  // shift by a safe amount
              B op = r.P(.5) ? B::kBitwiseShiftLeft : B::kBitwiseShiftRight;
              VT bt = r.Pick(kInts);
              P a = Expr(t, d - 1);
              P amt = Amount(bt, Bits(t), d - 1);
              return Bin(op, a, amt);
            }
            case 1: {  // divide by something that is not zero
              B op = r.P(.5) ? B::kDiv : B::kMod;
              P a = Expr(t, d - 1);
              P b = Divisor(NotAboveInt(t), d - 1);
              return Bin(op, a, b);
            }
            default: {
              static const B bit[] = {B::kBitwiseAnd, B::kBitwiseOr, B::kBitwiseXor};
              B op = bit[r.Below(3)];
              auto [x, y] = Pair(t, true);
              P a = Expr(x, d - 1);
              P b = Expr(y, d - 1);
              return Bin(op, a, b);
            }
          }
        }
        B op = r.P(.5) ? B::kDiv : B::kMul;
        auto [x, y] = Pair(t, false);
        P a = Expr(x, d - 1);
        P b = Expr(y, d - 1);
        return Bin(op, a, b);
      }
      default: {
        static const B ar[] = {B::kAdd, B::kSub, B::kMul};
        B op = ar[r.Below(3)];
        auto [x, y] = Pair(t, false);
        P a = Expr(x, d - 1);
        P b = Expr(y, d - 1);
        return Bin(op, a, b);
      }
    }
  }
  VT NotAboveInt(VT t) {
    std::vector<VT> c;
    for (VT x : kInts)
      if (Rank(x) <= Rank(t)) c.push_back(x);
    return r.Pick(c);
  }
  // operand types that promote to t, at least one of them t
  std::pair<VT, VT> Pair(VT t, bool ints) {
    VT other = ints ? NotAboveInt(t) : NotAbove(t);
    return r.P(.5) ? std::make_pair(t, other) : std::make_pair(other, t);
  }
  std::pair<VT, VT> Branch(VT t) {
    if (!IsNum(t) || r.P(.5)) return {t, t};
    VT other = NotAbove(t);
    return r.P(.5) ? std::make_pair(t, other) : std::make_pair(other, t);
  }
  P ConstInt(VT t, int64_t v) {
    return Const(WithNum(t, [&](auto z) -> RetType { return static_cast<decltype(z)>(v); }));
  }
  P Amount(VT t, int bits, int d) {
    if (r.P(.4) || d <= 0) return ConstInt(t, static_cast<int64_t>(r.Below(std::min(bits, 100))));
    return Bin(B::kBitwiseAnd, Expr(t, d - 1), ConstInt(t, bits - 1 > 127 ? 127 : bits - 1));
  }
  P Divisor(VT t, int d) {
    if (r.P(.4) || d <= 0) return ConstInt(t, 1 + static_cast<int64_t>(r.Below(20)));
    return Bin(B::kAdd, Bin(B::kBitwiseAnd, Expr(t, d - 1), ConstInt(t, 7)), ConstInt(t, 1));
  }
};

// Evaluates e on in; false when a sub-operation is outside the documented domain.
inline bool Reference(const P& e, const std::vector<RetType>& in, Machine* m, RetType* v) {
  m->in = &in;
  try {
    *v = m->Eval(e);
    return true;
  } catch (const Undefined&) {
    return false;
  }
}
// does the expression contain floating-point arithmetic or comparisons (results may differ in fast mode)?
inline bool HasFloat(const P& e) {
  if (IsFloat(e->t) || e->t == VT::kF32List || e->t == VT::kF64List) return true;
  for (auto& c : e->ch)
    if (HasFloat(c)) return true;
  for (auto& s : e->body)
    if (HasFloat(s.e)) return true;
  return false;
}
}  // namespace vj
