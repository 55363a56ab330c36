// C17: strict mode is IEEE arithmetic bit for bit, whatever runs it; fast mode changes only rounding.
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

// ---- expressions on which fusing, reassociating, cancelling or ignoring NaN, infinities and the sign of zero show ----
struct FGen {
  Rng& r;
  bool fast;
  std::vector<VT> in;
  FGen(Rng& rng, bool f) : r(rng), fast(f) {}
  VT FT() { return r.P(.5) ? VT::kF32 : VT::kF64; }
  P Leaf(VT t) {
    if (r.P(.6) || fast) {
      if (!fast || r.P(.75)) {
        for (int k = 0; k < 4; ++k) {
          size_t i = r.Below(in.size());
          if (in[i] == t) return In(t, static_cast<int32_t>(i));
        }
        in.push_back(t);
        return In(t, static_cast<int32_t>(in.size()) - 1);
      }
    }
    static const double k[] = {0, 1, 2, .5, 3, 10, .1, .25, 7, 100, 1.0 / 3};
    static const double odd[] = {1e30, 1e-30, 1e38, 3e-39, 16777217, 1e-7};
    double d = fast ? k[1 + r.Below(10)] : r.P(.85) ? k[r.Below(11)] : odd[r.Below(6)];
    if (t == VT::kF32) return Const(RetType(static_cast<float>(d)));
    if (t == VT::kF64) return Const(RetType(d));
    return Const(Conv(RetType(static_cast<int32_t>(r.Below(fast ? 9 : 100)) + (fast ? 1 : 0)), t));
  }
  P Call(const std::string& n, P a, std::function<RetType(const std::vector<RetType>&)> m) { return Fn(n, {a}, a->t, m); }
  template <class F>
  P Math(const std::string& n, P a, F f) {
    bool s = a->t == VT::kF32;
    return Call(n, a, [=](const std::vector<RetType>& v) -> RetType {
      if (s) return static_cast<float>(f(std::get<float>(v[0])));
      return static_cast<double>(f(std::get<double>(v[0])));
    });
  }
  P Cast(P a, VT t) {
    return Fn("Cast" + CapName(t), {a}, t, [t](const std::vector<RetType>& v) { return Conv(v[0], t); });
  }
  P C(int depth) {  // a condition
    static const B rel[] = {B::kLarge, B::kLargeEqual, B::kEqual, B::kLess, B::kLessEqual, B::kNotEqual};
    P a = F(FT(), depth - 1), b = r.P(.25) ? a : F(FT(), depth - 1);
    P x = Bin(rel[r.Below(6)], a, b);
    if (r.P(.3)) x = Un(U::kNot, x);
    if (r.P(.2)) x = Bin(r.P(.5) ? B::kAnd : B::kOr, x, Bin(rel[r.Below(6)], F(FT(), 0), F(FT(), 0)));
    return x;
  }
  P L(P x, double d) { return x->t == VT::kF32 ? Const(RetType(static_cast<float>(d))) : Const(RetType(d)); }
  P F(VT t, int depth) {
    if (depth <= 0) {
      P x = Leaf(t);
      return r.P(.1) ? Un(U::kMinus, x) : x;
    }
    auto s = [&] { return F(t, depth - 1 - static_cast<int>(r.Below(2))); };
    switch (r.Below(26)) {
      case 0: case 1: return Bin(B::kAdd, Bin(B::kMul, s(), s()), s());
      case 2: return Bin(B::kSub, Bin(B::kMul, s(), s()), Bin(B::kMul, s(), s()));
      case 3: { P a = s(), b = s(); return Bin(B::kSub, Bin(B::kAdd, a, b), a); }
      case 4: { P a = s(); return r.P(.5) ? Bin(B::kSub, a, a) : Bin(B::kDiv, a, a); }
      case 5: { P a = s(), b = s(); return Bin(B::kMul, Bin(B::kDiv, a, b), b); }
      case 6: { P a = s(); return Bin(B::kMul, a, Bin(B::kDiv, L(a, 1), s())); }
      case 7: { P a = s(); return r.P(.5) ? Bin(B::kAdd, a, L(a, 0)) : Bin(B::kSub, L(a, 0), a); }
      case 8: { P a = s(); return r.P(.5) ? Bin(B::kMul, a, L(a, 0)) : Bin(B::kMul, a, L(a, 1)); }
      case 9: { P a = s(); return Math("sqrt", r.P(.5) ? a : Bin(B::kMul, a, a), [](auto x) { return std::sqrt(x); }); }
      case 10: { P a = s(), b = s(), c = s(); return Bin(B::kAdd, Bin(B::kMul, a, c), Bin(B::kMul, b, c)); }
      case 11: { P a = s(); for (int i = 0; i < 4; ++i) a = Bin(B::kAdd, a, Leaf(t)); return a; }
      case 12: { P a = s(); for (int i = 0; i < 4; ++i) a = Bin(B::kMul, a, Leaf(t)); return a; }
      case 13: { P a = s(), b = s(); return If(Bin(r.P(.5) ? B::kLess : B::kLarge, a, b), r.P(.5) ? a : b, r.P(.5) ? b : a); }
      case 14: { P a = s(); return If(Bin(r.P(.5) ? B::kLess : B::kLargeEqual, a, L(a, 0)), r.P(.5) ? Un(U::kMinus, a) : a, r.P(.5) ? Un(U::kMinus, a) : a); }
      case 15: return If(C(depth), s(), s());
      case 16: return Switch({C(depth), s(), C(depth), s(), s()});
      case 17: return Un(r.P(.8) ? U::kMinus : U::kPlus, s());
      case 18: {  // through the other width, or through an integer type
        VT o = t == VT::kF32 ? VT::kF64 : VT::kF32;
        return Cast(F(o, depth - 1), t);
      }
      case 19: { P a = s(); return Bin(r.P(.5) ? B::kDiv : B::kMul, Bin(B::kDiv, a, Leaf(t)), Leaf(t)); }
      case 20: {  // mixed with the other width and with integers
        VT o = t == VT::kF32 ? (r.P(.5) ? VT::kI16 : VT::kI32) : (r.P(.5) ? VT::kF32 : VT::kI64);
        P b = IsFloat(o) ? F(o, depth - 1) : Leaf(o);
        B op = r.P(.5) ? B::kMul : r.P(.5) ? B::kAdd : B::kSub;
        P x = r.P(.5) ? Bin(op, s(), b) : Bin(op, b, s());
        return x->t == t ? x : Cast(x, t);
      }
      case 21: {
        P a = s();
        switch (r.Below(6)) {
          case 0: return Math("ceil", a, [](auto x) { return std::ceil(x); });
          case 1: return Math("floor", a, [](auto x) { return std::floor(x); });
          case 2: return Math("round", a, [](auto x) { return std::round(x); });
          case 3: return Math("trunc", a, [](auto x) { return std::trunc(x); });
          case 4: return Cast(Cast(a, VT::kI32), t);
          default: return Math("abs", a, [](auto x) { return std::fabs(x); });
        }
      }
      case 22: return Bin(fast ? B::kDiv : B::kMod, s(), s());
      default: return Bin(r.P(.5) ? B::kAdd : r.P(.5) ? B::kSub : r.P(.5) ? B::kMul : B::kDiv, s(), s());
    }
  }
  RetType InVal(VT t) {
    if (IsInt(t)) return Conv(RetType(static_cast<int32_t>(r.Range(fast ? 1 : -50, 50))), t);
    if (fast) {
      double d = r.P(.3) ? static_cast<double>(r.Range(1, 12)) : std::pow(10.0, static_cast<double>(r.Next() >> 11) / 9007199254740992.0 * 3 - 1.5);
      if (r.P(.15)) d = -d;
      return Conv(RetType(d), t);
    }
    if (r.P(.25)) return RandOf(r, t);
    static const double odd[] = {0, -0.0, 1, -1, 1e-310, 3e38, 1e300, INFINITY, -INFINITY, NAN, 1e-45, 5e-324};
    if (r.P(.12)) return Conv(RetType(odd[r.Below(12)]), t);
    return Conv(RetType((static_cast<double>(r.Next() >> 11) / 9007199254740992.0 - .4) * std::pow(10.0, static_cast<double>(r.Range(-3, 3)))), t);
  }
};

// ---- what fast mode may do: exact value x, magnitude m of the terms it is made of, error bound e --------------
struct Near {
  bool flt = false;
  RetType i;
  long double x = 0, m = 0, e = 0;
};
struct Skip {};
struct Bounder {
  const std::vector<RetType>& in;
  static long double Unit(VT t) { return t == VT::kF32 ? 0x1p-21L : 0x1p-49L; }  // a few roundings of the type, estimates included
  static Near Lift(const RetType& v) {
    Near n;
    n.flt = IsFloat(TypeOf(v));
    n.i = v;
    n.x = std::visit([](const auto& z) -> long double {
      if constexpr (std::is_arithmetic_v<std::decay_t<decltype(z)>>) return z;
      else throw Skip();
    }, v);
    n.m = fabsl(n.x);
    return n;
  }
  static Near Fin(Near n, VT t) {
    n.flt = true;
    n.e += Unit(t) * n.m;
    if (!(n.m < 1e15L) || n.e > 1e-2L * (n.m + 1e-9L)) throw Skip();
    if (n.m != 0 && fabsl(n.x) < 1e-12L && n.e != 0 && n.x != 0) throw Skip();
    return n;
  }
  static Near To(Near n, VT t) {  // conversion
    if (IsFloat(t)) return Fin(n, t);
    if (!n.flt) return Lift(Conv(n.i, t));
    long double a = truncl(n.x - 4 * n.e), b = truncl(n.x + 4 * n.e);
    if (a != b || fabsl(a) > 1e9L || (a < 0 && !IsSigned(t)) || a > 100) throw Skip();
    return Lift(Conv(RetType(static_cast<double>(a)), t));
  }
  static bool IsSigned(VT t) { return t == VT::kI8 || t == VT::kI16 || t == VT::kI32 || t == VT::kI64; }
  static bool Truth(const Near& n) {
    if (!n.flt) return Truthy(n.i);
    if (n.x == 0 && n.e == 0) return false;
    if (fabsl(n.x) <= 4 * n.e) throw Skip();
    return true;
  }
  static Near Bool(bool b) { return Lift(RetType(static_cast<uint8_t>(b))); }
  Near Eval(const P& n) {
    switch (n->k) {
      case NK::Const: return Lift(n->c);
      case NK::In: return Lift(in[n->id]);
      case NK::If: return To(Eval(n->ch[Truth(Eval(n->ch[0])) ? 1 : 2]), n->t);
      case NK::Switch: {
        size_t i = 0;
        for (; i + 1 < n->ch.size(); i += 2)
          if (Truth(Eval(n->ch[i]))) return To(Eval(n->ch[i + 1]), n->t);
        return To(Eval(n->ch.back()), n->t);
      }
      case NK::Un: {
        Near a = Eval(n->ch[0]);
        if (n->uop == U::kNot) return Bool(!Truth(a));
        if (!a.flt) return Lift(UnOp(n->uop, a.i));
        if (n->uop == U::kMinus) a.x = -a.x;
        return a;
      }
      case NK::Bin: {
        if (IsLogic(n->bop)) {
          bool l = Truth(Eval(n->ch[0]));
          if (n->bop == B::kAnd ? !l : l) return Bool(l);
          return Bool(Truth(Eval(n->ch[1])));
        }
        Near a = Eval(n->ch[0]), b = Eval(n->ch[1]);
        if (!a.flt && !b.flt) return Lift(BinOp(n->bop, a.i, b.i));
        VT t = JoinType(n->ch[0]->t, n->ch[1]->t);
        a = To(a, t);
        b = To(b, t);
        if (IsRel(n->bop)) {
          long double d = a.x - b.x, tol = 4 * (a.e + b.e);
          if (fabsl(d) <= tol && !(d == 0 && tol == 0)) throw Skip();
          switch (n->bop) {
            case B::kLarge: return Bool(d > 0);
            case B::kLargeEqual: return Bool(d >= 0);
            case B::kEqual: return Bool(d == 0);
            case B::kLess: return Bool(d < 0);
            case B::kLessEqual: return Bool(d <= 0);
            default: return Bool(d != 0);
          }
        }
        Near r;
        switch (n->bop) {
          case B::kAdd: r.x = a.x + b.x; r.m = a.m + b.m; r.e = a.e + b.e; break;
          case B::kSub: r.x = a.x - b.x; r.m = a.m + b.m; r.e = a.e + b.e; break;
          case B::kMul: r.x = a.x * b.x; r.m = a.m * b.m; r.e = a.e * b.m + a.m * b.e; break;
          case B::kDiv: {
            long double y = fabsl(b.x);
            if (y < 1e-6L || b.m > 100 * y || b.e > 1e-3L * y) throw Skip();
            r.x = a.x / b.x;
            r.m = a.m / y * (b.m / y);
            r.e = a.e / y + a.m * b.e / (y * y) * (b.m / y);
            break;
          }
          default: throw Skip();
        }
        return Fin(r, t);
      }
      case NK::Fn: {
        Near a = Eval(n->ch[0]);
        if (n->name.rfind("Cast", 0) == 0) return To(a, n->t);
        if (n->name == "abs") {
          a.x = fabsl(a.x);
          return a;
        }
        if (n->name == "sqrt") {
          if (a.x < 1e-6L || a.e > 1e-3L * a.x) throw Skip();
          Near r;
          r.x = sqrtl(a.x);
          r.m = r.x * (a.m / a.x);
          r.e = a.e / r.x;
          return Fin(r, n->t);
        }
        auto f = [&](long double z) { return n->name == "ceil" ? ceill(z) : n->name == "floor" ? floorl(z) : n->name == "round" ? roundl(z) : truncl(z); };
        if (f(a.x - 4 * a.e) != f(a.x + 4 * a.e)) throw Skip();
        Near r;
        r.x = f(a.x);
        r.m = fabsl(r.x);
        r.flt = true;
        return r;
      }
      default: throw Skip();
    }
  }
};

// ---- the engines -----------------------------------------------------------------------------------------
struct Runner {
  int kind;
  std::vector<P> es;
  std::unique_ptr<BatchExecEngine> batch;
  std::vector<std::unique_ptr<ExecEngine>> ones;
  std::vector<std::unique_ptr<athena::AthenaExpression>> exprs;
  std::unique_ptr<athena::AthenaPipeline> pipe;
  static const char* What(int k) {
    static const char* n[] = {"ExecEngine", "BatchExecEngine", "AthenaExpression", "AthenaPipeline", "loaded ExecEngine", "loaded BatchExecEngine"};
    return n[k];
  }
  bool vars = false;
  bool warm = false;  // every engine has compiled something else before
  Status Compile(bool strict) {
    auto o = Opt(strict, kind >= 4);
    auto other = [] { return Build(Bin(B::kAdd, Const(RetType(1.5)), In(VT::kF64, 1))); };
    Status st;
    std::vector<NodePtr> v;
    for (auto& e : es) v.push_back(Build(e));
    if (kind == 0 || kind == 4) {
      for (auto& n : v) {
        ones.push_back(std::make_unique<ExecEngine>(o));
        if (warm) (void)ones.back()->Compile(other(), Reg());
        st = ones.back()->Compile(n, Reg());
        if (!st.ok()) return st;
        if (kind == 4) {
          std::string blob;
          st = ones.back()->SaveCompiled(&blob);
          if (!st.ok()) return st;
          ones.back() = std::make_unique<ExecEngine>(Opt(strict));
          st = ones.back()->LoadCompiled(blob, Reg());
          if (!st.ok()) return st;
        }
      }
    } else if (kind == 1 || kind == 5) {
      batch = std::make_unique<BatchExecEngine>(o);
      if (warm) {
        std::vector<NodePtr> w;
        w.push_back(other());
        (void)batch->Compile(w, Reg());
      }
      st = batch->Compile(v, Reg());
      if (!st.ok() || kind == 1) return st;
      std::string blob;
      st = batch->SaveCompiled(&blob);
      if (!st.ok()) return st;
      batch = std::make_unique<BatchExecEngine>(Opt(strict));
      return batch->LoadCompiled(blob, Reg());
    } else if (kind == 2) {
      for (auto& e : es) {
        exprs.push_back(std::make_unique<athena::AthenaExpression>(o));
        if (warm) (void)exprs.back()->Compile("1.5 + ld_f64(entry_arg, 1);", Reg());
        st = exprs.back()->Compile(Text(e), Reg());
        if (!st.ok()) return st;
      }
    } else {
      pipe = std::make_unique<athena::AthenaPipeline>(o);
      if (warm) (void)pipe->Compile({"x = 1.5 + ld_f64(entry_arg, 1);"}, Reg());
      std::vector<Stmt> b;
      // terms that occur more than once become variables
      std::map<const Node*, int> uses;
      std::map<const Node*, P> names;
      std::function<void(const P&)> count = [&](const P& e) {
        if (uses[e.get()]++) return;
        for (auto& ch : e->ch) count(ch);
      };
      for (auto& e : es) count(e);
      std::function<P(const P&)> share = [&](const P& e) -> P {
        auto it = names.find(e.get());
        if (it != names.end()) return it->second;
        auto m = std::make_shared<Node>(*e);
        for (auto& ch : m->ch) ch = share(ch);
        if (!vars || uses[e.get()] < 2) return m;
        P v = RefN("v" + std::to_string(names.size()), e->t);
        b.push_back({v->name, false, m});
        return names[e.get()] = v;
      };
      for (size_t i = 0; i < es.size(); ++i) {
        P e = share(es[i]);
        b.push_back({"", false, StoreN(static_cast<int32_t>(i), e)});
      }
      return pipe->Compile({Text(Seq(b))}, Reg());
    }
    return st;
  }
  Status Run(void* in, std::vector<RetType>* out) {
    out->assign(es.size(), RetType());
    Status st;
    if (kind == 3) {
      auto o = std::make_unique<Out>();
      st = pipe->Execute(in, static_cast<void*>(o.get()));
      for (auto& r : Stored(*o)) {
        if (r.id < 0 || static_cast<size_t>(r.id) >= es.size()) continue;
        WithNum(r.t, [&](auto z) {
          memcpy(&z, r.raw, sizeof z);
          (*out)[r.id] = z;
        });
      }
      return st;
    }
    for (size_t i = 0; i < es.size(); ++i) {
      RetType& g = (*out)[i];
      if (batch) st = batch->ExecuteAt(i, in, &g);
      else if (!ones.empty()) st = ones[i]->Execute(in, &g);
      else st = exprs[i]->Execute(in, &g);
      if (!st.ok()) return st;
    }
    return st;
  }
};

static void One(Ctx& c) {
  Rng& r = c.rng;
  bool strict = r.P(.65);
  FGen g(r, !strict);
  for (int i = 0; i < 3; ++i) g.in.push_back(VT::kF32), g.in.push_back(VT::kF64);
  Runner run;
  run.kind = static_cast<int>(r.Below(7));
  if (run.kind == 6) run.kind = 3;
  run.warm = r.P(.2);
  run.vars = r.P(.7);
  size_t n = run.kind == 0 || run.kind == 2 || run.kind == 4 ? 3 : 6 + r.Below(10);
  std::string d = std::string(strict ? "strict " : "fast ") + Runner::What(run.kind) + "\n";
  for (size_t i = 0; i < n; ++i) {
    P e = r.P(.15) ? g.C(2) : g.F(g.FT(), 1 + static_cast<int>(r.Below(c.thorough ? 4 : 3)));
    run.es.push_back(e);
    d += Dump(e) + "\n";
  }
  c.Desc(d);
  Status st = run.Compile(strict);
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", "a well-typed expression was refused: " + st.ToString());
  }
  for (int q = 0; q < 14; ++q) {
    std::vector<RetType> in;
    for (VT t : g.in) in.push_back(g.InVal(t));
    std::vector<RetType> want(n);
    std::vector<Near> near(n);
    std::vector<char> judged(n, 0);
    bool any = false, all = true;
    for (size_t i = 0; i < n; ++i) {
      Machine m;
      bool ok = Reference(run.es[i], in, &m, &want[i]);
      all &= ok;  // outside the documented domain (float to integer out of range): not run
      if (!ok) continue;
      judged[i] = strict;
      if (!strict) try {
        near[i] = Bounder{in}.Eval(run.es[i]);
        judged[i] = true;
      } catch (Skip&) {
        c.Count("fast results not judged (ill-conditioned)");
      }
      any |= judged[i];
    }
    if (!any) continue;
    // not run: LLVM may do anything once a condition depends on such a value
    if (!all) {
      c.Count("runs left out: an entry outside its domain");
      continue;
    }
    Inputs inp(in);
    std::vector<RetType> got;
    st = run.Run(inp.Ptr(), &got);
    if (!st.ok()) c.Fail("status", st.ToString() + " on\n" + Dump(in));
    for (size_t i = 0; i < n; ++i) {
      if (!judged[i]) continue;
      if (TypeOf(got[i]) != run.es[i]->t) c.Fail("type", Dump(run.es[i]) + " gave a " + Name(TypeOf(got[i])));
      auto where = [&] { return std::string(strict ? "strict " : "fast ") + Runner::What(run.kind) + ": " + Dump(run.es[i]) + " on\n" + Dump(in); };
      if (strict) {
        if (!Same(got[i], want[i])) c.Fail("strict", where() + "got " + Show(got[i]) + ", IEEE " + Show(want[i]));
        c.Count("strict results compared bit for bit");
      } else if (near[i].flt) {
        long double x = Bounder::Lift(got[i]).x;
        if (!(fabsl(x - near[i].x) <= 4 * near[i].e + 1e-30L))
          c.Fail("fast", where() + "got " + Show(got[i]) + ", exact " + std::to_string(static_cast<double>(near[i].x)) + " +- " +
                             std::to_string(static_cast<double>(4 * near[i].e)));
        c.Count("fast results within their rounding bound");
        if (!Same(got[i], want[i])) c.Count("fast results that differ from strict arithmetic");
      } else {
        if (!Same(got[i], near[i].i)) c.Fail("fast", where() + "got " + Show(got[i]) + ", expected " + Show(near[i].i));
        c.Count("fast non-float results compared");
      }
      c.Nontrivial(Shape(run.es[i]) ^ vr::Hash(Show(got[i])));
    }
    if (!inp.Intact()) c.Fail("input-modified", Dump(in));
  }
  c.Count(std::string("cases on ") + Runner::What(run.kind));
  c.Sample(d);
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C17";
  p.quick_cases = 1000000;
  p.thorough_cases = 40000000;
  p.quick_secs = 22;
  p.thorough_secs = 500;
  p.hang_secs = 100;
  p.rule = "distinct float expressions (by shape) with their results: strict ones bit-exact against IEEE arithmetic, fast ones within the rounding bound";
  return vr::Main(argc, argv, p, [](Ctx& c) { One(c); });
}
