// Built-in list and string functions against models: signatures, inputs, and the monitored run.
#pragma once
#include <set>
#include "run.h"

namespace vj {
struct Err {};  // thrown by a model: the documented outcome is an execution error and an empty result

using Vals = std::vector<RetType>;
struct Sig {
  std::string name;
  std::vector<VT> args;
  VT ret;
  Model model;
  std::function<Vals(Rng&)> gen;  // default: DefaultGen
  double tol = 0;                 // relative tolerance for floating-point results
  std::function<bool(const RetType&, const RetType&, const Vals&)> cmp;
  bool free_len = false;          // lists need not have one length
  bool tie = false;               // values from a small set: duplicates and hits
  bool nan = true;                // NaN in the inputs is inside the documented domain
  bool negzero = true;            // -0.0 too
  bool quad = false;              // the model takes quadratic time: no very long lists
  std::function<P(std::vector<P>)> build = nullptr;  // when it is not simply name(args)
  std::string Text() const {
    std::string s = name + "(";
    for (size_t i = 0; i < args.size(); ++i) s += (i ? "," : "") + std::string(Name(args[i]));
    return s + ")";
  }
};
template <class T>
const T& As(const RetType& v) {
  return std::get<T>(v);
}
template <class T>
const std::vector<T>& L(const RetType& v) {
  return std::get<std::vector<T>>(v);
}
// big: the function (and its model) take time linear in the length
inline size_t FnLen(Rng& r, bool big = false) {
  if (big && r.P(.002)) return 65500 + r.Below(150);
  if (r.P(.03)) return 200 + r.Below(3000);
  return RandLen(r, 80);
}
inline RetType FnList(Rng& r, VT lt, size_t n, const Sig& s, bool tie) {
  RetType v = RandList(r, lt, n, tie ? 1 : s.nan ? 0 : 2);
  if (!s.negzero)
    std::visit(
        [](auto& x) {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, std::vector<float>> || std::is_same_v<T, std::vector<double>>)
            for (auto& e : x)
              if (e == 0) e = 0;
        },
        v);
  return v;
}
inline Vals DefaultGen(Rng& r, const Sig& s) {
  Vals v;
  size_t n = FnLen(r, !s.quad && !s.free_len);
  bool tie = s.tie ? r.P(.8) : r.P(.3);
  for (VT t : s.args) {
    if (IsList(t)) {
      size_t m = n;
      if (s.free_len ? r.P(.7) : r.P(.08)) m = s.free_len ? FnLen(r) : r.P(.5) ? n + 1 + r.Below(9) : n / 2;
      v.push_back(FnList(r, t, m, s, tie));
    } else if (IsNum(t) || t == VT::kString) {
      RetType one = FnList(r, ListOf(t), 1, s, tie);
      // often a value that occurs in one of the lists
      for (auto& w : v)
        if (TypeOf(w) == ListOf(t) && SizeOf(w) > 0 && r.P(.6))
          std::visit(
              [&](auto& x) {
                using T = std::decay_t<decltype(x)>;
                if constexpr (!std::is_arithmetic_v<T> && !std::is_same_v<T, std::string>)
                  std::get<T>(one)[0] = x[r.Below(x.size())];
              },
              w);
      std::visit(
          [&](auto& x) {
            using T = std::decay_t<decltype(x)>;
            if constexpr (!std::is_arithmetic_v<T> && !std::is_same_v<T, std::string>) v.push_back(RetType(x[0]));
          },
          one);
    }
  }
  return v;
}
inline Vals GenArgs(Rng& r, const Sig& s) { return s.gen ? s.gen(r) : DefaultGen(r, s); }

inline bool NearV(const RetType& a, const RetType& b, double tol) {
  if (a.index() != b.index()) return false;
  if (tol == 0) return Same(a, b);
  return std::visit(
      [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        const T& y = std::get<T>(b);
        if constexpr (std::is_arithmetic_v<T>) return NearE(x, y, tol);
        else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::vector<std::string>>) return x == y;
        else {
          if (x.size() != y.size()) return false;
          for (size_t i = 0; i < x.size(); ++i)
            if (!NearE(x[i], y[i], tol)) return false;
          return true;
        }
      },
      a);
}
inline bool Matches(const Sig& s, const RetType& got, const RetType& want, const Vals& a) {
  if (got.index() != want.index()) return false;
  if (s.cmp) return s.cmp(got, want, a);
  return NearV(got, want, s.tol);
}

// inputs inside the domain the documentation gives the function?
inline bool InDomain(const Sig& s, const Vals& a) {
  if (s.nan && s.negzero) return true;
  auto bad = [&](auto x) {
    if constexpr (std::is_floating_point_v<decltype(x)>)
      return (!s.nan && std::isnan(x)) || (!s.negzero && x == 0 && std::signbit(x));
    else return false;
  };
  for (auto& v : a)
    if (std::visit(
            [&](const auto& x) {
              using T = std::decay_t<decltype(x)>;
              if constexpr (std::is_arithmetic_v<T>) return bad(x);
              else if constexpr (std::is_same_v<T, std::vector<float>> || std::is_same_v<T, std::vector<double>>) {
                for (auto e : x)
                  if (bad(e)) return true;
                return false;
              } else return false;
            },
            v))
      return false;
  return true;
}

// Runs one signature (sometimes wrapped into another one) on many inputs.
struct FnRun {
  std::vector<Sig> sigs;
  std::set<std::string> seen;

  void Case(vr::Ctx& c) {
    Rng& r = c.rng;
    uint64_t k = c.idx % sigs.size();
    const Sig& s = sigs[k];
    const Sig* outer = nullptr;
    size_t pos = 0;
    if (s.tol == 0 && !s.cmp && r.P(.25)) {  // feed the result to another function
      for (int t = 0; t < 30 && !outer; ++t) {
        const Sig& o = sigs[r.Below(sigs.size())];
        for (size_t i = 0; i < o.args.size(); ++i)
          if (o.args[i] == s.ret && !o.gen) outer = &o, pos = i;
      }
    }
    // slots: args of s, then of outer
    std::vector<VT> types = s.args;
    if (outer)
      for (size_t i = 0; i < outer->args.size(); ++i)
        if (i != pos) types.push_back(outer->args[i]);
    std::vector<int> slot(types.size());
    std::vector<bool> lit(types.size());
    Vals fixed = Gen2(r, s, outer, pos);
    // a signature with its own generator has arguments that belong together
    bool joint = static_cast<bool>(s.gen), all_lit = r.P(.1);
    bool alias = !joint && s.args.size() >= 2 && r.P(.08);
    for (size_t i = 0; i < types.size(); ++i) {
      slot[i] = static_cast<int>(i);
      lit[i] = joint && i < s.args.size() ? all_lit : r.P(.15);
      if (alias)
        for (size_t j = 0; j < i; ++j)
          if (types[j] == types[i] && !lit[j]) slot[i] = slot[j], lit[i] = false;
    }
    auto leaf = [&](size_t i) { return lit[i] ? Const(fixed[i]) : In(types[i], slot[i]); };
    std::vector<P> a;
    for (size_t i = 0; i < s.args.size(); ++i) a.push_back(leaf(i));
    P e = s.build ? s.build(a) : Fn(s.name, a, s.ret, s.model);
    if (outer) {
      std::vector<P> b;
      size_t n = s.args.size();
      for (size_t i = 0; i < outer->args.size(); ++i) b.push_back(i == pos ? e : leaf(n++));
      e = outer->build ? outer->build(b) : Fn(outer->name, b, outer->ret, outer->model);
    }
    std::string what = s.Text() + (outer ? " inside " + outer->Text() : "");
    c.Desc(what + "\n" + Dump(e) + "\n");
    ExecEngineOption opt = Opt(r.P(.6));
    if (r.P(.7)) opt.exec_ctx_arena_alloc_min_chunk_size = 1;  // one heap block per allocation: ASan sees overruns
    ExecEngine eng(opt);
    Status st = eng.Compile(Build(e), Reg());
    if (!st.ok()) c.Fail("refused", what + ": a documented call does not compile: " + st.ToString());
    ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
    int runs = c.thorough ? 60 : 30;
    const Sig& top = outer ? *outer : s;
    for (int q = 0; q < runs; ++q) {
      Vals in = Gen2(r, s, outer, pos);
      for (size_t i = 0; i < types.size(); ++i) {
        if (lit[i]) in[i] = fixed[i];
        if (slot[i] != static_cast<int>(i)) in[i] = in[slot[i]];
      }
      RetType want;
      bool err = false;
      Vals ea;
      try {
        RetType inner = s.model(Vals(in.begin(), in.begin() + s.args.size()));
        if (outer) {
          size_t n = s.args.size();
          for (size_t i = 0; i < outer->args.size(); ++i) ea.push_back(i == pos ? inner : in[n++]);
          if (!InDomain(*outer, ea)) throw Undefined();
          want = outer->model(ea);
        } else {
          ea = in;
          want = inner;
        }
      } catch (const Undefined&) {
        c.Count("inputs outside the documented domain, skipped");
        continue;
      } catch (const Err&) {
        err = true;
      }
      Inputs inp(in);
      RetType got;
      c.Desc(what + "\n" + Dump(e) + "\n" + Dump(in));
      bool own = q % 2;
      st = own ? eng.Execute(ctx, inp.Ptr(), &got) : eng.Execute(inp.Ptr(), &got);
      if (!inp.Intact()) c.Fail("input modified", what + " changed its input\n" + Dump(in));
      if (err) {
        c.Count("calls that must report an error");
        if (st.ok()) c.Fail("error missed", what + ": no error reported; result " + Show(got));
        if (!outer && (TypeOf(got) != s.ret || SizeOf(got) != 0 || !IsList(s.ret)))
          c.Fail("error result", what + ": the result of a failed call is not empty: " + Show(got));
        continue;
      }
      if (!st.ok()) c.Fail("error", what + ": unexpected " + st.ToString());
      if (TypeOf(got) != top.ret) c.Fail("type", what + ": result type " + Name(TypeOf(got)) + ", documented " + Name(top.ret));
      if (!Matches(top, got, want, ea)) {
        c.Fail("value", what + ":\n got      " + Show(got) + "\n expected " + Show(want));
      }
      c.Count("results compared");
      if (outer) c.Count("composed results compared");
      size_t ln = 0;
      for (auto& v : in) ln = std::max(ln, SizeOf(v));
      c.Nontrivial(vr::Mix(vr::Hash(what) ^ std::min<size_t>(ln, 100)));
      if (q == 0 && c.idx < 40) c.Sample(c.cur_desc.substr(0, 300) + " = " + Show(got).substr(0, 200));
    }
    if (seen.insert(s.Text()).second) c.Count("signatures exercised (summed over workers)");
    if (lit[0]) c.Count("literal first arguments");
  }
  Vals Gen2(Rng& r, const Sig& s, const Sig* o, size_t pos) {
    Vals v = GenArgs(r, s);
    if (o) {
      Vals w = GenArgs(r, *o);
      for (size_t i = 0; i < w.size(); ++i)
        if (i != pos) v.push_back(w[i]);
    }
    return v;
  }
};
// With VJ_COLLECT the signatures of several harnesses are gathered for another one.
#ifdef VJ_COLLECT
#define FN_MAIN(n) int FnCollect##n
inline std::vector<std::function<void(FnRun&)>> g_fills;
#else
#define FN_MAIN(n) int main
#endif
inline int FnMain(int argc, char** argv, vr::Plan p, std::function<void(FnRun&)> fill) {
#ifdef VJ_COLLECT
  g_fills.push_back(fill);
  return 0;
#endif
  auto run = std::make_shared<FnRun>();
  fill(*run);
  uint64_t rounds = 12;
  p.quick_cases = run->sigs.size() * rounds;
  p.thorough_cases = run->sigs.size() * rounds * 60;
  return vr::Main(argc, argv, p, [run](vr::Ctx& c) { run->Case(c); });
}
}  // namespace vj
