// C06: element-wise list functions.
#include <charconv>
#include "common/fn.h"
using namespace vj;
namespace {

template <class T, class F>
Model LS(F f) {  // list, scalar
  return [f](const Vals& a) -> RetType {
    auto v = L<T>(a[0]);
    T s = As<T>(a[1]);
    for (auto& x : v) x = f(x, s);
    return v;
  };
}
template <class T, class F>
Model LL(F f) {
  return [f](const Vals& a) -> RetType {
    auto v = L<T>(a[0]);
    auto& w = L<T>(a[1]);
    if (v.size() != w.size()) throw Err();
    for (size_t i = 0; i < v.size(); ++i) v[i] = f(v[i], w[i]);
    return v;
  };
}
template <class T>
void Fill(FnRun& R) {
  constexpr VT t = TypeOfC<T>();
  const VT l = ListOf(t);
  constexpr bool F = std::is_floating_point_v<T>;
  auto both = [&](const char* n, B op) {
    auto f = [op](T a, T b) { return std::get<T>(ArithC<T>(op, a, b)); };
    Sig s{n, {l, t}, l, LS<T>(f)};
    Sig q{n, {l, l}, l, LL<T>(f)};
    if ((op == B::kDiv || op == B::kMod) && !F) {  // no zero divisors, no MIN / -1
      auto fix = [](T& x) {
        if (x == 0 || x == static_cast<T>(-1)) x = 3;
      };
      Sig base = s;
      s.gen = [base, fix](Rng& r) {
        Vals v = DefaultGen(r, base);
        fix(std::get<T>(v[1]));
        return v;
      };
      Sig qb = q;
      q.gen = [qb, fix](Rng& r) {
        Vals v = DefaultGen(r, qb);
        for (auto& x : std::get<std::vector<T>>(v[1])) fix(x);
        return v;
      };
    }
    R.sigs.push_back(s);
    R.sigs.push_back(q);
  };
  both("ListAdd", B::kAdd);
  both("ListSub", B::kSub);
  both("ListMul", B::kMul);
  both("ListDiv", B::kDiv);
  if constexpr (!F) {
    both("ListMod", B::kMod);
    both("ListBitwiseAnd", B::kBitwiseAnd);
    both("ListBitwiseOr", B::kBitwiseOr);
    both("ListBitwiseXor", B::kBitwiseXor);
  }
  for (bool mx : {false, true}) {
    Sig s{mx ? "ListMax" : "ListMin", {l, t}, l, LS<T>([mx](T a, T b) { return mx ? (a > b ? a : b) : (a < b ? a : b); })};
    s.nan = s.negzero = false;
    R.sigs.push_back(s);
  }
  using O = std::conditional_t<std::is_same_v<T, float>, float, double>;
  auto un = [&](const char* n, O (*f)(O)) {
    Sig s{n, {l}, ListOf(TypeOfC<O>()), [f](const Vals& a) -> RetType {
            std::vector<O> o;
            for (T x : L<T>(a[0])) o.push_back(f(static_cast<O>(x)));
            return o;
          }};
    s.tol = std::is_same_v<O, float> ? 5e-7 : 1e-14;
    R.sigs.push_back(s);
  };
  un("ListExp", [](O x) -> O { return std::exp(x); });
  un("ListLog", [](O x) -> O { return std::log(x); });
  un("ListLog2", [](O x) -> O { return std::log2(x); });
  un("ListLog10", [](O x) -> O { return std::log10(x); });
  if constexpr (F) {
    auto ex = [&](const char* n, T (*f)(T)) {
      R.sigs.push_back({n, {l}, l, [f](const Vals& a) -> RetType {
                          auto v = L<T>(a[0]);
                          for (auto& x : v) x = f(x);
                          return v;
                        }});
    };
    ex("ListCeil", [](T x) -> T { return std::ceil(x); });
    ex("ListFloor", [](T x) -> T { return std::floor(x); });
    ex("ListRound", [](T x) -> T { return std::round(x); });
  }
  // casts from this type
  for (VT to : kNums) {
    if (to == t) continue;
    Sig s{"Cast" + CapName(ListOf(to)), {l}, ListOf(to), [to](const Vals& a) -> RetType {
            return WithNum(to, [&](auto z) -> RetType {
              using D = decltype(z);
              std::vector<D> o;
              for (T x : L<T>(a[0])) o.push_back(ConvC<D>(x));
              return o;
            });
          }};
    if (F && IsInt(to)) {
      s.gen = [to](Rng& r) {  // in range for the target
        std::vector<T> v(FnLen(r, true));
        for (auto& x : v)
          WithNum(to, [&](auto z) {
            using D = decltype(z);
            if constexpr (std::is_integral_v<D>) {
              x = static_cast<T>(RandNum<D>(r)) + static_cast<T>(r.Below(4)) / 4;
              try {
                ConvC<D>(x);
              } catch (const Undefined&) {
                x = static_cast<T>(r.Range(0, 100)) + static_cast<T>(.75);
              }
            }
          });
        return Vals{v};
      };
    }
    R.sigs.push_back(s);
  }
  {
    Sig s{"CastStringList", {l}, VT::kStringList, [](const Vals& a) -> RetType {
            std::vector<std::string> o;
            for (T x : L<T>(a[0])) {
              if constexpr (F) o.push_back("");
              else o.push_back(std::to_string(+x));
            }
            return o;
          }};
    if constexpr (F)  // the text must read back as the same number; its form is not documented
      s.cmp = [](const RetType& got, const RetType&, const Vals& a) {
        auto& g = L<std::string>(got);
        auto& x = L<T>(a[0]);
        if (g.size() != x.size()) return false;
        for (size_t i = 0; i < g.size(); ++i) {
          char* end;
          if (g[i].empty() || g[i].find('\0') != std::string::npos) return false;
          T y = std::is_same_v<T, float> ? static_cast<T>(std::strtof(g[i].c_str(), &end))
                                         : static_cast<T>(std::strtod(g[i].c_str(), &end));
          if (*end || !(SameE(y, x[i]))) return false;
        }
        return true;
      };
    R.sigs.push_back(s);
  }
  if constexpr (!F) {
    Sig s{"Cast" + CapName(l), {VT::kStringList}, l, [](const Vals& a) -> RetType {
            std::vector<T> o;
            for (auto& x : L<std::string>(a[0])) {
              T v = 0;
              std::from_chars(x.data(), x.data() + x.size(), v);  // documented
              o.push_back(v);
            }
            return o;
          }};
    s.gen = [](Rng& r) {
      std::vector<std::string> v(FnLen(r, true));
      for (auto& x : v) {
        T n = RandNum<T>(r);
        x = std::to_string(+n);
        if (r.P(.2)) x = RandStr(r);
        if (r.P(.1)) x += RandStr(r);
        if (r.P(.05)) x += "0000";
        if (r.P(.05)) x = "-" + x;
        if (r.P(.05)) x = "000" + x;
      }
      return Vals{v};
    };
    R.sigs.push_back(s);
  }
}
}  // namespace

FN_MAIN(06)(int argc, char** argv) {
  vr::Plan p;
  p.id = "C06";
  p.quick_secs = 20;
  p.thorough_secs = 900;
  p.rule = "distinct (signature or composition, list length) pairs whose result was compared with the model";
  return FnMain(argc, argv, p, [](FnRun& R) {
#define X(K, C, S, N) Fill<C>(R);
    VJ_NUM(X)
#undef X
  });
}
