// C08: aggregates, sorting, distinct values, groups.
#include <map>

#include "common/fn.h"
using namespace vj;
namespace {
using Ids = std::vector<uint32_t>;

// lists whose sums are well defined whatever the order of additions
template <class T>
std::vector<T> SumList(Rng& r, size_t n) {
  std::vector<T> v(n);
  bool small = r.P(.4);
  for (auto& x : v) {
    if constexpr (std::is_floating_point_v<T>) {
      x = small ? SmallNum<T>(r) : static_cast<T>((static_cast<double>(r.Next() >> 11) / 9007199254740992.0 - .5) * std::pow(10.0, r.Range(-6, 8)));
    } else {
      x = small ? SmallNum<T>(r) : RandNum<T>(r);
      if (std::is_same_v<T, int64_t>) x = static_cast<T>(x >> 14);
    }
  }
  if constexpr (std::is_floating_point_v<T>)
    if (n && r.P(.06)) v[r.Below(n)] = r.P(.5) ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
  return v;
}
template <class T>
using Acc = std::conditional_t<std::is_floating_point_v<T>, double, std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>>;
template <class T>
Acc<T> SumOf(const std::vector<T>& v) {
  if constexpr (std::is_floating_point_v<T>) {
    double s = 0;
    for (T x : v) s += static_cast<double>(x);
    return s;
  } else {
    uint64_t s = 0;
    for (T x : v) s += static_cast<uint64_t>(x);
    return static_cast<Acc<T>>(s);
  }
}
template <class T>
double AbsOf(const std::vector<T>& v) {
  double s = 0;
  for (T x : v) s += std::fabs(static_cast<double>(x));
  return s;
}
template <class T>
bool SumNear(double got, double want, const std::vector<T>& v) {
  return NearE<double>(got, want, 0, std::isfinite(AbsOf(v)) ? AbsOf(v) * 2.3e-16 * (2.0 + v.size()) : 0);
}
template <class T>
double AvgOf(const std::vector<T>& v) {
  if (v.empty()) return 0;
  double s = 0;
  for (T x : v) s += static_cast<double>(x);
  return s / v.size();
}
template <class T>
double MedianOf(std::vector<T> v) {
  if (v.empty()) return 0;
  std::sort(v.begin(), v.end());
  size_t m = v.size() / 2;
  if (v.size() % 2) return static_cast<double>(v[m]);
  return (static_cast<double>(v[m - 1]) + static_cast<double>(v[m])) / 2;
}
template <class T>
Ids IndexOf(const std::vector<T>& keys) {
  Ids o;
  if (keys.size() > 300) {  // no NaN here; -0.0 and 0.0 are one key for < as for ==
    std::map<T, uint32_t> ids;
    for (auto& k : keys) o.push_back(ids.emplace(k, ids.size()).first->second);
    return o;
  }
  std::vector<T> seen;
  for (auto& k : keys) {
    size_t i = 0;
    while (i < seen.size() && !(seen[i] == k)) ++i;
    if (i == seen.size()) seen.push_back(k);
    o.push_back(i);
  }
  return o;
}
template <class T>
std::vector<std::vector<T>> Split(const std::vector<T>& v, const Ids& g) {
  std::vector<std::vector<T>> o;
  for (size_t i = 0; i < v.size(); ++i) {
    if (g[i] >= o.size()) o.resize(g[i] + 1);
    o[g[i]].push_back(v[i]);
  }
  return o;
}
static Ids RandIds(Rng& r, size_t n) {
  Ids o;
  uint32_t next = 0;
  double p = r.P(.3) ? .9 : r.P(.5) ? .3 : .05;
  if (n > 60000) p = r.P(.4) ? 1 : r.P(.6) ? .00001 : .01;  // counts and numbers of groups beyond 16 bits
  for (size_t i = 0; i < n; ++i) o.push_back(next == 0 || r.P(p) ? next++ : r.Below(next));
  return o;
}
template <class T>
void Keys(FnRun& R) {  // functions over keys: numbers and strings
  constexpr VT t = TypeOfC<T>();
  const VT l = ListOf(t);
  Sig u{"Unique", {l}, l, [](const Vals& a) -> RetType {
          std::vector<T> o;
          Ids g = IndexOf(L<T>(a[0]));
          for (size_t i = 0; i < g.size(); ++i)
            if (g[i] == o.size()) o.push_back(L<T>(a[0])[i]);
          return o;
        }};
  u.tie = true;
  u.nan = false;
  R.sigs.push_back(u);
  Sig gi{"GroupIndex", {l}, VT::kU32List, [](const Vals& a) -> RetType { return IndexOf(L<T>(a[0])); }};
  gi.tie = true;
  gi.nan = false;
  R.sigs.push_back(gi);
  for (bool cnt : {false, true}) {  // the three-argument form takes the number of groups
    Sig k{"GroupKeys", {l, VT::kU32List}, l, [](const Vals& a) -> RetType {
            auto& v = L<T>(a[0]);
            auto& g = L<uint32_t>(a[1]);
            if (v.size() != g.size()) throw Err();
            std::vector<T> o;
            uint32_t next = 0;
            for (size_t i = 0; i < v.size(); ++i)
              if (g[i] == next) o.push_back(v[i]), ++next;
            return o;
          }};
    Sig base = k;
    k.gen = [base, cnt](Rng& r) {
      size_t n = FnLen(r, true);
      Vals v{FnList(r, base.args[0], r.P(.06) ? n + 1 : n, base, r.P(.5)), RandIds(r, n)};
      if (cnt) {
        uint32_t m = 0;
        for (uint32_t g : L<uint32_t>(v[1])) m = std::max(m, g + 1);
        v.push_back(m);
      }
      return v;
    };
    if (cnt) k.args.push_back(VT::kU32);
    R.sigs.push_back(k);
  }
  {  // the whole idiom: keys of the groups of the keys
    Sig s{"GroupKeys(k, GroupIndex(k))", {l}, l, u.model};
    s.tie = true;
    s.nan = false;
    s.build = [l](std::vector<P> a) {
      return Fn("GroupKeys", {a[0], Fn("GroupIndex", {a[0]}, VT::kU32List, nullptr)}, l, nullptr);
    };
    R.sigs.push_back(s);
    Sig c{"GroupCount(GroupIndex(k))", {l}, VT::kU32, [](const Vals& a) -> RetType {
            uint32_t m = 0;
            for (uint32_t g : IndexOf(L<T>(a[0]))) m = std::max(m, g + 1);
            return m;
          }};
    c.tie = true;
    c.nan = false;
    c.build = [](std::vector<P> a) {
      return Fn("GroupCount", {Fn("GroupIndex", {a[0]}, VT::kU32List, nullptr)}, VT::kU32, nullptr);
    };
    R.sigs.push_back(c);
  }
}
template <class T>
void Fill(FnRun& R) {
  constexpr VT t = TypeOfC<T>();
  const VT l = ListOf(t);
  constexpr bool F = std::is_floating_point_v<T>;
  using A = Acc<T>;
  const VT at = TypeOfC<A>();
  auto sums = [](Rng& r) { return Vals{SumList<T>(r, FnLen(r, true))}; };
  {
    Sig s{"Sum", {l}, at, [](const Vals& a) -> RetType { return SumOf(L<T>(a[0])); }, sums};
    if constexpr (F) s.cmp = [](const RetType& g, const RetType& w, const Vals& a) { return SumNear(As<double>(g), As<double>(w), L<T>(a[0])); };
    R.sigs.push_back(s);
    Sig v{"Avg", {l}, VT::kF64, [](const Vals& a) -> RetType { return AvgOf(L<T>(a[0])); }, sums};
    v.cmp = [](const RetType& g, const RetType& w, const Vals& a) {
      double n = std::max<size_t>(1, SizeOf(a[0]));
      return SumNear(As<double>(g) * n, As<double>(w) * n, L<T>(a[0]));
    };
    R.sigs.push_back(v);
  }
  for (bool mx : {false, true}) {
    Sig s{mx ? "Max" : "Min", {l}, t, [mx](const Vals& a) -> RetType {
            auto& v = L<T>(a[0]);
            T m = v.empty() ? T{} : v[0];
            for (T x : v)
              if (mx ? x > m : x < m) m = x;
            return m;
          }};
    s.nan = s.negzero = false;
    R.sigs.push_back(s);
    Sig q{mx ? "SortDesc" : "SortAsc", {l}, l, [mx](const Vals& a) -> RetType {
            auto v = L<T>(a[0]);
            std::stable_sort(v.begin(), v.end(), [mx](T x, T y) { return mx ? x > y : x < y; });
            return v;
          }};
    q.nan = q.negzero = false;
    R.sigs.push_back(q);
  }
  {
    Sig s{"CountDistinct", {l}, VT::kU32, [](const Vals& a) -> RetType {
            uint32_t m = 0;
            for (uint32_t g : IndexOf(L<T>(a[0]))) m = std::max(m, g + 1);
            return m;
          }};
    s.tie = true;
    s.nan = false;
    R.sigs.push_back(s);
  }
  auto medcmp = [](const RetType& g, const RetType& w, const Vals& a) {
    double m = 0;
    for (T x : L<T>(a[0]))
      if (std::isfinite(static_cast<double>(x))) m = std::max(m, std::fabs(static_cast<double>(x)));
    double x = As<double>(g), y = As<double>(w);
    if (std::isnan(y) || std::isinf(y)) return SameE(x, y);
    return std::fabs(x - y) <= std::min(m, std::fabs(y) * 4 + 1) * 1e-15;
  };
  for (bool sorted : {false, true}) {
    Sig s{sorted ? "SortedMedian" : "Median", {l}, VT::kF64, [](const Vals& a) -> RetType { return MedianOf(L<T>(a[0])); }};
    s.gen = [sorted](Rng& r) {
      auto v = SumList<T>(r, FnLen(r, true));
      if constexpr (F)
        for (auto& x : v)
          if (std::isnan(x)) x = 1;
      if (sorted) std::sort(v.begin(), v.end());
      return Vals{v};
    };
    s.cmp = medcmp;
    R.sigs.push_back(s);
  }
  {
    Sig s{"SortedMedian(SortAsc(v))", {l}, VT::kF64, [](const Vals& a) -> RetType { return MedianOf(L<T>(a[0])); }};
    s.gen = [](Rng& r) {
      auto v = SumList<T>(r, FnLen(r, true));
      if constexpr (F)
        for (auto& x : v)
          if (std::isnan(x)) x = 1;
      return Vals{v};
    };
    s.cmp = medcmp;
    s.build = [l](std::vector<P> a) { return Fn("SortedMedian", {Fn("SortAsc", {a[0]}, l, nullptr)}, VT::kF64, nullptr); };
    R.sigs.push_back(s);
  }
  // groups: given an index, and through GroupIndex(keys)
  for (int form = 0; form < 3; ++form) {  // 0: two arguments, 1: three, 2: keys
    auto gen = [form](bool sum) {
      return [form, sum](Rng& r) {
        size_t n = FnLen(r, true), m = r.P(.06) ? n + 1 + r.Below(3) : n;
        std::vector<T> v = SumList<T>(r, m);
        if (!sum)
          for (auto& x : v) {
            if (r.P(.3)) x = RandNum<T>(r, false);
            if constexpr (F)
              if (std::isnan(x) || x == 0) x = 0;
          }
        Vals o{v};
        if (form == 2) {
          o.push_back(RandList(r, VT::kStringList, n, 1));
          return o;
        }
        Ids g = RandIds(r, n);
        o.push_back(g);
        uint32_t c = 0;
        for (uint32_t x : g) c = std::max(c, x + 1);
        if (form == 1) o.push_back(c);
        return o;
      };
    };
    std::vector<VT> at_args{l, form == 2 ? VT::kStringList : VT::kU32List};
    if (form == 1) at_args.push_back(VT::kU32);
    auto ids = [form](const Vals& a) {
      Ids g = form == 2 ? IndexOf(L<std::string>(a[1])) : L<uint32_t>(a[1]);
      if (g.size() != SizeOf(a[0])) throw Err();
      return g;
    };
    auto build = [form](std::string f, VT ret) -> std::function<P(std::vector<P>)> {
      if (form != 2) return nullptr;
      return [f, ret](std::vector<P> a) {
        return Fn(f, {a[0], Fn("GroupIndex", {a[1]}, VT::kU32List, nullptr)}, ret, nullptr);
      };
    };
    std::string tail = form == 2 ? " of GroupIndex" : "";
    Sig s{"GroupSum", at_args, ListOf(at), [ids](const Vals& a) -> RetType {
            std::vector<A> o;
            for (auto& g : Split(L<T>(a[0]), ids(a))) o.push_back(SumOf(g));
            return o;
          }};
    s.gen = gen(true);
    s.build = build("GroupSum", ListOf(at));
    if constexpr (F)
      s.cmp = [ids](const RetType& g, const RetType& w, const Vals& a) {
        auto sp = Split(L<T>(a[0]), ids(a));
        auto &x = L<double>(g), &y = L<double>(w);
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); ++i)
          if (!SumNear(x[i], y[i], sp[i])) return false;
        return true;
      };
    R.sigs.push_back(s);
    Sig v{"GroupAvg", at_args, VT::kF64List, [ids](const Vals& a) -> RetType {
            std::vector<double> o;
            for (auto& g : Split(L<T>(a[0]), ids(a))) o.push_back(AvgOf(g));
            return o;
          }};
    v.gen = gen(true);
    v.build = build("GroupAvg", VT::kF64List);
    v.cmp = [ids](const RetType& g, const RetType& w, const Vals& a) {
      auto sp = Split(L<T>(a[0]), ids(a));
      auto &x = L<double>(g), &y = L<double>(w);
      if (x.size() != y.size()) return false;
      for (size_t i = 0; i < x.size(); ++i)
        if (!SumNear(x[i] * sp[i].size(), y[i] * sp[i].size(), sp[i])) return false;
      return true;
    };
    R.sigs.push_back(v);
    for (bool mx : {false, true}) {
      Sig m{mx ? "GroupMax" : "GroupMin", at_args, l, [ids, mx](const Vals& a) -> RetType {
              std::vector<T> o;
              for (auto& g : Split(L<T>(a[0]), ids(a))) o.push_back(mx ? *std::max_element(g.begin(), g.end()) : *std::min_element(g.begin(), g.end()));
              return o;
            }};
      m.gen = gen(false);
      m.build = build(m.name, l);
      R.sigs.push_back(m);
    }
  }
}
}  // namespace

FN_MAIN(08)(int argc, char** argv) {
  vr::Plan p;
  p.id = "C08";
  p.quick_secs = 20;
  p.thorough_secs = 900;
  p.rule = "distinct (signature or composition, list length) pairs whose result was compared with the model";
  return FnMain(argc, argv, p, [](FnRun& R) {
#define X(K, C, S, N) Fill<C>(R), Keys<C>(R);
    VJ_NUM(X)
#undef X
    Keys<std::string>(R);
    Sig s{"GroupCount", {VT::kU32List}, VT::kU32, [](const Vals& a) -> RetType {
            uint32_t m = 0;
            for (uint32_t g : L<uint32_t>(a[0])) m = std::max(m, g + 1);
            return m;
          }};
    s.gen = [](Rng& r) { return Vals{RandIds(r, FnLen(r, true))}; };
    for (int k = 0; k < 3; ++k) R.sigs.push_back(s);
    // also decided by C07 and C09
    Sig cb{"CountBits", {VT::kU8List}, VT::kU32, [](const Vals& a) -> RetType {
             uint32_t n = 0;
             for (uint8_t b : L<uint8_t>(a[0])) n += __builtin_popcount(b);
             return n;
           }};
    for (int k = 0; k < 3; ++k) R.sigs.push_back(cb);
  });
}
