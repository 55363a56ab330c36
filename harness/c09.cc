// C09: membership, lookup, indexing, slicing, strings, hashing.
#include "common/fn.h"
using namespace vj;
namespace {

static uint32_t Murmur32(const uint8_t* d, size_t n, uint32_t seed) {  // the published algorithm
  auto rot = [](uint32_t x, int k) { return (x << k) | (x >> (32 - k)); };
  uint32_t h = seed;
  size_t i = 0;
  for (; i + 4 <= n; i += 4) {
    uint32_t k = d[i] | d[i + 1] << 8 | d[i + 2] << 16 | static_cast<uint32_t>(d[i + 3]) << 24;
    h = rot(h ^ rot(k * 0xcc9e2d51u, 15) * 0x1b873593u, 13) * 5 + 0xe6546b64u;
  }
  uint32_t k = 0;
  for (size_t j = n & 3; j-- > 0;) k = k << 8 | d[i + j];
  h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
  h ^= static_cast<uint32_t>(n);
  h ^= h >> 16;
  h *= 0x85ebca6bu;
  h ^= h >> 13;
  h *= 0xc2b2ae35u;
  return h ^ h >> 16;
}
constexpr uint32_t kMiss = 0xffffffffu;
template <class T>
uint32_t FindIn(const std::vector<T>& v, const T& x) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] == x) return i;
  return kMiss;
}
static uint32_t RandIdx(Rng& r, size_t n) {
  switch (r.Below(8)) {
    case 0: return kMiss;
    case 1: return static_cast<uint32_t>(n);
    case 2: return static_cast<uint32_t>(r.Next());
    case 3: return 0x80000000u + r.Below(10);
    case 4: return static_cast<uint32_t>(n + r.Below(9));
    default: return n ? r.Below(n) : 0;
  }
}
template <class T>
void Fill(FnRun& R) {
  constexpr VT t = TypeOfC<T>();
  const VT l = ListOf(t);
  auto add = [&](Sig s) { R.sigs.push_back(s); };
  auto with_idx = [](Sig base) {
    return [base](Rng& r) {
      size_t n = FnLen(r, true);
      return Vals{FnList(r, base.args[0], n, base, r.P(.3)), RandIdx(r, n)};
    };
  };
  {
    Sig s{"ListConcat", {l, l}, l, [](const Vals& a) -> RetType {
            auto v = L<T>(a[0]);
            auto& w = L<T>(a[1]);
            v.insert(v.end(), w.begin(), w.end());
            return v;
          }};
    s.free_len = true;
    add(s);
  }
  {
    Sig s{"in", {t, l}, VT::kU8, [](const Vals& a) -> RetType { return static_cast<uint8_t>(FindIn(L<T>(a[1]), As<T>(a[0])) != kMiss); }};
    s.gen = [](Rng& r) {
      Sig b{"", {}, VT::kU8};
      b.nan = r.P(.3);
      auto v = L<T>(FnList(r, ListOf(TypeOfC<T>()), FnLen(r, true), b, r.P(.6)));
      T x = v.size() && r.P(.5) ? v[r.P(.3) ? v.size() - 1 : r.Below(v.size())] : L<T>(FnList(r, ListOf(TypeOfC<T>()), 1, b, r.P(.6)))[0];
      if constexpr (std::is_same_v<T, std::string>) {
        if (v.size() && v.size() < 40 && r.P(.3)) {
          x = NearStr(r, v[r.Below(v.size())]);
          if (r.P(.5) && x.size() > 1) x[x.size() - 2] = 0, v[r.Below(v.size())] = x, x.back() ^= 3;
        }
      }
      return Vals{x, v};
    };
    add(s);
  }
  add({"Len", {l}, VT::kU32, [](const Vals& a) -> RetType { return static_cast<uint32_t>(L<T>(a[0]).size()); }});
  {
    Sig s{"Truncate", {l, VT::kU32}, l, [](const Vals& a) -> RetType {
            auto v = L<T>(a[0]);
            if (As<uint32_t>(a[1]) < v.size()) v.resize(As<uint32_t>(a[1]));
            return v;
          }};
    s.gen = with_idx(s);
    add(s);
  }
  if constexpr (!std::is_same_v<T, std::string>) {
    Sig s{"GetAt", {l, VT::kU32}, t, [](const Vals& a) -> RetType {
            auto& v = L<T>(a[0]);
            return As<uint32_t>(a[1]) < v.size() ? v[As<uint32_t>(a[1])] : T{};
          }};
    s.gen = with_idx(s);
    add(s);
    add({"MurmurHash3X8632", {l}, VT::kU32, [](const Vals& a) -> RetType {
           auto& v = L<T>(a[0]);
           return Murmur32(reinterpret_cast<const uint8_t*>(v.data()), v.size() * sizeof(T), 0x9747b28c);
         }});
  }
  {
    Sig s{"ListLookupIndex", {l, l}, VT::kU32List, [](const Vals& a) -> RetType {
            std::vector<uint32_t> o;
            for (auto& x : L<T>(a[0])) o.push_back(FindIn(L<T>(a[1]), x));
            return o;
          }};
    s.free_len = true;
    s.tie = true;
    add(s);
    // two lookups that share the table, one after the other
    Sig d{"ListLookupIndex twice", {l, l, l}, VT::kU32List, [](const Vals& a) -> RetType {
            std::vector<uint32_t> o;
            for (auto& x : L<T>(a[0])) o.push_back(FindIn(L<T>(a[1]), x));
            for (auto& x : L<T>(a[2])) o.push_back(FindIn(L<T>(a[1]), x));
            return o;
          }};
    d.free_len = true;
    d.tie = true;
    d.build = [](std::vector<P> a) {
      auto f = [&](P x) { return Fn("ListLookupIndex", {x, a[1]}, VT::kU32List, nullptr); };
      return Fn("ListConcat", {f(a[0]), f(a[2])}, VT::kU32List, nullptr);
    };
    add(d);
    // a join: gather the b side at the positions of the a side
    Sig j{"ListGather(b, ListLookupIndex(a, k), d)", {l, l, l, t}, l, [](const Vals& a) -> RetType {
            std::vector<T> o;
            auto& b = L<T>(a[2]);
            for (auto& x : L<T>(a[0])) {
              uint32_t i = FindIn(L<T>(a[1]), x);
              o.push_back(i < b.size() ? b[i] : As<T>(a[3]));
            }
            return o;
          }};
    j.free_len = true;
    j.tie = true;
    j.build = [l](std::vector<P> a) {
      return Fn("ListGather", {a[2], Fn("ListLookupIndex", {a[0], a[1]}, VT::kU32List, nullptr), a[3]}, l, nullptr);
    };
    add(j);
  }
  {
    Sig s{"Find", {l, t}, VT::kU32, [](const Vals& a) -> RetType { return FindIn(L<T>(a[0]), As<T>(a[1])); }};
    s.tie = true;
    add(s);
    Sig q{"FindSorted", {l, t}, VT::kU32, s.model};
    q.nan = false;
    Sig base = q;
    base.tie = true;
    q.gen = [base](Rng& r) {
      Vals v = DefaultGen(r, base);
      auto& x = std::get<std::vector<T>>(v[0]);
      std::sort(x.begin(), x.end());
      return v;
    };
    add(q);
    Sig h{"Find(..) == FindMiss()", {l, t}, VT::kU8, [](const Vals& a) -> RetType {
            return static_cast<uint8_t>(FindIn(L<T>(a[0]), As<T>(a[1])) == kMiss);
          }};
    h.tie = true;
    h.build = [](std::vector<P> a) {
      return Bin(B::kEqual, Fn("Find", {a[0], a[1]}, VT::kU32, nullptr), Fn("FindMiss", {}, VT::kU32, nullptr));
    };
    add(h);
  }
  {
    Sig s{"ListGather", {l, VT::kU32List, t}, l, [](const Vals& a) -> RetType {
            std::vector<T> o;
            auto& v = L<T>(a[0]);
            for (uint32_t i : L<uint32_t>(a[1])) o.push_back(i < v.size() ? v[i] : As<T>(a[2]));
            return o;
          }};
    Sig base = s;
    s.gen = [base](Rng& r) {
      size_t n = FnLen(r, true);
      std::vector<uint32_t> idx(FnLen(r, true));
      for (auto& i : idx) i = RandIdx(r, n);
      return Vals{FnList(r, base.args[0], n, base, r.P(.3)), idx, L<T>(FnList(r, base.args[0], 1, base, false))[0]};
    };
    add(s);
  }
  if constexpr (!std::is_same_v<T, std::string>) {
    Sig s{"Bucketize", {l, l}, VT::kU32List, [](const Vals& a) -> RetType {
            std::vector<uint32_t> o;
            auto& b = L<T>(a[1]);
            for (T x : L<T>(a[0])) {
              uint32_t k = 0;
              if (x != x) k = b.size();  // NaN: the top bucket
              else
                while (k < b.size() && b[k] <= x) ++k;
              o.push_back(k);
            }
            return o;
          }};
    Sig base = s, nn = s;
    nn.nan = false;
    s.gen = [base, nn](Rng& r) {
      bool tie = r.P(.5);
      size_t nb = r.P(.5) ? r.Below(12) : RandLen(r, 80);
      auto b = L<T>(FnList(r, base.args[0], nb, nn, tie));
      std::sort(b.begin(), b.end());
      auto v = L<T>(FnList(r, base.args[0], FnLen(r), base, tie));
      for (auto& x : v)
        if (nb && r.P(.4)) x = b[r.Below(nb)];
      return Vals{v, b};
    };
    add(s);
  }
}
static Vals Strs(Rng& r, size_t n) {
  Vals v;
  for (size_t i = 0; i < n; ++i) v.push_back(RandStr(r, r.P(.004) ? 70000 : r.P(.1) ? 300 : 12));
  return v;
}
}  // namespace

FN_MAIN(09)(int argc, char** argv) {
  vr::Plan p;
  p.id = "C09";
  p.quick_secs = 20;
  p.thorough_secs = 900;
  p.rule = "distinct (signature or composition, list length) pairs whose result was compared with the model";
  return FnMain(argc, argv, p, [](FnRun& R) {
#define X(K, C, S, N) Fill<C>(R);
    VJ_NUM(X)
#undef X
    Fill<std::string>(R);
    using S = std::string;
    const VT s = VT::kString, sl = VT::kStringList;
    for (int k = 0; k < 3; ++k) {
      R.sigs.push_back({"StringConcat", {s, s}, s, [](const Vals& a) -> RetType { return As<S>(a[0]) + As<S>(a[1]); },
                        [](Rng& r) { return Strs(r, 2); }});
      Sig c{"StringCmp", {s, s}, VT::kI32, [](const Vals& a) -> RetType { return static_cast<int32_t>(As<S>(a[0]).compare(As<S>(a[1]))); }};
      c.gen = [](Rng& r) {
        Vals v = Strs(r, 2);
        S x = As<S>(v[0]);
        if (r.P(.3)) v[1] = x;
        else if (r.P(.3)) v[1] = x + As<S>(v[1]);
        else if (x.size() && r.P(.5)) {
          x[r.Below(x.size())] = static_cast<char>(r.Next());
          v[1] = x;
        }
        return v;
      };
      c.cmp = [](const RetType& g, const RetType& w, const Vals&) {  // only the sign is documented
        auto sg = [](int32_t x) { return (x > 0) - (x < 0); };
        return sg(As<int32_t>(g)) == sg(As<int32_t>(w));
      };
      R.sigs.push_back(c);
      R.sigs.push_back({"StringLen", {s}, VT::kU32, [](const Vals& a) -> RetType { return static_cast<uint32_t>(As<S>(a[0]).size()); },
                        [](Rng& r) { return Strs(r, 1); }});
      R.sigs.push_back({"StringContains", {s, s}, VT::kU8,
                        [](const Vals& a) -> RetType { return static_cast<uint8_t>(As<S>(a[0]).find(As<S>(a[1])) != S::npos); },
                        [](Rng& r) {
                          Vals v = Strs(r, 2);
                          S h = As<S>(v[0]);
                          if (r.P(.6)) {
                            size_t b = r.Below(h.size() + 1), n = r.Below(h.size() - b + 1);
                            S nd = h.substr(b, n);
                            if (r.P(.2)) nd += static_cast<char>(r.Next());
                            if (nd.size() && r.P(.2)) nd.back() ^= 1;
                            v[1] = nd;
                          }
                          return v;
                        }});
      Sig cj{"CrossJoin", {sl, sl, s}, sl, [](const Vals& a) -> RetType {
               std::vector<S> o;
               for (auto& x : L<S>(a[0]))
                 for (auto& y : L<S>(a[1])) o.push_back(x + As<S>(a[2]) + y);
               return o;
             }};
      cj.gen = [](Rng& r) {
        size_t m = r.P(.003) ? 270 : 20;  // more than 65536 pairs, rarely
        Vals v{RandList(r, VT::kStringList, m > 20 ? m : RandLen(r, 20)), RandList(r, VT::kStringList, m > 20 ? m : RandLen(r, 20)), RandStr(r)};
        return v;
      };
      R.sigs.push_back(cj);
      R.sigs.push_back({"ZipConcat", {sl, sl, s}, sl, [](const Vals& a) -> RetType {
                          auto x = L<S>(a[0]);
                          auto& y = L<S>(a[1]);
                          if (x.size() != y.size()) throw Err();
                          for (size_t i = 0; i < x.size(); ++i) x[i] += As<S>(a[2]) + y[i];
                          return x;
                        }});
      auto rawgen = [](Rng& r) {
        std::vector<uint32_t> v(FnLen(r, true));
        for (auto& x : v) x = r.P(.4) ? kMiss : r.P(.2) ? kMiss - 1 : r.Below(50);
        return Vals{v};
      };
      R.sigs.push_back({"ListCompactPositions", {VT::kU32List}, VT::kU32List, [](const Vals& a) -> RetType {
                          std::vector<uint32_t> o;
                          auto& v = L<uint32_t>(a[0]);
                          for (size_t i = 0; i < v.size(); ++i)
                            if (v[i] != kMiss) o.push_back(i);
                          return o;
                        }, rawgen});
      R.sigs.push_back({"ListCompactIndex", {VT::kU32List}, VT::kU32List, [](const Vals& a) -> RetType {
                          std::vector<uint32_t> o;
                          for (uint32_t x : L<uint32_t>(a[0]))
                            if (x != kMiss) o.push_back(x);
                          return o;
                        }, rawgen});
    }
  });
}
