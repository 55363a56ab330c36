// C07: comparison bitmaps, filters and selections.
#include "common/fn.h"
using namespace vj;
namespace {
using Bytes = std::vector<uint8_t>;

static bool Bit(const Bytes& b, size_t i) { return b[i / 8] >> (i % 8) & 1; }
static Bytes RandBitmap(Rng& r, size_t bits) {
  Bytes b((bits + 7) / 8);
  int how = r.Below(4);
  for (size_t i = 0; i < bits; ++i)
    if (how == 0 ? r.P(.5) : how == 1 ? r.P(.9) : how == 2 ? r.P(.1) : i % 8 == 7 || i + 1 == bits) b[i / 8] |= 1 << (i % 8);
  return b;
}
template <class T>
void Fill(FnRun& R) {
  constexpr VT t = TypeOfC<T>();
  const VT l = ListOf(t);
  static const std::pair<const char*, B> ops[] = {{"Large", B::kLarge}, {"LargeEqual", B::kLargeEqual}, {"Equal", B::kEqual},
                                                  {"Less", B::kLess},   {"LessEqual", B::kLessEqual},   {"NotEqual", B::kNotEqual}};
  for (auto& o : ops) {
    B op = o.second;
    std::string n = std::string("Gen") + o.first + "Bitmap";
    Sig a{n, {l, t}, VT::kU8List, [op](const Vals& v) -> RetType {
            auto& x = L<T>(v[0]);
            Bytes b((x.size() + 7) / 8);
            for (size_t i = 0; i < x.size(); ++i)
              if (RelC<T>(op, x[i], As<T>(v[1]))) b[i / 8] |= 1 << (i % 8);
            return b;
          }};
    Sig b{n, {l, l}, VT::kU8List, [op](const Vals& v) -> RetType {
            auto& x = L<T>(v[0]);
            auto& y = L<T>(v[1]);
            if (x.size() != y.size()) throw Err();
            Bytes b((x.size() + 7) / 8);
            for (size_t i = 0; i < x.size(); ++i)
              if (RelC<T>(op, x[i], y[i])) b[i / 8] |= 1 << (i % 8);
            return b;
          }};
    Sig c{std::string("If") + o.first, {l, t, t}, l, [op](const Vals& v) -> RetType {
            auto x = L<T>(v[0]);
            for (auto& e : x)
              if (RelC<T>(op, e, As<T>(v[1]))) e = As<T>(v[2]);
            return x;
          }};
    a.tie = b.tie = c.tie = true;
    R.sigs.push_back(a);
    R.sigs.push_back(b);
    R.sigs.push_back(c);
  }
  // IfByBitmap: bit set -> lhs, clear -> rhs
  Sig base{"", {l, t}, l};
  auto gen = [base](bool ll, bool rl) {
    return [base, ll, rl](Rng& r) {
      size_t n = FnLen(r, true);
      Bytes b = RandBitmap(r, n);
      if (r.P(.08)) b.resize(b.size() + 1 + r.Below(3), 0xff);  // longer than needed: fine
      else if (r.P(.08) && !b.empty()) b.resize(b.size() - 1);  // too short
      else if (r.P(.2) && !b.empty()) b.back() |= static_cast<uint8_t>(r.Next());  // bits beyond the list
      Vals v{b};
      for (bool list : {ll, rl}) {
        RetType x = FnList(r, ListOf(TypeOfC<T>()), list ? n : 1, base, r.P(.2));
        if (list && ll && rl && v.size() == 2 && r.P(.06)) x = FnList(r, ListOf(TypeOfC<T>()), n + 1, base, false);
        if (list) v.push_back(x);
        else v.push_back(L<T>(x)[0]);
      }
      return v;
    };
  };
  auto model = [](const Vals& v) -> RetType {
    auto& b = L<uint8_t>(v[0]);
    const auto* x = std::get_if<std::vector<T>>(&v[1]);
    const auto* y = std::get_if<std::vector<T>>(&v[2]);
    if (x && y && x->size() != y->size()) throw Err();
    size_t n = x ? x->size() : y->size();
    if (b.size() < (n + 7) / 8) throw Err();
    std::vector<T> o(n);
    for (size_t i = 0; i < n; ++i)
      o[i] = Bit(b, i) ? (x ? (*x)[i] : As<T>(v[1])) : (y ? (*y)[i] : As<T>(v[2]));
    return o;
  };
  R.sigs.push_back({"IfByBitmap", {VT::kU8List, l, t}, l, model, gen(true, false)});
  R.sigs.push_back({"IfByBitmap", {VT::kU8List, t, l}, l, model, gen(false, true)});
  R.sigs.push_back({"IfByBitmap", {VT::kU8List, l, l}, l, model, gen(true, true)});
  auto filter = [](const Vals& v) -> RetType {
    auto& x = L<T>(v[0]);
    auto& b = L<uint8_t>(v[1]);
    if (b.size() != (x.size() + 7) / 8) throw Err();
    if (x.size() % 8 && b.back() >> (x.size() % 8)) throw Err();  // a bit for an element that is not there
    std::vector<T> o;
    for (size_t i = 0; i < x.size(); ++i)
      if (Bit(b, i)) o.push_back(x[i]);
    if (v.size() == 3 && As<uint32_t>(v[2]) != o.size()) throw Err();
    return o;
  };
  auto fgen = [base](bool cnt) {
    return [base, cnt](Rng& r) {
      size_t n = FnLen(r, true);
      Vals v{FnList(r, ListOf(TypeOfC<T>()), n, base, r.P(.2))};
      Bytes b = RandBitmap(r, n);
      if (r.P(.05)) b.resize(b.size() + 1);
      else if (r.P(.05) && !b.empty()) b.resize(b.size() - 1);
      else if (r.P(.05) && n % 8) b.back() |= 1 << (n % 8 + r.Below(8 - n % 8));
      v.push_back(b);
      if (cnt) {
        uint32_t k = 0;
        for (uint8_t x : b) k += __builtin_popcount(x);
        if (r.P(.06)) k += 1;
        else if (r.P(.06) && k) k -= 1;
        v.push_back(k);
      }
      return v;
    };
  };
  R.sigs.push_back({"FilterByBitmap", {l, VT::kU8List}, l, filter, fgen(false)});
  R.sigs.push_back({"FilterByBitmap", {l, VT::kU8List, VT::kU32}, l, filter, fgen(true)});
}
}  // namespace

FN_MAIN(07)(int argc, char** argv) {
  vr::Plan p;
  p.id = "C07";
  p.quick_secs = 20;
  p.thorough_secs = 900;
  p.rule = "distinct (signature or composition, list length) pairs whose result was compared with the model";
  return FnMain(argc, argv, p, [](FnRun& R) {
#define X(K, C, S, N) Fill<C>(R);
    VJ_NUM(X)
#undef X
    for (int k = 0; k < 4; ++k) {  // several times: composed with each producer of bitmaps
      Sig s{"CountBits", {VT::kU8List}, VT::kU32, [](const Vals& v) -> RetType {
              uint32_t k = 0;
              for (uint8_t x : L<uint8_t>(v[0])) k += __builtin_popcount(x);
              return k;
            }};
      s.free_len = true;
      R.sigs.push_back(s);
    }
    auto bits = [&](const char* n, B op) {
      Sig s{n, {VT::kU8List, VT::kU8List}, VT::kU8List, [op](const Vals& a) -> RetType {
              auto v = L<uint8_t>(a[0]);
              auto& w = L<uint8_t>(a[1]);
              if (v.size() != w.size()) throw Err();
              for (size_t i = 0; i < v.size(); ++i) v[i] = std::get<uint8_t>(ArithC<uint8_t>(op, v[i], w[i]));
              return v;
            }};
      R.sigs.push_back(s);
    };
    bits("ListBitwiseAnd", B::kBitwiseAnd);
    bits("ListBitwiseOr", B::kBitwiseOr);
    bits("ListBitwiseXor", B::kBitwiseXor);
  });
}
