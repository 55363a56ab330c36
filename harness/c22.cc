// C22: constants reach execution bit for bit.
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

// every bit of a value, with its type and element boundaries
static std::string BitsOf(const RetType& v) {
  std::string s(1, static_cast<char>(TypeOf(v)));
  auto put = [&](const void* p, size_t n) { s.append(static_cast<const char*>(p), n); };
  std::visit([&](const auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_arithmetic_v<T>) put(&x, sizeof x);
    else if constexpr (std::is_same_v<T, std::string>) s += x;
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
      for (auto& e : x) {
        uint64_t n = e.size();
        put(&n, 8);
        s += e;
      }
    } else if (!x.empty()) put(x.data(), x.size() * sizeof(x[0]));
  }, v);
  return s;
}
static std::vector<std::pair<int32_t, std::string>>* g_bits;
template <class S>
void StBits(void* out, int32_t id, S v) {
  if constexpr (std::is_arithmetic_v<S>) g_bits->emplace_back(id, BitsOf(RetType(v)));
  else g_bits->emplace_back(id, BitsOf(FromAbi(v)));
  ++*static_cast<uint64_t*>(out);
}
template <class S>
S Pass(S v) { return v; }
static RegPtr& R() {
  static RegPtr r = [] {
    RegPtr x = MakeReg();
#define X(K, C, S, N)                                                                                                     \
  Must(x->RegisterStoreCFunc(FunctionSignature("stb", {VT::kPtr, VT::kI32, VT::K}, VT::kVoid), (void*)&StBits<C>, 1), "stb"); \
  Must(x->RegisterStoreCFunc(FunctionSignature("stb", {VT::kPtr, VT::kI32, VT::K##List}, VT::kVoid), (void*)&StBits<jitfusion::S>, 1), "stb"); \
  Must(x->RegisterReadOnlyCFunc(FunctionSignature("pass", {VT::K}, VT::K), (void*)&Pass<C>), "pass");                      \
  Must(x->RegisterReadOnlyCFunc(FunctionSignature("pass", {VT::K##List}, VT::K##List), (void*)&Pass<jitfusion::S>), "pass");
    VJ_NUM(X)
#undef X
    Must(x->RegisterStoreCFunc(FunctionSignature("stb", {VT::kPtr, VT::kI32, VT::kString}, VT::kVoid), (void*)&StBits<StringStruct>, 1), "stb");
    Must(x->RegisterStoreCFunc(FunctionSignature("stb", {VT::kPtr, VT::kI32, VT::kStringList}, VT::kVoid), (void*)&StBits<StringListStruct>, 1), "stb");
    Must(x->RegisterReadOnlyCFunc(FunctionSignature("pass", {VT::kString}, VT::kString), (void*)&Pass<StringStruct>), "pass");
    Must(x->RegisterReadOnlyCFunc(FunctionSignature("pass", {VT::kStringList}, VT::kStringList), (void*)&Pass<StringListStruct>), "pass");
    return x;
  }();
  return r;
}

// ---- families of nearly equal values -------------------------------------------------------------------
template <class F, class U>
static F Float(Rng& r) {
  const int mant = sizeof(F) == 4 ? 23 : 52;
  const U inf = sizeof(F) == 4 ? static_cast<U>(0x7f800000u) : static_cast<U>(0x7ff0000000000000ull);
  U u;
  switch (r.Below(9)) {
    case 0: u = 0; break;
    case 1: u = inf; break;
    case 2: u = inf | (U(1) << (mant - 1)); break;                       // the quiet NaN
    case 3: u = inf | (U(1) << (mant - 1)) | static_cast<U>(r.Below(7)); break;  // quiet, payload
    case 4: u = inf | (U(1) + static_cast<U>(r.Below(7))); break;         // signalling, payload
    case 5: u = U(1) + static_cast<U>(r.Below(3)); break;                 // denormal
    case 6: u = static_cast<U>(r.Next()); break;
    case 7: { F f = static_cast<F>(r.Below(4)); memcpy(&u, &f, sizeof f); u += static_cast<U>(r.Below(2)); break; }
    default: { F f = static_cast<F>(0.1) * static_cast<F>(r.Below(10)); memcpy(&u, &f, sizeof f); }
  }
  if (r.P(.4)) u |= U(1) << (sizeof(F) * 8 - 1);
  F f;
  memcpy(&f, &u, sizeof f);
  return f;
}
template <class T>
static T Elem(Rng& r) {
  if constexpr (std::is_same_v<T, float>) return Float<float, uint32_t>(r);
  else if constexpr (std::is_same_v<T, double>) return Float<double, uint64_t>(r);
  else return r.P(.5) ? static_cast<T>(r.Below(4)) : r.P(.3) ? std::numeric_limits<T>::max() : r.P(.3) ? std::numeric_limits<T>::min() : static_cast<T>(r.Next());
}
static std::string Str(Rng& r) {
  static const std::vector<std::string> fixed{"", std::string(1, '\0'), "a", std::string("a\0", 2), std::string("a\0b", 3), std::string("a\0c", 3), "ab", "abc", "\xff", "\x80\x80", "%s%n", "\\n", "\"", "prog"};
  if (r.P(.5)) return fixed[r.Below(fixed.size())];
  // lengths around the ends of one, two and three bytes
  static const std::vector<size_t> edge{127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65600, 131072, 131073};
  size_t n = r.P(.05) ? r.Pick(edge) : r.P(.1) ? r.Below(140000) : r.Below(60);
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i += 1 + r.Below(n / 8 + 1)) s[i] = static_cast<char>(r.Next());
  return s;
}
template <class T>
static std::vector<T> VecOf(Rng& r) {
  static const std::vector<size_t> edge{127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537};
  size_t n = r.P(.03) ? r.Below(5000) : r.P(.012) && !std::is_same_v<T, std::string> ? r.Pick(edge) : r.P(.2) ? 0 : 1 + r.Below(9);
  std::vector<T> v(n);
  for (auto& x : v) {
    if constexpr (std::is_same_v<T, std::string>) x = Str(r);
    else x = Elem<T>(r);
  }
  return v;
}
static RetType Fresh(Rng& r) {
  switch (r.Below(24)) {
#define X(I, C) case I: return Elem<C>(r); case I + 10: return VecOf<C>(r);
    X(0, int8_t) X(1, uint8_t) X(2, int16_t) X(3, uint16_t) X(4, int32_t) X(5, uint32_t) X(6, int64_t) X(7, uint64_t) X(8, float) X(9, double)
#undef X
    case 20: case 21: return Str(r);
    default: return VecOf<std::string>(r);
  }
}
// the same value but for a detail
static RetType Near(Rng& r, const RetType& v) {
  RetType w = v;
  std::visit([&](auto& x) {
    using T = std::decay_t<decltype(x)>;
    auto flip = [&](auto& e) {
      using E = std::decay_t<decltype(e)>;
      unsigned char b[sizeof(E)];
      memcpy(b, &e, sizeof e);
      b[r.P(.5) ? 0 : sizeof(E) - 1] ^= static_cast<unsigned char>(r.P(.5) ? 0x80 : 1);
      memcpy(&e, b, sizeof e);
    };
    if constexpr (std::is_arithmetic_v<T>) flip(x);
    else if constexpr (std::is_same_v<T, std::string>) {
      if (x.size() > 8 && r.P(.35)) x = r.P(.6) ? x.substr(r.Below(9)) : r.P(.5) ? x.substr(x.size() / 2) : x.substr(0, x.size() - 1 - r.Below(8));  // a part of it
      else if (x.empty() || r.P(.3)) x += r.P(.5) ? '\0' : 'a';
      else if (r.P(.3)) x.pop_back();
      else x[r.Below(x.size())] ^= r.P(.5) ? 1 : 0x80;
    } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
      if (x.empty() || r.P(.2)) x.emplace_back();
      else if (r.P(.3) && x.size() > 1 && !x[0].empty()) x[1].insert(x[1].begin(), x[0].back()), x[0].pop_back();  // ["ab","c"] -> ["a","bc"]
      else if (r.P(.3)) std::reverse(x.begin(), x.end());
      else x[r.Below(x.size())] = Str(r);
    } else {
      if (x.empty() || r.P(.2)) x.push_back(x.empty() ? 0 : x.back());
      else if (r.P(.2)) x.pop_back();
      else if (r.P(.2)) std::reverse(x.begin(), x.end());
      else flip(x[r.Below(x.size())]);
    }
  }, w);
  return w;
}
// the same bytes under another type
static RetType Retype(Rng& r, const RetType& v) {
  std::string b = BitsOf(v).substr(1);
  if (TypeOf(v) == VT::kStringList || b.size() > 4000) return v;
  auto as = [&](auto tag) {
    using E = decltype(tag);
    std::vector<E> o(b.size() / sizeof(E));
    if (!o.empty()) memcpy(o.data(), b.data(), o.size() * sizeof(E));
    return o;
  };
  switch (r.Below(7)) {
    case 0: return b;
    case 1: return as(uint8_t());
    case 2: return as(int8_t());
    case 3: return as(uint32_t());
    case 4: return as(float());
    case 5: return as(int64_t());
    default: return as(double());
  }
}

static std::string ShowBits(const std::string& b) {
  std::string s = std::string(Name(static_cast<VT>(b[0]))) + " " + std::to_string(b.size() - 1) + " bytes:";
  char t[8];
  for (size_t i = 1; i < b.size() && i < 40; ++i) {
    snprintf(t, sizeof t, " %02x", static_cast<unsigned char>(b[i]));
    s += t;
  }
  return s;
}
static bool OrderSafe(const RetType& v) {  // may be sorted and summed: no NaN
  return std::visit([](const auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, std::vector<float>> || std::is_same_v<T, std::vector<double>>) {
      for (auto e : x)
        if (e != e) return false;
    }
    return true;
  }, v);
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C22";
  p.quick_cases = 200000;
  p.thorough_cases = 8000000;
  p.quick_secs = 20;
  p.thorough_secs = 600;
  p.rule = "constants, in families of equal and nearly equal ones in one program or batch, whose bytes as seen by C functions and by the caller are compared with the bytes put into the tree";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    Rng& r = c.rng;
    size_t n = 1 + r.Below(r.P(.2) ? 60 : 12);
    std::vector<RetType> k;
    for (size_t i = 0; i < n; ++i) {
      if (k.empty() || r.P(.3)) k.push_back(Fresh(r));
      else {
        RetType v = k[r.Below(k.size())];
        k.push_back(r.P(.25) ? v : r.P(.3) ? Retype(r, v) : Near(r, v));
      }
    }
    std::string d;
    for (auto& v : k) d += ShowBits(BitsOf(v)) + "\n";
    c.Desc(d);
    bool strict = r.P(.5), save = r.P(.3);
    auto same = [&](const std::string& got, const RetType& want, const std::string& where) {
      std::string w = BitsOf(want);
      if (got != w) c.Fail("bits", where + " sees " + ShowBits(got) + "\nthe constant is " + ShowBits(w));
      c.Count("constants compared");
      c.Nontrivial(vr::Hash(w));
    };
    Inputs in(std::vector<RetType>{static_cast<int32_t>(r.Below(2))});
    if (c.idx % 2) {
      // one program that stores every constant, some through a function, some chosen at run time, some after being sorted
      std::vector<jitfusion::VarInfo> vi;
      std::vector<NodePtr> a;
      std::vector<std::pair<int32_t, RetType>> want;
      auto st = [&](NodePtr x, const RetType* w) {
        int32_t id = static_cast<int32_t>(a.size());
        vi.emplace_back("", false);
        a.push_back(FnNode("stb", Args(NodePtr(new jitfusion::OutputNode), ConstNode(id), std::move(x))));
        want.emplace_back(id, w ? *w : RetType());
        return id;
      };
      std::set<int32_t> free_ids;
      std::string var;
      for (size_t i = 0; i < n; ++i) {
        const RetType& v = k[i];
        VT t = TypeOf(v);
        int how = static_cast<int>(r.Below(6));
        if (how == 0) {
          st(FnNode("pass", Args(ConstNode(v))), &v);
        } else if (how == 1 && strict && i > 0 && TypeOf(k[i - 1]) == t) {
          std::vector<NodePtr> ch = Args(Build(In(VT::kI32, 0)), ConstNode(v), ConstNode(k[i - 1]));
          bool first = std::get<int32_t>(in.slots[0]->val) != 0;
          st(std::make_unique<jitfusion::IfNode>(std::move(ch)), first ? &k[i] : &k[i - 1]);
        } else if (how == 2 && IsList(t) && t != VT::kStringList && OrderSafe(v)) {
          free_ids.insert(st(FnNode(r.P(.5) ? "SortAsc" : "SortDesc", Args(ConstNode(v))), nullptr));  // must leave the constant alone
          st(ConstNode(v), &v);
        } else if (how == 3) {
          var = "k" + std::to_string(i);
          vi.emplace_back(var, r.P(.5));
          a.push_back(ConstNode(v));
          want.emplace_back(-1, RetType());
          st(std::make_unique<jitfusion::RefNode>(var), &v);
        } else {
          st(ConstNode(v), &v);
        }
      }
      ExecEngine eng(Opt(strict, save)), other(Opt(strict));
      {
        NodePtr root = std::make_unique<jitfusion::NoOPNode>(std::move(vi), std::move(a));
        Status s = eng.Compile(root, R());
        if (!s.ok()) c.Fail("refused", s.ToString());
      }  // the tree is gone
      auto run = [&](ExecEngine& e, const std::string& where) {
        ExecContext ctx(16);
        for (int round = 0; round < 2; ++round) {
          std::vector<std::pair<int32_t, std::string>> got;
          g_bits = &got;
          uint64_t count = 0;
          void* o = &count;
          Status s = e.Execute(ctx, in.Ptr(), o);
          if (!s.ok()) c.Fail("status", where + ": " + s.ToString());
          size_t j = 0;
          for (auto& w : want) {
            if (w.first < 0) continue;
            if (j >= got.size() || got[j].first != w.first) c.Fail("bits", where + ": store " + std::to_string(w.first) + " is missing");
            if (!free_ids.count(w.first)) same(got[j].second, w.second, where + ", execution " + std::to_string(round) + ", store " + std::to_string(w.first));
            ++j;
          }
        }
      };
      run(eng, "pipeline");
      if (save) {
        std::string blob;
        Status s = eng.SaveCompiled(&blob);
        if (!s.ok()) c.Fail("save", s.ToString());
        s = other.LoadCompiled(blob, R());
        if (!s.ok()) c.Fail("load", s.ToString());
        blob.assign(blob.size(), 'y');
        run(other, "loaded pipeline");
        run(eng, "pipeline after saving");
        c.Count("programs saved and loaded");
      }
      return;
    }
    // a batch, or a single engine, that returns them
    auto run = [&](auto&& call, const std::string& where) {
      ExecContext ctx(64);
      for (int round = 0; round < 2; ++round)
        for (size_t i = 0; i < n; ++i) {
          RetType v;
          Status s = call(i, ctx, &v, round);
          if (!s.ok()) c.Fail("status", where + ": " + s.ToString());
          same(BitsOf(v), k[i], where + ", entry " + std::to_string(i));
        }
    };
    if (n == 1 || r.P(.15)) {
      std::vector<std::unique_ptr<ExecEngine>> es;
      for (size_t i = 0; i < n; ++i) {
        es.push_back(std::make_unique<ExecEngine>(Opt(strict)));
        NodePtr e = r.P(.5) ? ConstNode(k[i]) : FnNode("pass", Args(ConstNode(k[i])));
        Status s = es.back()->Compile(e, R());
        if (!s.ok()) c.Fail("refused", s.ToString());
      }
      run([&](size_t i, ExecContext& ctx, RetType* v, int round) { return round ? es[i]->Execute(ctx, in.Ptr(), v) : es[i]->Execute(in.Ptr(), v); }, "single");
      if (n > 1) {  // destroying one engine leaves the constants of the others
        size_t g = r.Below(n);
        es.erase(es.begin() + static_cast<long>(g));
        k.erase(k.begin() + static_cast<long>(g));
        --n;
        run([&](size_t i, ExecContext& ctx, RetType* v, int) { return es[i]->Execute(ctx, in.Ptr(), v); }, "single, after another engine is gone");
      }
      return;
    }
    auto b = std::make_unique<BatchExecEngine>(Opt(strict, save));
    {
      std::vector<NodePtr> v;
      for (auto& x : k) v.push_back(r.P(.7) ? ConstNode(x) : FnNode("pass", Args(ConstNode(x))));
      Status s = b->Compile(v, R());
      if (!s.ok()) c.Fail("refused", s.ToString());
    }
    run([&](size_t i, ExecContext& ctx, RetType* v, int round) { return round ? b->ExecuteAt(i, ctx, in.Ptr(), v) : b->ExecuteAt(i, in.Ptr(), v); }, "batch");
    std::vector<RetType> all;
    Status s = b->ExecuteAll(in.Ptr(), &all);
    if (!s.ok() || all.size() != n) c.Fail("status", "ExecuteAll: " + s.ToString());
    for (size_t i = 0; i < n; ++i) same(BitsOf(all[i]), k[i], "ExecuteAll, entry " + std::to_string(i));
    if (save) {
      std::string blob;
      s = b->SaveCompiled(&blob);
      if (!s.ok()) c.Fail("save", s.ToString());
      BatchExecEngine l(Opt(strict));
      s = l.LoadCompiled(blob, R());
      if (!s.ok()) c.Fail("load", s.ToString());
      blob.assign(blob.size(), 'y');
      b.reset();
      run([&](size_t i, ExecContext& ctx, RetType* v, int) { return l.ExecuteAt(i, ctx, in.Ptr(), v); }, "loaded batch");
      c.Count("programs saved and loaded");
    }
  });
}
