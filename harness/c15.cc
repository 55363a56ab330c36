// C15: damaged or foreign artifacts are refused cleanly.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, unsigned long), void (*)(const volatile void*));
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;
using jitfusion::LoadCompiledOptions;

static size_t g_biggest = 0;
static void OnMalloc(const volatile void*, size_t n) {
  if (n > g_biggest) g_biggest = n;
}

struct Base {
  bool batch;
  std::vector<P> exprs;
  std::vector<std::vector<RetType>> ins;
  std::vector<std::vector<RetType>> want;  // per input, per entry
  std::string blob;
  // offsets of the documented header fields
  size_t llvm_len, llvm, triple_len, triple, cpu_len, cpu, mode, fp, num, types, osize, obj, ext, foot;
};
static uint32_t U32(const std::string& s, size_t p) {
  uint32_t v = 0;
  for (int i = 3; i >= 0; --i) v = v << 8 | static_cast<unsigned char>(s[p + i]);
  return v;
}
static uint64_t U64(const std::string& s, size_t p) { return U32(s, p) | static_cast<uint64_t>(U32(s, p + 4)) << 32; }
static void PutU32(std::string& s, size_t p, uint32_t v) {
  for (int i = 0; i < 4; ++i) s[p + i] = static_cast<char>(v >> (8 * i));
}
static bool Layout(Base& b) {
  const std::string& s = b.blob;
  if (s.size() < 40 || s.compare(0, 4, "JFCA") != 0) return false;
  size_t p = 8;
  auto str = [&](size_t& len, size_t& at) {
    len = p;
    at = p + 4;
    if (at > s.size()) return false;
    p = at + U32(s, len);
    return p + 4 <= s.size();
  };
  if (!str(b.llvm_len, b.llvm) || !str(b.triple_len, b.triple) || !str(b.cpu_len, b.cpu)) return false;
  b.mode = p;
  b.fp = p + 1;
  b.num = p + 2;
  b.types = b.num + 4;
  b.osize = b.types + U32(s, b.num);
  if (b.osize + 8 > s.size()) return false;
  b.obj = b.osize + 8;
  b.ext = b.obj + U64(s, b.osize);
  b.foot = b.ext + 4;
  return b.foot + 4 == s.size() && s.compare(b.foot, 4, "JFCE") == 0;
}
static const char* Field(const Base& b, size_t i) {
  if (i < 4) return "magic";
  if (i < 8) return "version";
  if (i < b.llvm) return "llvm length";
  if (i < b.triple_len) return "llvm version";
  if (i < b.triple) return "triple length";
  if (i < b.cpu_len) return "triple";
  if (i < b.cpu) return "cpu length";
  if (i < b.mode) return "cpu";
  if (i == b.mode) return "mode";
  if (i == b.fp) return "fp mode";
  if (i < b.types) return "entry count";
  if (i < b.osize) return "return types";
  if (i < b.obj) return "object size";
  if (i < b.ext) return "object";
  if (i < b.foot) return "extension count";
  return "footer";
}

static Status LoadInto(bool batch, ExecEngine& one, BatchExecEngine& many, const std::string& blob, const LoadCompiledOptions& o) {
  char* p = static_cast<char*>(malloc(blob.size()));  // exactly the bytes: ASan sees any read beyond
  if (!blob.empty()) memcpy(p, blob.data(), blob.size());
  std::string_view v(p, blob.size());
  Status st = batch ? many.LoadCompiled(v, Reg(), o) : one.LoadCompiled(v, Reg(), o);
  free(p);
  return st;
}
struct Victim {  // an engine to load into: fresh, or holding a program
  ExecEngine one;
  BatchExecEngine many;
  bool held;
  int32_t k;
  Victim(bool h, int32_t kk) : held(h), k(kk) {
    if (!held) return;
    NodePtr a = Build(Bin(B::kAdd, Const(k), In(VT::kI32, 0)));
    Must(one.Compile(a, Reg()), "victim");
    std::vector<NodePtr> v;
    v.push_back(Build(Const(k)));
    v.push_back(Build(Bin(B::kAdd, Const(k), In(VT::kI32, 0))));
    Must(many.Compile(v, Reg()), "victim");
  }
  void Check(Ctx& c, const std::string& what) {
    Inputs in(std::vector<RetType>{static_cast<int32_t>(5)});
    RetType v;
    Status st = one.Execute(in.Ptr(), &v);
    if (held ? !st.ok() || !Same(v, RetType(k + 5)) : st.ok()) c.Fail("stale", what + ": then Execute gives " + st.ToString() + " " + Show(v) + (held ? "" : " (nothing was ever compiled)"));
    st = many.ExecuteAt(1, in.Ptr(), &v);
    if (held ? !st.ok() || !Same(v, RetType(k + 5)) : st.ok()) c.Fail("stale", what + ": then ExecuteAt gives " + st.ToString() + " " + Show(v));
    if (held ? many.GetFunctionCount() != 2 : many.GetFunctionCount() != 0) c.Fail("stale", what + ": then GetFunctionCount is " + std::to_string(many.GetFunctionCount()));
    c.Count("engines run after a refused load");
  }
};

static void MakeBase(Ctx& c, Base& b) {
  Rng& r = c.rng;
  b.batch = r.P(.5);
  GenOpt o;
  Gen g(r, o);
  g.MakeInputs(4);
  size_t n = b.batch ? 1 + r.Below(6) : 1;
  for (size_t i = 0; i < n; ++i) b.exprs.push_back(g.Expr(g.AnyT(), r.Below(3)));
  for (int t = 0; t < 10 && b.ins.size() < 2; ++t) {
    auto in = g.InValues();
    std::vector<RetType> w;
    for (auto& e : b.exprs) {
      Machine m;
      RetType v;
      if (Reference(e, in, &m, &v)) w.push_back(v);
    }
    if (w.size() < n) continue;
    b.ins.push_back(in);
    b.want.push_back(w);
  }
  std::string d = b.batch ? "batch of " : "single ";
  for (auto& e : b.exprs) d += Dump(e) + "; ";
  c.Desc(d + "\n");
  Status st;
  std::vector<NodePtr> v;
  for (auto& e : b.exprs) v.push_back(Build(e));
  if (b.batch) {
    BatchExecEngine e(Opt(true, true));
    st = e.Compile(v, Reg());
    if (st.ok()) st = e.SaveCompiled(&b.blob);
  } else {
    ExecEngine e(Opt(true, true));
    st = e.Compile(v[0], Reg());
    if (st.ok()) st = e.SaveCompiled(&b.blob);
  }
  if (!st.ok()) {
    b.blob.clear();
    if (!Contains(st.ToString(), "constant zero")) c.Fail("save", st.ToString());
  }
}

// must be refused by an engine of the right kind, and leave it alone
static void Refused(Ctx& c, const Base& b, Victim& v, const std::string& blob, const LoadCompiledOptions& o, const std::string& what, bool kind) {
  size_t keep = c.cur_desc.size();
  g_biggest = 0;
  Status st = LoadInto(kind, v.one, v.many, blob, o);
  if (st.ok()) {
    c.AddDesc(what + "\n");
    c.Fail("accepted", what + ": the load succeeds");
  }
  if (g_biggest > blob.size() + (64u << 20)) c.Fail("allocation", what + ": one allocation of " + std::to_string(g_biggest) + " bytes for a blob of " + std::to_string(blob.size()));
  c.Count("refused loads");
  (void)keep;
  (void)b;
}
static bool Runs(Ctx& c, const Base& b, Victim& v, const std::string& what) {
  for (size_t q = 0; q < b.ins.size(); ++q)
    for (size_t i = 0; i < b.exprs.size(); ++i) {
      Inputs in(b.ins[q]);
      RetType got;
      Status st = b.batch ? v.many.ExecuteAt(i, in.Ptr(), &got) : v.one.Execute(in.Ptr(), &got);
      if (!st.ok() || !Same(got, b.want[q][i])) c.Fail("accepted-wrong", what + ": the loaded engine gives " + st.ToString() + " " + Show(got) + ", expected " + Show(b.want[q][i]));
    }
  return true;
}

static void HeaderBytes(Ctx& c, Base& b, Victim& v) {
  Rng& r = c.rng;
  LoadCompiledOptions def;
  for (size_t i = 0; i < b.blob.size(); i = i + 1 == b.obj ? b.ext : i + 1) {
    std::string f = Field(b, i);
    std::vector<int> vals;
    if (f == "return types" ) continue;
    bool few = f == "llvm version" || f == "triple" || f == "cpu";
    if (few && !c.thorough) for (int k = 0; k < 5; ++k) vals.push_back(static_cast<int>(r.Below(256)));
    else
      for (int k = 0; k < 256; k += (c.thorough || f == "mode" || f == "fp mode" || f == "version") ? 1 : 1 + static_cast<int>(r.Below(9))) vals.push_back(k);
    unsigned char old = b.blob[i];
    for (int d : {1, -1, 0x80, 0x20}) vals.push_back(d == 1 || d == -1 ? (old + d) & 255 : old ^ d);
    for (int x : vals) {
      if (x == old || (f == "fp mode" && x < 2)) continue;
      std::string m = b.blob;
      m[i] = static_cast<char>(x);
      Refused(c, b, v, m, def, "byte " + std::to_string(i) + " (" + f + ") changed from " + std::to_string(old) + " to " + std::to_string(x), b.batch);
      c.Nontrivial(vr::Mix(i * 256 + x) ^ vr::Hash(f));
    }
  }
  v.Check(c, "after header changes");
}
static void Truncations(Ctx& c, Base& b, Victim& v) {
  LoadCompiledOptions def;
  for (size_t n = 0; n < b.blob.size(); n += (n < b.obj + 70 || n + 80 > b.blob.size() || c.thorough) ? 1 : 1 + c.rng.Below(40)) {
    Refused(c, b, v, b.blob.substr(0, n), def, "truncated to " + std::to_string(n) + " of " + std::to_string(b.blob.size()) + " bytes", b.batch);
    c.Nontrivial(vr::Mix(n * 3 + 1));
    c.Count("truncations");
  }
  for (int k = 0; k < 8; ++k) {
    std::string m = b.blob;
    switch (k) {
      case 0: m += '\0'; break;
      case 1: m += b.blob; break;
      case 2: m += "JFCE"; break;
      case 3: m.insert(0, 1, '\0'); break;
      case 4: m.insert(b.obj, 1, 'x'); break;
      case 5: m.insert(b.ext, 4, '\0'); break;
      case 6: m.insert(b.types, 1, m[b.types]); break;
      default: m += std::string(1 + c.rng.Below(5000), static_cast<char>(c.rng.Next()));
    }
    Refused(c, b, v, m, def, "extended, form " + std::to_string(k), b.batch);
  }
  v.Check(c, "after truncations");
}
static void Lengths(Ctx& c, Base& b, Victim& v) {
  LoadCompiledOptions def;
  const uint64_t edge[] = {0, 1, 2, 7, 8, 100, 0x7f, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
                           b.blob.size(), b.blob.size() - 1, b.blob.size() + 1};
  struct F { size_t at; int n; const char* name; };
  for (F f : {F{b.llvm_len, 4, "llvm length"}, F{b.triple_len, 4, "triple length"}, F{b.cpu_len, 4, "cpu length"}, F{b.num, 4, "entry count"},
              F{b.osize, 8, "object size"}, F{b.ext, 4, "extension count"}}) {
    std::vector<uint64_t> e(std::begin(edge), std::end(edge));
    uint64_t old = f.n == 4 ? U32(b.blob, f.at) : U64(b.blob, f.at);
    for (int64_t d : {-2, -1, 1, 2, 4, 8}) e.push_back(old + d);
    size_t left = b.blob.size() - f.at - f.n;
    for (int64_t d : {-1, 0, 1}) e.push_back(left + d);
    if (f.n == 8)
      for (uint64_t x : {0x100000000ul, 0x7ffffffffffffffful, 0x8000000000000000ul, 0xfffffffffffffffful, 0xfffffffffffffff8ul, ~static_cast<uint64_t>(b.obj) + 1,
                         ~static_cast<uint64_t>(b.obj) + 9, 0x10000000000ul})
        e.push_back(x);
    for (uint64_t x : e) {
      if (f.n == 4) x &= 0xffffffffu;
      if (x == old) continue;
      std::string m = b.blob;
      for (int i = 0; i < f.n; ++i) m[f.at + i] = static_cast<char>(x >> (8 * i));
      std::string what = std::string(f.name) + " set to " + std::to_string(x);
      Refused(c, b, v, m, def, what, b.batch);
      // with every check relaxed the lengths still have to fit
      LoadCompiledOptions lax;
      lax.check_llvm_version = lax.check_target_triple = lax.check_cpu_name = false;
      bool str = f.at == b.llvm_len || f.at == b.triple_len || f.at == b.cpu_len;
      if (!str) Refused(c, b, v, m, lax, what + ", checks relaxed", b.batch);
      else {
        g_biggest = 0;
        (void)LoadInto(b.batch, v.one, v.many, m, lax).ok();
        if (g_biggest > (256u << 20)) c.Fail("allocation", what + ": one allocation of " + std::to_string(g_biggest) + " bytes");
      }
      c.Nontrivial(vr::Mix(x) ^ vr::Hash(f.name));
    }
  }
  v.Check(c, "after length changes");
}
static void Foreign(Ctx& c, Base& b) {
  Rng& r = c.rng;
  LoadCompiledOptions def;
  Victim v(r.P(.5), static_cast<int32_t>(r.Below(1000)));
  // the other kind of engine
  for (int mask = 0; mask < 8; ++mask) {
    LoadCompiledOptions o;
    o.check_llvm_version = mask & 1;
    o.check_target_triple = mask & 2;
    o.check_cpu_name = mask & 4;
    Refused(c, b, v, b.blob, o, "an artifact of the other kind of engine", !b.batch);
  }
  v.Check(c, "after an artifact of the other kind");
  // foreign strings: refused exactly when the corresponding check is on
  struct F { size_t len, at; const char* name; };
  const F fs[] = {{b.llvm_len, b.llvm, "llvm version"}, {b.triple_len, b.triple, "target triple"}, {b.cpu_len, b.cpu, "cpu"}};
  for (int which = 0; which < 3; ++which) {
    const F& f = fs[which];
    std::string old = b.blob.substr(f.at, U32(b.blob, f.len));
    std::vector<std::string> alts = {"", old + "x", old.substr(0, old.size() - 1), "x" + old, std::string(old.size(), 'q'), std::string(300, 'z'), old + std::string(1, '\0')};
    if (f.at == b.cpu) alts.push_back("generic"), alts.push_back("znver9");
    if (f.at == b.triple) alts.push_back("aarch64-unknown-linux-gnu");
    if (f.at == b.llvm) alts.push_back("18.1.3");
    for (auto& a : alts) {
      if (a == old) continue;
      std::string m = b.blob.substr(0, f.len) + std::string(4, '\0') + a + b.blob.substr(f.at + old.size());
      PutU32(m, f.len, static_cast<uint32_t>(a.size()));
      std::string what = std::string(f.name) + " " + Quote(a) + " instead of " + Quote(old);
      for (int mask = 0; mask < 8; ++mask) {
        LoadCompiledOptions o;
        o.check_llvm_version = mask & 1;
        o.check_target_triple = mask & 2;
        o.check_cpu_name = mask & 4;
        if (mask >> which & 1) {
          Refused(c, b, v, m, o, what, b.batch);
        } else if (mask == (7 & ~(1 << which)) && r.P(.3)) {
          Victim w(r.P(.5), 3);
          Status st = LoadInto(b.batch, w.one, w.many, m, o);
          if (!st.ok()) c.Fail("relaxed", what + ", with that check off: " + st.ToString());
          Runs(c, b, w, what + ", with that check off");
          c.Count("loads with one check relaxed that ran");
        }
      }
      c.Nontrivial(vr::Hash(what));
    }
  }
  v.Check(c, "after foreign artifacts");
}
static void Random(Ctx& c, Base& b, Victim& v) {
  Rng& r = c.rng;
  LoadCompiledOptions def;
  for (int q = 0; q < 300; ++q) {
    std::string m;
    switch (r.Below(4)) {
      case 0:
        m.resize(r.Below(200));
        for (auto& x : m) x = static_cast<char>(r.Next());
        break;
      case 1:
        m = b.blob.substr(0, r.Below(b.obj));
        m.resize(m.size() + r.Below(100));
        for (size_t i = m.size() > 60 ? m.size() - 60 : 0; i < m.size(); ++i) m[i] = static_cast<char>(r.Next());
        break;
      case 2: {  // two header changes at once
        m = b.blob;
        for (int k = 0; k < 2; ++k) m[r.Below(8)] ^= static_cast<char>(1 + r.Below(255));
        if (m.compare(0, 8, b.blob, 0, 8) == 0) continue;
        break;
      }
      default: m = std::string(r.Below(64), "JFCAE\x02\0\xff"[r.Below(8)]);
    }
    Refused(c, b, v, m, def, "random bytes " + Quote(m.substr(0, 100)), r.P(.5));
    c.Nontrivial(vr::Hash(m));
  }
  v.Check(c, "after random bytes");
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C15";
  p.quick_cases = 20000;
  p.thorough_cases = 400000;
  p.quick_secs = 20;
  p.thorough_secs = 600;
  p.rule = "distinct damages (byte position and value, truncation length, length value, foreign string, random blob) that were refused";
  p.worker_init = [] { __sanitizer_install_malloc_and_free_hooks(OnMalloc, [](const volatile void*) {}); };
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    Base b;
    MakeBase(c, b);
    if (b.blob.empty() || b.ins.empty()) return;
    if (!Layout(b)) {  // another format: only format-independent damage can be judged
      c.Count("artifacts of an unknown layout");
      Victim v(c.rng.P(.5), 5);
      for (size_t n = 0; n < b.blob.size(); n += 1 + c.rng.Below(20)) Refused(c, b, v, b.blob.substr(0, n), {}, "truncated to " + std::to_string(n), b.batch);
      v.Check(c, "after truncations");
      return;
    }
    Victim v(c.rng.P(.5), static_cast<int32_t>(c.rng.Below(1000)));
    {
      Victim w(c.rng.P(.5), 9);
      Status st = LoadInto(b.batch, w.one, w.many, b.blob, {});
      if (!st.ok()) c.Fail("intact", "the undamaged artifact is refused: " + st.ToString());
      Runs(c, b, w, "the undamaged artifact");
      c.Count("undamaged artifacts run");
    }
    switch (c.idx / 8 % 5) {
      case 0: HeaderBytes(c, b, v); break;
      case 1: Truncations(c, b, v); break;
      case 2: Lengths(c, b, v); break;
      case 3: Foreign(c, b); break;
      default: Random(c, b, v);
    }
    c.Sample("blob of " + std::to_string(b.blob.size()) + " bytes, header " + std::to_string(b.obj) + "; " + c.cur_desc.substr(0, 200));
  });
}
