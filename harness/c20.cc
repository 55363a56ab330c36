// C20: function registration and resolution are exact.
// The harness registers generated C functions of ~100 shapes (arities 0-9, every type, pointers, optional context) under
// few names, in histories of registrations, overrides and refused registrations. Every function answers with a hash of its
// own identity and of the bits and order of all arguments it received, so a result tells which registration was called and
// with what. Functions registered without a declaration also log their calls.
#include <utility>
#include "common/prog.h"
#include "common/run.h"
#include "llvm/IR/IRBuilder.h"
using namespace vj;
using vr::Ctx;

// ---- shapes, fixed at compile time -------------------------------------------------------------------
constexpr uint32_t H(uint32_t x) {
  x ^= x >> 16;
  x *= 0x7feb352dU;
  x ^= x >> 15;
  x *= 0x846ca68bU;
  return x ^ (x >> 16);
}
enum { kTPtr = 22, kTVoid = 23 };  // 0-9 numbers, 10 string, 11-20 lists, 21 string list
constexpr int kShapes = 72;
constexpr int Arity(int s) {
  if (s == 0 || s == 1) return 1;
  if (s == 2) return 2;
  if (s < 28) return static_cast<int>(s % 4);
  return static_cast<int>(H(static_cast<uint32_t>(s)) % 10);
}
constexpr int TypeAt(int s, int j) {
  if (s == 0) return 9;                 // sin(f64)
  if (s == 1) return 13;                // Sum(u32list) or similar
  if (s == 2) return 10;                // StringConcat(string, string)
  uint32_t h = H(static_cast<uint32_t>(s) * 977u + static_cast<uint32_t>(j) * 31u + 5u);
  if (s % 3 == 0 && j == 1) return TypeAt(s, 0);  // candidates for commutative functions
  if (s % 5 == 4) return h % 3 == 0 ? static_cast<int>(h / 3 % 10) : 10 + static_cast<int>(h / 3 % 12);  // many structures
  if (h % 7 == 0) return kTPtr;
  if (h % 2) return static_cast<int>(h / 14 % 10);
  return static_cast<int>(h / 14 % 22);
}
// the result type depends on which of the functions of a shape it is, so an override can change it
constexpr int RetAt(int s, int id) {
  uint32_t h = H(static_cast<uint32_t>(s) * 71u + static_cast<uint32_t>(id) + 3u);
  return static_cast<int>(h % 22);
}
template <int T> struct AbiOf;
#define A(N, C) template <> struct AbiOf<N> { using type = C; };
A(0, int8_t) A(1, uint8_t) A(2, int16_t) A(3, uint16_t) A(4, int32_t) A(5, uint32_t) A(6, int64_t) A(7, uint64_t) A(8, float) A(9, double)
A(10, StringStruct) A(11, jitfusion::I8ListStruct) A(12, jitfusion::U8ListStruct) A(13, jitfusion::I16ListStruct) A(14, jitfusion::U16ListStruct)
A(15, jitfusion::I32ListStruct) A(16, jitfusion::U32ListStruct) A(17, jitfusion::I64ListStruct) A(18, jitfusion::U64ListStruct)
A(19, jitfusion::F32ListStruct) A(20, jitfusion::F64ListStruct) A(21, StringListStruct) A(22, void*)
#undef A
template <int T> using Abi = typename AbiOf<T>::type;
static const VT kVT[] = {VT::kI8, VT::kU8, VT::kI16, VT::kU16, VT::kI32, VT::kU32, VT::kI64, VT::kU64, VT::kF32, VT::kF64, VT::kString,
                         VT::kI8List, VT::kU8List, VT::kI16List, VT::kU16List, VT::kI32List, VT::kU32List, VT::kI64List, VT::kU64List,
                         VT::kF32List, VT::kF64List, VT::kStringList, VT::kPtr, VT::kVoid};

// ---- values <-> hashes --------------------------------------------------------------------------------
static uint64_t HashVal(const RetType& v) {
  OutRec r = MakeRec(0, v);
  return vr::Mix(r.hash ^ HashBytes(r.raw, sizeof r.raw) ^ (static_cast<uint64_t>(v.index()) << 56));
}
static void *g_entry, *g_out, *g_ctx;  // what the pointers of the running call must be; null: unknown
static uint64_t PtrName(const void* p) { return p == g_entry ? 11 : p == g_out ? 22 : g_ctx ? (p == g_ctx ? 33 : 44) : (p ? 33 : 44); }
template <class S>
uint64_t HashAbi(S s) {
  if constexpr (std::is_same_v<S, void*>) return PtrName(s);
  else return HashVal(FromAbi(s));
}
// results of functions: numbers from the hash, everything else from a fixed pool
static RetType PoolVal(int t, uint64_t h) {
  uint32_t n = static_cast<uint32_t>(h % 5);
  uint64_t m = h % 1000003;
  std::string s = "r" + std::to_string(h % 16);
  h %= 16;
  (void)m;
  switch (t) {
#define L(N, C) case N: { std::vector<C> v; for (uint32_t i = 0; i < 1 + h % 4; ++i) v.push_back(static_cast<C>(h * 7 + i)); return v; }
    L(11, int8_t) L(12, uint8_t) L(13, int16_t) L(14, uint16_t) L(15, int32_t) L(16, uint32_t) L(17, int64_t) L(18, uint64_t) L(19, float) L(20, double)
#undef L
    case 21: return std::vector<std::string>{s, "", s + s};
    default: (void)n; return s;
  }
}
static std::vector<std::unique_ptr<Slot>>& Pool(int t) {
  static std::map<int, std::vector<std::unique_ptr<Slot>>> p;
  auto& v = p[t];
  if (v.empty())
    for (uint64_t i = 0; i < 16; ++i) v.push_back(std::make_unique<Slot>(PoolVal(t, i)));
  return v;
}
template <int T>
Abi<T> Answer(uint64_t h) {
  if constexpr (T < 8) return static_cast<Abi<T>>(h);
  else if constexpr (T < 10) return static_cast<Abi<T>>(static_cast<int32_t>(h % 1000003) - 500000);
  else {
    Slot& s = *Pool(T)[h % 16];
    Abi<T> r;
    r.data = static_cast<decltype(r.data)>(s.data);
    r.len = s.len;
    return r;
  }
}
static RetType AnswerModel(int t, uint64_t h) {
  switch (t) {
#define N(I, C) case I: return static_cast<C>(h);
    N(0, int8_t) N(1, uint8_t) N(2, int16_t) N(3, uint16_t) N(4, int32_t) N(5, uint32_t) N(6, int64_t) N(7, uint64_t)
#undef N
    case 8: return static_cast<float>(static_cast<int32_t>(h % 1000003) - 500000);
    case 9: return static_cast<double>(static_cast<int32_t>(h % 1000003) - 500000);
    default: return PoolVal(t, h);
  }
}

// ---- the functions --------------------------------------------------------------------------------------
// id: 0, 1 pure; 2 logs; 3 pure and symmetric in its first two arguments; 4 writes to its first pointer argument
enum { kSym = 3, kStore = 4, kLog = 2, kIntrin = 5 };
static std::vector<uint64_t>* g_log;
static uint64_t Combine(int s, int id, bool ctx, const uint64_t* a, int n) {
  uint64_t h = vr::Mix(static_cast<uint64_t>(s) * 1009 + static_cast<uint64_t>(id) * 17 + ctx);
  int i = 0;
  if (id == kSym && n >= 2) h = vr::Mix(h + a[0] + a[1]), i = 2;
  for (; i < n; ++i) h = vr::Mix(h * 31 + a[i] + static_cast<uint64_t>(i));
  return h;
}
static void Append(void* out, uint64_t h) { St<int64_t>(out, 5, static_cast<int64_t>(h)); }
template <class S>
void TryOut(S v, void** out) {
  if constexpr (std::is_same_v<S, void*>)
    if (!*out) *out = v;
}
template <int S, int Id, bool C, class Seq>
struct Body;
template <int S, int Id, size_t... J>
struct Body<S, Id, false, std::index_sequence<J...>> {
  static Abi<RetAt(S, Id)> F(Abi<TypeAt(S, J)>... a) {
    const uint64_t v[] = {0, HashAbi(a)...};
    uint64_t h = Combine(S, Id, false, v + 1, sizeof...(J));
    if (Id == kLog && g_log) g_log->push_back(h);
    if (Id == kStore) {
      void* o = nullptr;
      (TryOut(a, &o), ...);
      if (o) Append(o, h);
    }
    return Answer<RetAt(S, Id)>(h);
  }
};
template <int S, int Id, size_t... J>
struct Body<S, Id, true, std::index_sequence<J...>> {
  static Abi<RetAt(S, Id)> F(Abi<TypeAt(S, J)>... a, void* ctx) {
    const uint64_t v[] = {HashAbi(a)..., PtrName(ctx)};
    uint64_t h = Combine(S, Id, true, v, sizeof...(J) + 1);
    if (Id == kLog && g_log) g_log->push_back(h);
    return Answer<RetAt(S, Id)>(h);
  }
};
static void* g_fn[kShapes][5][2];
template <int S, int Id>
void FillId() {
  g_fn[S][Id][0] = (void*)&Body<S, Id, false, std::make_index_sequence<Arity(S)>>::F;
  g_fn[S][Id][1] = (void*)&Body<S, Id, true, std::make_index_sequence<Arity(S)>>::F;
}
template <int... S>
void Fill(std::integer_sequence<int, S...>) {
  ((FillId<S, 0>(), FillId<S, 1>(), FillId<S, kLog>(), FillId<S, kSym>(), FillId<S, kStore>()), ...);
}

// ---- registrations -----------------------------------------------------------------------------------
struct Key {
  std::string name;
  std::vector<VT> args;
  bool operator<(const Key& o) const { return std::tie(name, args) < std::tie(o.name, o.args); }
  std::string Str() const {
    std::string s = name + "(";
    for (auto t : args) s += std::string(Name(t)) + " ";
    return s + ")";
  }
};
struct Impl {
  int s = -1, id = 0;     // s < 0: shipped with the library
  bool ctx = false;       // the C function takes the context last
  bool given = false;     // ... and the call has to pass it
  VT Ret() const { return id == kIntrin ? VT::kI64 : kVT[RetAt(s, id)]; }
};
static std::vector<VT> ShapeTypes(int s) {
  std::vector<VT> v;
  for (int j = 0; j < Arity(s); ++j) v.push_back(kVT[TypeAt(s, j)]);
  return v;
}
static bool HasPtr(int s) {
  for (int j = 0; j < Arity(s); ++j)
    if (TypeAt(s, j) == kTPtr) return true;
  return false;
}
static bool AllInts(int s) {
  for (int j = 0; j < Arity(s); ++j)
    if (TypeAt(s, j) >= 8) return false;
  return true;
}
static uint64_t Bits(const RetType& v) {
  return std::visit([](const auto& x) -> uint64_t {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_integral_v<T>) return static_cast<uint64_t>(static_cast<std::make_unsigned_t<T>>(x));
    else return 0;
  }, v);
}

struct Reg1 {
  RegPtr reg;
  std::map<Key, Impl> m;
};

// ---- calls --------------------------------------------------------------------------------------------
struct Arg;
struct Call {
  Key key;
  Impl impl;
  std::vector<Arg> args;
};
struct Arg {
  enum { kIn, kConst, kCall, kEntry, kOut, kCtx } k = kIn;
  int slot = 0;
  RetType c;
  std::shared_ptr<Call> call;
};
static NodePtr ToNode(const Call& c);
static NodePtr ToNode(const Arg& a, VT t) {
  switch (a.k) {
    case Arg::kIn: return Build(In(t, a.slot));
    case Arg::kConst: return ConstNode(a.c);
    case Arg::kCall: return ToNode(*a.call);
    case Arg::kEntry: return NodePtr(new jitfusion::EntryArgumentNode);
    case Arg::kOut: return NodePtr(new jitfusion::OutputNode);
    default: return NodePtr(new jitfusion::ExecContextNode);
  }
}
static NodePtr ToNode(const Call& c) {
  std::vector<NodePtr> v;
  for (size_t i = 0; i < c.args.size(); ++i) v.push_back(ToNode(c.args[i], c.key.args[i]));
  return FnNode(c.key.name, std::move(v));
}
static std::string ToText(const Call& c) {
  std::string s = c.key.name + "(";
  for (size_t i = 0; i < c.args.size(); ++i) {
    const Arg& a = c.args[i];
    if (i) s += ", ";
    switch (a.k) {
      case Arg::kIn: s += std::string("ld_") + Name(c.key.args[i]) + "(entry_arg, " + std::to_string(a.slot) + ")"; break;
      case Arg::kConst: {
        std::string t = Text(Const(a.c));
        s += t.substr(0, t.size() - 1);
        break;
      }
      case Arg::kCall: s += ToText(*a.call); break;
      case Arg::kEntry: s += "entry_arg"; break;
      case Arg::kOut: s += "output"; break;
      default: s += "exec_ctx";
    }
  }
  return s + ")";
}
struct Seen {
  std::vector<uint64_t> log;
  std::vector<OutRec> stores;
};
static RetType Eval(const Call& c, const std::vector<RetType>& in, Seen* seen) {
  std::vector<uint64_t> h;
  std::vector<RetType> vals;
  for (auto& a : c.args) {
    RetType v;
    switch (a.k) {
      case Arg::kIn: v = in[static_cast<size_t>(a.slot)]; break;
      case Arg::kConst: v = a.c; break;
      case Arg::kCall: v = Eval(*a.call, in, seen); break;
      default: break;
    }
    vals.push_back(v);
    h.push_back(a.k == Arg::kEntry ? 11 : a.k == Arg::kOut ? 22 : a.k == Arg::kCtx ? 33 : HashVal(v));
  }
  if (c.impl.id == kIntrin) {
    uint64_t acc = static_cast<uint64_t>(c.impl.s) + 77;
    for (auto& v : vals) acc = acc * 31 + Bits(v);
    return static_cast<int64_t>(acc);
  }
  if (c.impl.ctx && !c.impl.given) h.push_back(33);
  uint64_t x = Combine(c.impl.s, c.impl.id, c.impl.ctx, h.data(), static_cast<int>(h.size()));
  if (c.impl.id == kLog) seen->log.push_back(x);
  if (c.impl.id == kStore) seen->stores.push_back(MakeRec(5, static_cast<int64_t>(x)));
  return AnswerModel(RetAt(c.impl.s, c.impl.id), x);
}

struct World {
  Ctx& c;
  Rng& r;
  Reg1 g;
  std::vector<RetType> in;
  std::unique_ptr<Inputs> inp;
  std::map<VT, std::vector<int>> slots;
  struct Old {
    std::unique_ptr<ExecEngine> e;
    Call call;
    bool is_void;
  };
  std::vector<Old> old;
  explicit World(Ctx& cc) : c(cc), r(cc.rng) {
    g.reg = MakeReg();
    for (int t = 0; t < 22; ++t) {
      VT vt = kVT[t];
      for (int k = 0; k < 2; ++k) {
        slots[vt].push_back(static_cast<int>(in.size()));
        RetType v = RandOf(r, vt);
        while (HasNaN(v)) v = RandOf(r, vt);  // a NaN's bits may change when it is passed along
        in.push_back(v);
      }
    }
    inp = std::make_unique<Inputs>(in);
    for (int s = 0; s < 3; ++s)
      for (int with = 0; with < 2; ++with) {
        std::vector<VT> t = ShapeTypes(s);
        if (with) t.push_back(VT::kPtr);
        FunctionSignature sg(BuiltIn(s), t, VT::kUnknown);
        FunctionStructure fs;
        if (g.reg->GetFuncBySign(sg, &fs).ok()) g.m[{BuiltIn(s), t}] = Impl{};
      }
  }
  static bool HasNaN(const RetType& v) {
    return std::visit([](const auto& x) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_floating_point_v<T>) return x != x;
      else if constexpr (std::is_same_v<T, std::vector<float>> || std::is_same_v<T, std::vector<double>>) {
        for (auto y : x) if (y != y) return true;
      }
      return false;
    }, v);
  }
  static const char* BuiltIn(int s) { return s == 0 ? "sin" : s == 1 ? "Sum" : "StringConcat"; }

  // one registration, sound or clashing
  void Register() {
    int s = r.P(.12) ? static_cast<int>(r.Below(3)) : static_cast<int>(r.Below(kShapes));
    static const char* names[] = {"f", "g", "ff", "f_", "F"};
    std::string name = s < 3 && r.P(.5) ? BuiltIn(s) : names[r.Below(5)];
    std::vector<VT> types = ShapeTypes(s);
    if (!g.m.empty() && r.P(.35)) {  // a signature that is taken
      std::vector<std::pair<std::string, int>> taken;
      for (auto& [k, im] : g.m)
        if (im.s >= 0 && !im.given) taken.push_back({k.name, im.s});
      if (!taken.empty()) {
        auto& t = taken[r.Below(taken.size())];
        name = t.first;
        s = t.second;
        types = ShapeTypes(s);
      }
    }
    bool over = r.P(.4);
    int form = static_cast<int>(r.Below(9));
    Impl im;
    im.s = s;
    std::vector<VT> declared = types;
    Status st;
    std::string what;
    auto sig = [&] { return FunctionSignature(name, declared, im.Ret()); };
    auto fn = [&] { return g_fn[s][im.id][im.ctx]; };
    bool two = false;  // also registers the form that takes the context explicitly
    std::vector<VT> with = types;
    with.push_back(VT::kPtr);
    switch (form) {
      case 0: default:
        im.id = static_cast<int>(r.Below(2));
        what = "ReadOnly";
        st = g.reg->RegisterReadOnlyCFunc(sig(), fn(), over);
        break;
      case 1:
        im.id = r.P(.7) ? kLog : static_cast<int>(r.Below(2));
        what = "plain";
        st = g.reg->RegisterFunc(sig(), Opaque(fn()), over);
        break;
      case 2:
        im.id = static_cast<int>(r.Below(2));
        im.ctx = two = true;
        what = "ReadOnlyWithExecCtx";
        st = g.reg->RegisterReadOnlyCFuncWithExecCtx(sig(), fn(), over);
        break;
      case 3:
        if (Arity(s) < 2 || TypeAt(s, 0) != TypeAt(s, 1)) return;
        im.id = kSym;
        what = "Commutative";
        st = g.reg->RegisterCommutativeCFunc(sig(), fn(), over);
        break;
      case 4:
        if (Arity(s) < 2 || TypeAt(s, 0) != TypeAt(s, 1)) return;
        im.id = kSym;
        im.ctx = two = true;
        what = "CommutativeWithExecCtx";
        st = g.reg->RegisterCommutativeCFuncWithExecCtx(sig(), fn(), over);
        break;
      case 5: {
        if (!HasPtr(s)) return;
        im.id = kStore;
        what = "Store";
        uint32_t at = 0;
        while (types[at] != VT::kPtr) ++at;
        st = g.reg->RegisterStoreCFunc(sig(), fn(), at + 1, over);
        break;
      }
      case 6: {
        if (!AllInts(s)) return;
        im.id = kIntrin;
        what = "intrinsic";
        int ss = s;
        st = g.reg->RegisterLLVMIntrinicFunc(sig(), [ss](const FunctionSignature& fs, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>& a, jitfusion::IRCodeGenContext& cg) -> llvm::Value* {
          llvm::Value* acc = cg.builder.getInt64(static_cast<uint64_t>(ss) + 77);
          (void)fs;
          for (auto* v : a) acc = cg.builder.CreateAdd(cg.builder.CreateMul(acc, cg.builder.getInt64(31)), cg.builder.CreateZExt(v, cg.builder.getInt64Ty()));
          return acc;
        }, over);
        break;
      }
      case 7:  // explicit context as the last parameter
        im.id = r.P(.5) ? kLog : static_cast<int>(r.Below(2));
        im.ctx = im.given = true;
        declared = with;
        what = "plain, context given";
        st = g.reg->RegisterFunc(sig(), Opaque(fn()), over);
        break;
      case 8:
        im.id = r.P(.5) ? kLog : static_cast<int>(r.Below(2));
        im.ctx = true;
        what = "plain, context passed by the engine";
        st = g.reg->RegisterFunc(sig(), Opaque(fn(), true), over);
        break;
    }
    Key k{name, declared}, kw{name, with};
    c.AddDesc("register " + what + " " + k.Str() + " shape " + std::to_string(s) + "/" + std::to_string(im.id) + (over ? " override" : "") + ": " + st.ToString() + "\n");
    bool clash = !over && (g.m.count(k) || (two && g.m.count(kw)));
    if (clash == st.ok()) c.Fail("register", (clash ? "a taken signature is registered: " : "a free signature or an override is refused: ") + k.Str() + ": " + st.ToString());
    c.Count(clash ? "registrations refused" : over && g.m.count(k) ? "overrides" : "registrations");
    if (clash) return;
    g.m[k] = im;
    if (two) {
      im.given = true;
      g.m[kw] = im;
    }
  }
  Arg MakeArg(VT t, const Call& parent, size_t i, int depth) {
    Arg a;
    if (t == VT::kPtr) {
      bool last = i + 1 == parent.key.args.size();
      a.k = last && parent.impl.given ? Arg::kCtx : parent.impl.id == kStore && FirstPtr(parent.key) == i ? Arg::kOut : r.P(.5) ? Arg::kEntry : Arg::kOut;
      return a;
    }
    if (depth > 0 && r.P(.45)) {
      std::vector<const std::pair<const Key, Impl>*> fit;
      for (auto& e : g.m)
        if (e.second.s >= 0 && e.second.Ret() == t) fit.push_back(&e);
      if (!fit.empty()) {
        auto* e = fit[r.Below(fit.size())];
        a.k = Arg::kCall;
        a.call = std::make_shared<Call>(MakeCall(e->first, e->second, depth - 1));
        return a;
      }
    }
    if (r.P(.3)) {
      a.k = Arg::kConst;
      a.c = RandOf(r, t);
      while (HasNaN(a.c)) a.c = RandOf(r, t);
      return a;
    }
    a.slot = slots[t][r.Below(2)];
    return a;
  }
  static size_t FirstPtr(const Key& k) {
    size_t i = 0;
    while (k.args[i] != VT::kPtr) ++i;
    return i;
  }
  Call MakeCall(const Key& k, const Impl& im, int depth) {
    Call x;
    x.key = k;
    x.impl = im;
    for (size_t i = 0; i < k.args.size(); ++i) x.args.push_back(MakeArg(k.args[i], x, i, depth));
    return x;
  }
  static size_t Size(const Call& x) {
    size_t n = 1;
    for (auto& a : x.args)
      if (a.call) n += Size(*a.call);
    return n;
  }
  static bool TextOk(const Call& x) {
    for (auto& a : x.args) {
      if (a.k == Arg::kConst && (HasList(a.c) || (TypeOf(a.c) != VT::kU64 && static_cast<int64_t>(Sext(a.c)) < 0))) return false;  // literals of the DSL cannot spell every value
      if (a.call && !TextOk(*a.call)) return false;
    }
    return true;
  }
  static uint64_t Sext(const RetType& v) {
    return std::visit([](const auto& x) -> uint64_t {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_integral_v<T>) return static_cast<uint64_t>(static_cast<int64_t>(x));
      else return 0;
    }, v);
  }
  static bool HasList(const RetType& v) { return IsList(TypeOf(v)) || TypeOf(v) == VT::kString || TypeOf(v) == VT::kStringList || IsFloat(TypeOf(v)); }
  static bool HasStore(const Call& x) {
    if (x.impl.id == kStore) return true;
    for (auto& a : x.args)
      if (a.call && HasStore(*a.call)) return true;
    return false;
  }
  static bool UsesOut(const Call& x) {
    for (auto& a : x.args)
      if (a.k == Arg::kOut || (a.call && UsesOut(*a.call))) return true;
    return false;
  }
  static bool UsesCtx(const Call& x) {
    if (x.impl.ctx) return true;
    for (auto& a : x.args)
      if (a.call && UsesCtx(*a.call)) return true;
    return false;
  }

  void RunCall(ExecEngine* e, athena::AthenaExpression* ax, const Call& x, bool is_void, const std::string& when) {
    Seen want;
    auto out = std::make_unique<Out>();
    RetType w = Eval(x, in, &want), v;
    ExecContext ctx(64);
    std::vector<uint64_t> log;
    bool own = r.P(.7);
    g_entry = inp->Ptr();
    g_out = is_void ? out.get() : nullptr;
    g_ctx = own ? static_cast<void*>(&ctx) : nullptr;
    g_log = &log;
    Status st;
    if (is_void) {
      void* o = out.get();
      st = own ? e->Execute(ctx, inp->Ptr(), o) : e->Execute(inp->Ptr(), o);
    } else if (ax) {
      st = own ? ax->Execute(ctx, inp->Ptr(), &v) : ax->Execute(inp->Ptr(), &v);
    } else {
      st = own ? e->Execute(ctx, inp->Ptr(), &v) : e->Execute(inp->Ptr(), &v);
    }
    g_log = nullptr;
    std::string d = when + ": " + ToText(x);
    if (!st.ok()) c.Fail("status", d + " gives " + st.ToString());
    if (!is_void && !Same(v, w)) c.Fail("wrong-call", d + "\ngives " + Name(TypeOf(v)) + " " + Show(v) + "\nexpected " + Name(TypeOf(w)) + " " + Show(w));
    if (log != want.log) c.Fail("wrong-call", d + ": " + std::to_string(log.size()) + " logged calls differ from the " + std::to_string(want.log.size()) + " expected");
    if (!(Stored(*out) == want.stores)) c.Fail("wrong-call", d + "\n" + SpotDiff(Stored(*out), want.stores));
    c.Count("calls checked", Size(x));
    c.Count("programs run");
  }
  void CheckCall() {
    std::vector<const std::pair<const Key, Impl>*> all;
    for (auto& e : g.m)
      if (e.second.s >= 0) all.push_back(&e);
    if (all.empty()) return;
    auto* e = all[r.Below(all.size())];
    Call x = MakeCall(e->first, e->second, 1 + static_cast<int>(r.Below(3)));
    if (Size(x) > 40) return;
    bool is_void = UsesOut(x);
    // what the registry says
    FunctionSignature sg(x.key.name, x.key.args, VT::kUnknown);
    FunctionStructure fs;
    Status st = g.reg->GetFuncBySign(sg, &fs);
    if (!st.ok() || sg.GetRetType() != x.impl.Ret()) c.Fail("lookup", x.key.Str() + ": " + st.ToString() + " " + Name(sg.GetRetType()));
    if (x.impl.id != kIntrin && fs.c_func_ptr != g_fn[x.impl.s][x.impl.id][x.impl.ctx]) c.Fail("lookup", x.key.Str() + " finds another function");
    if (!is_void && TextOk(x) && r.P(.4)) {
      athena::AthenaExpression ax(Opt(true));
      std::string t = ToText(x) + ";";
      st = ax.Compile(t, g.reg);
      if (!st.ok()) c.Fail("refused", t + "\n" + st.ToString());
      RunCall(nullptr, &ax, x, false, "text");
      c.Nontrivial(vr::Hash(t));
      return;
    }
    NodePtr n = ToNode(x);
    if (is_void) {
      std::vector<jitfusion::VarInfo> vi;
      vi.emplace_back("", false);
      n = std::make_unique<jitfusion::NoOPNode>(std::move(vi), Args(std::move(n)));
    }
    bool save = r.P(.2);
    auto eng = std::make_unique<ExecEngine>(Opt(true, save));
    st = eng->Compile(n, g.reg);
    if (!st.ok()) c.Fail("refused", ToText(x) + "\n" + st.ToString());
    RunCall(eng.get(), nullptr, x, is_void, "nodes");
    c.Nontrivial(vr::Hash(ToText(x)));
    if (save) {
      std::string s;
      st = eng->SaveCompiled(&s);
      if (!st.ok()) c.Fail("save", st.ToString());
      auto l = std::make_unique<ExecEngine>(Opt(true));
      st = l->LoadCompiled(s, g.reg);
      if (!st.ok()) c.Fail("load", ToText(x) + "\n" + st.ToString());
      RunCall(l.get(), nullptr, x, is_void, "loaded");
      c.Count("loaded programs run");
      eng = std::move(l);
    }
    if (r.P(.3)) old.push_back({std::move(eng), x, is_void});
    // twice in one program: the second may be merged with the first only if that cannot be seen
  }
  // signatures next to the registered ones must not resolve
  void CheckAbsent() {
    std::vector<const std::pair<const Key, Impl>*> all;
    for (auto& e : g.m)
      if (e.second.s >= 0) all.push_back(&e);
    if (all.empty()) return;
    auto* e = all[r.Below(all.size())];
    Key k = e->first;
    switch (r.Below(5)) {
      case 0: if (k.args.empty()) return; k.args.pop_back(); break;
      case 1: k.args.push_back(kVT[r.Below(22)]); break;
      case 2: if (k.args.empty()) return; k.args[r.Below(k.args.size())] = kVT[r.Below(22)]; break;
      case 3: if (k.args.size() < 2) return; std::swap(k.args[0], k.args[k.args.size() - 1]); break;
      default: k.name = r.P(.5) ? k.name + "f" : std::string(1, static_cast<char>(k.name[0] ^ 32)) + k.name.substr(1);
    }
    if (g.m.count(k)) return;
    for (const char* b : {"sin", "Sum", "StringConcat"})
      if (k.name == b) return;
    Call x = MakeCall(k, Impl{}, 0);
    FunctionSignature sg(k.name, k.args, VT::kUnknown);
    FunctionStructure fs;
    if (g.reg->GetFuncBySign(sg, &fs).ok()) c.Fail("lookup", "finds " + k.Str() + ", which is not registered");
    NodePtr n = ToNode(x);
    ExecEngine eng;
    Status st = eng.Compile(n, g.reg);
    if (st.ok()) c.Fail("resolved", ToText(x) + " compiles although " + k.Str() + " is not registered");
    c.Count("unregistered signatures refused");
  }
  void CheckOld() {
    if (old.empty()) return;
    Old& o = old[r.Below(old.size())];
    RunCall(o.e.get(), nullptr, o.call, o.is_void, "compiled before later registrations");
    c.Count("engines compiled before later registrations");
  }
};

// ---- declared functions inside whole programs ------------------------------------------------------------
// Read-only functions that read what the stores of the same program wrote, commutative calls with their arguments in
// both orders, the same call many times: none may be moved across a store, merged or reordered visibly.
static int32_t Peek(void* out, int32_t x) { return static_cast<int32_t>(static_cast<Out*>(out)->n) * 1000 + x; }
static int32_t Last(void* out, int32_t x) {
  auto* o = static_cast<Out*>(out);
  return o->n ? static_cast<int32_t>(o->rec[o->n - 1].id) + x : x;
}
static int32_t Cm(int32_t a, int32_t b) { return static_cast<int32_t>(static_cast<uint32_t>(a) * static_cast<uint32_t>(b) ^ (static_cast<uint32_t>(a) + static_cast<uint32_t>(b)) * 77u); }
static int32_t CmX(int32_t a, int32_t b, void* ctx) { return Cm(a, b) + (ctx != nullptr); }
static int32_t CmS(StringStruct a, StringStruct b) { return static_cast<int32_t>(a.len * b.len + 3 * (a.len + b.len)); }
static int32_t CmL(jitfusion::I32ListStruct a, jitfusion::I32ListStruct b, void* ctx) {
  uint32_t x = 0, y = 0;
  for (uint32_t i = 0; i < a.len; ++i) x += static_cast<uint32_t>(a.data[i]);
  for (uint32_t i = 0; i < b.len; ++i) y += static_cast<uint32_t>(b.data[i]);
  return static_cast<int32_t>(x * y + a.len + b.len) + (ctx ? 5 : 0);
}
static int32_t Cm4(int32_t a, int32_t b, int32_t k, int32_t l) { return static_cast<int32_t>(static_cast<uint32_t>(Cm(a, b)) * 3 + static_cast<uint32_t>(k) * 1001 - static_cast<uint32_t>(l)); }
static int32_t Cm3X(int32_t a, int32_t b, int32_t k, void* ctx) { return static_cast<int32_t>(static_cast<uint32_t>(Cm(a, b)) * 3 + static_cast<uint32_t>(k) * 1001 + (ctx != nullptr)); }
static Machine* g_machine;
// stores whose output comes late among the arguments, after strings and floats, or that also take other pointers
static void StLate(int32_t id, int32_t v, double, int64_t, void* out) { St<int32_t>(out, id, v); }
static void StStr(StringStruct s, int32_t id, int32_t v, void* out) {
  if (s.len == 4 && memcmp(s.data, "mark", 4) == 0) St<int32_t>(out, id, v);
}
static int32_t StMany(float, int32_t, int32_t, int32_t, int32_t id, int32_t v, void* out, int8_t) {
  St<int32_t>(out, id, v);
  return v;
}
static void StIn(int32_t id, void* in, int32_t v, void* out) {
  if (in != nullptr) St<int32_t>(out, id, v);
}
static int32_t Peek1(void* out) { return static_cast<int32_t>(static_cast<Out*>(out)->n); }
static RegPtr& PReg() {
  static RegPtr r = [] {
    RegPtr x = MakeReg();
    auto s = [](const char* n, std::vector<VT> t, VT ret) { return FunctionSignature(n, t, ret); };
    Must(x->RegisterReadOnlyCFunc(s("peek", {VT::kPtr, VT::kI32}, VT::kI32), (void*)&Peek), "peek");
    Must(x->RegisterReadOnlyCFunc(s("last", {VT::kPtr, VT::kI32}, VT::kI32), (void*)&Last), "last");
    const VT I = VT::kI32;
    Must(x->RegisterReadOnlyCFunc(s("peek1", {VT::kPtr}, I), (void*)&Peek1), "peek1");
    Must(x->RegisterStoreCFunc(s("stlate", {I, I, VT::kF64, VT::kI64, VT::kPtr}, VT::kVoid), (void*)&StLate, 5), "stlate");
    Must(x->RegisterStoreCFunc(s("ststr", {VT::kString, I, I, VT::kPtr}, VT::kVoid), (void*)&StStr, 4), "ststr");
    Must(x->RegisterStoreCFunc(s("stmany", {VT::kF32, I, I, I, I, I, VT::kPtr, VT::kI8}, I), (void*)&StMany, 7), "stmany");
    Must(x->RegisterStoreCFunc(s("stin", {I, VT::kPtr, I, VT::kPtr}, VT::kVoid), (void*)&StIn, 4), "stin");
    Must(x->RegisterCommutativeCFunc(s("cm", {VT::kI32, VT::kI32}, VT::kI32), (void*)&Cm), "cm");
    Must(x->RegisterCommutativeCFuncWithExecCtx(s("cmx", {VT::kI32, VT::kI32}, VT::kI32), (void*)&CmX), "cmx");
    Must(x->RegisterCommutativeCFunc(s("cm4", {I, I, I, I}, I), (void*)&Cm4), "cm4");
    Must(x->RegisterCommutativeCFuncWithExecCtx(s("cm3x", {I, I, I}, I), (void*)&Cm3X), "cm3x");
    Must(x->RegisterCommutativeCFunc(s("cms", {VT::kString, VT::kString}, VT::kI32), (void*)&CmS), "cms");
    Must(x->RegisterCommutativeCFuncWithExecCtx(s("cml", {VT::kI32List, VT::kI32List}, VT::kI32), (void*)&CmL), "cml");
    return x;
  }();
  return r;
}
struct ProgWorld {
  Ctx& c;
  Rng& r;
  std::vector<std::string> vars;
  int32_t next = 1;
  int nvar = 0;
  explicit ProgWorld(Ctx& cc) : c(cc), r(cc.rng) {}
  P Peeking() {
    if (r.P(.3)) return Fn("peek1", {}, VT::kI32, [](const std::vector<RetType>&) -> RetType { return static_cast<int32_t>(g_machine->stores.size()); });
    bool last = r.P(.4);
    return Fn(last ? "last" : "peek", {Const(static_cast<int32_t>(r.Below(3)))}, VT::kI32, [last](const std::vector<RetType>& v) -> RetType {
      auto& st = g_machine->stores;
      int32_t x = std::get<int32_t>(v[0]);
      return last ? (st.empty() ? x : st.back().id + x) : static_cast<int32_t>(st.size()) * 1000 + x;
    });
  }
  P E(int d) {
    switch (r.Below(d > 0 ? 9 : 3)) {
      case 0: return Peeking();
      case 1: return In(VT::kI32, static_cast<int32_t>(r.Below(2)));
      case 2:
        if (!vars.empty()) return RefN(vars[r.Below(vars.size())], VT::kI32);
        return Const(static_cast<int32_t>(r.Below(5)));
      case 3:
      case 4: {
        P a = E(d - 1), b = E(d - 1);
        bool x = r.P(.4);
        if (r.P(.3)) {  // symmetric in the first two of several arguments
          std::vector<P> as{a, b, E(d - 1)};
          if (!x) as.push_back(E(d - 1));
          return Fn(x ? "cm3x" : "cm4", std::move(as), VT::kI32, [x](const std::vector<RetType>& v) -> RetType {
            auto u = [&](size_t i) { return static_cast<uint32_t>(std::get<int32_t>(v[i])); };
            uint32_t h = static_cast<uint32_t>(Cm(static_cast<int32_t>(u(0)), static_cast<int32_t>(u(1)))) * 3 + u(2) * 1001;
            return static_cast<int32_t>(x ? h + 1 : h - u(3));
          });
        }
        return Fn(x ? "cmx" : "cm", {a, b}, VT::kI32, [x](const std::vector<RetType>& v) -> RetType {
          return static_cast<int32_t>(Cm(std::get<int32_t>(v[0]), std::get<int32_t>(v[1])) + x);
        });
      }
      case 5: {
        P a = In(VT::kString, 2), b = r.P(.5) ? In(VT::kString, 3) : Const(std::string("xyz"));
        if (r.P(.5)) std::swap(a, b);
        return Fn("cms", {a, b}, VT::kI32, [](const std::vector<RetType>& v) -> RetType {
          uint32_t x = static_cast<uint32_t>(std::get<std::string>(v[0]).size()), y = static_cast<uint32_t>(std::get<std::string>(v[1]).size());
          return static_cast<int32_t>(x * y + 3 * (x + y));
        });
      }
      case 6: {
        P a = In(VT::kI32List, 4), b = In(VT::kI32List, 5);
        if (r.P(.5)) std::swap(a, b);
        return Fn("cml", {a, b}, VT::kI32, [](const std::vector<RetType>& v) -> RetType {
          uint32_t s[2] = {0, 0}, n = 5;
          for (int i = 0; i < 2; ++i)
            for (int32_t y : std::get<std::vector<int32_t>>(v[static_cast<size_t>(i)])) s[i] += static_cast<uint32_t>(y), ++n;
          return static_cast<int32_t>(s[0] * s[1] + n);
        });
      }
      case 7: return Bin(r.P(.5) ? B::kAdd : B::kSub, E(d - 1), E(d - 1));
      default: return If(Bin(B::kBitwiseAnd, E(d - 1), Const(static_cast<int32_t>(1))), E(d - 1), E(d - 1));
    }
  }
  std::vector<P> used;
  P Some() {  // often an expression that stood earlier, perhaps with the arguments the other way round
    if (!used.empty() && r.P(.5)) {
      P e = used[r.Below(used.size())];
      if (e->k == NK::Fn && e->ch.size() >= 2 && e->name.compare(0, 2, "cm") == 0 && r.P(.6)) {
        std::vector<P> as = e->ch;
        std::swap(as[0], as[1]);
        return Fn(e->name, std::move(as), e->t, e->model);
      }
      return e;
    }
    P e = E(3);
    if (!UsesVar(e)) used.push_back(e);
    return e;
  }
  static bool UsesVar(const P& e) {
    if (e->k == NK::Ref) return true;
    for (auto& x : e->ch)
      if (UsesVar(x)) return true;
    return false;
  }
  P Block(int depth, int n) {
    std::vector<Stmt> b;
    size_t scope = vars.size();
    for (int i = 0; i < n; ++i) {
      uint64_t k = r.Below(depth > 0 ? 10 : 8);
      if (k < 2) {
        std::string v = "v" + std::to_string(nvar++);
        b.push_back({v, false, Some()});
        vars.push_back(v);
      } else if (k < 8) {
        b.push_back({"", false, StoreN(next++, Some())});
      } else {
        std::vector<P> ch{Bin(B::kBitwiseAnd, Some(), Const(static_cast<int32_t>(1))), Block(depth - 1, 1 + static_cast<int>(r.Below(3)))};
        if (r.P(.6)) ch.push_back(Block(depth - 1, 1 + static_cast<int>(r.Below(3))));
        b.push_back({"", false, When(std::move(ch))});
      }
    }
    vars.resize(scope);
    return Seq(std::move(b));
  }
  void Go() {
    P e = Block(2, 3 + static_cast<int>(r.Below(10)));
    e->body.push_back({"", false, StoreN(next++, Peeking())});
    std::string d = Dump(e);
    c.Desc(d);
    ExecEngine eng(Opt(true));
    NodePtr n = BuildPeek(e);
    Status st = eng.Compile(n, PReg());
    if (!st.ok()) c.Fail("refused", st.ToString());
    for (int round = 0; round < 4; ++round) {
      std::vector<RetType> in{RandOf(r, VT::kI32), RandOf(r, VT::kI32), RandOf(r, VT::kString), RandOf(r, VT::kString), RandOf(r, VT::kI32List), RandOf(r, VT::kI32List)};
      Machine m;
      g_machine = &m;
      RetType v;
      if (!Reference(e, in, &m, &v)) continue;
      Inputs inp(in);
      auto out = std::make_unique<Out>();
      void* o = out.get();
      st = eng.Execute(inp.Ptr(), o);
      if (!st.ok()) c.Fail("status", st.ToString());
      if (!(Stored(*out) == m.stores)) c.Fail("declared", "on\n" + Dump(in) + SpotDiff(Stored(*out), m.stores));
      c.Count("stores of programs with declared functions", m.stores.size());
      if (m.stores.size()) c.Nontrivial(Shape(e) + m.stores.back().hash);
    }
    c.Count("programs with declared functions");
  }
  static NodePtr BuildPeek(const P& n) {  // like Build, but peek and last take the output
    switch (n->k) {
      case NK::Fn: {
        std::vector<NodePtr> a;
        if (n->name == "peek" || n->name == "last" || n->name == "peek1") a.push_back(NodePtr(new jitfusion::OutputNode));
        for (auto& c : n->ch) a.push_back(BuildPeek(c));
        return FnNode(n->name, std::move(a));
      }
      case NK::Bin: return std::make_unique<jitfusion::BinaryOPNode>(n->bop, BuildPeek(n->ch[0]), BuildPeek(n->ch[1]));
      case NK::If:
      case NK::When: {
        std::vector<NodePtr> a;
        for (auto& c : n->ch) a.push_back(BuildPeek(c));
        if (n->k == NK::If) return std::make_unique<jitfusion::IfNode>(std::move(a));
        return std::make_unique<jitfusion::IfBlockNode>(std::move(a));
      }
      case NK::Store:
        if (n->ch[0]->t == VT::kI32) {  // which store function: settled by the label
          auto out = [] { return NodePtr(new jitfusion::OutputNode); };
          auto k = [](auto v) { return ConstNode(RetType(v)); };
          switch (n->id % 7) {
            case 1: return FnNode("stlate", Args(k(n->id), BuildPeek(n->ch[0]), k(0.5), k(int64_t{7}), out()));
            case 2: return FnNode("ststr", Args(k(std::string("mark")), k(n->id), BuildPeek(n->ch[0]), out()));
            case 3: return FnNode("stmany", Args(k(1.5f), k(1), k(2), k(3), k(n->id), BuildPeek(n->ch[0]), out(), k(int8_t{-1})));
            case 4: return FnNode("stin", Args(k(n->id), NodePtr(new jitfusion::EntryArgumentNode), BuildPeek(n->ch[0]), out()));
            default: break;
          }
        }
        return FnNode("st", Args(NodePtr(new jitfusion::OutputNode), ConstNode(n->id), BuildPeek(n->ch[0])));
      case NK::Seq: {
        std::vector<jitfusion::VarInfo> vi;
        std::vector<NodePtr> a;
        for (auto& s : n->body) {
          vi.emplace_back(s.var, s.let);
          a.push_back(BuildPeek(s.e));
        }
        return std::make_unique<jitfusion::NoOPNode>(std::move(vi), std::move(a));
      }
      default: return Build(n);
    }
  }
};

// ---- small integers are extended ------------------------------------------------------------------------------
// A caller extends 8- and 16-bit integers to 32 bits by their signedness: clang compiles functions that rely on it (GCC's
// extend again). The callee below keeps the registers it was entered with.
#if defined(__x86_64__)
extern "C" {
__attribute__((used)) int64_t vj_c20_regs[6];
int64_t vj_c20_capture();
}
asm(R"(
.text
.globl vj_c20_capture
.type vj_c20_capture,@function
vj_c20_capture:
  leaq vj_c20_regs(%rip), %rax
  movq %rdi, (%rax)
  movq %rsi, 8(%rax)
  movq %rdx, 16(%rax)
  movq %rcx, 24(%rax)
  movq %r8, 32(%rax)
  movq %r9, 40(%rax)
  xorl %eax, %eax
  ret
.size vj_c20_capture, .-vj_c20_capture
)");
static const VT kArgT[] = {VT::kI8, VT::kU8, VT::kI16, VT::kU16, VT::kI32, VT::kF64};
static void Extended(Ctx& c) {
  Rng& r = c.rng;
  static std::vector<std::vector<VT>> sigs;
  static RegPtr reg = [&] {
    RegPtr q = MakeReg();
    vr::Rng fixed(12345);
    std::set<std::vector<VT>> seen;
    while (sigs.size() < 80) {
      std::vector<VT> t(1 + fixed.Below(7));
      size_t ints = 0;
      for (auto& x : t) {
        x = kArgT[fixed.P(.85) ? fixed.Below(4) : 4 + fixed.Below(2)];
        ints += x != VT::kF64;
      }
      if (ints == 0 || ints > 6 || !seen.insert(t).second) continue;
      Must(q->RegisterReadOnlyCFunc(FunctionSignature("regs", t, VT::kI64), reinterpret_cast<void*>(&vj_c20_capture)), "regs");
      sigs.push_back(t);
    }
    return q;
  }();
  GenOpt o;
  o.dsl = true;
  Gen g(r, o);
  for (VT t : {VT::kI32, VT::kI32, VT::kI8, VT::kU8, VT::kI16, VT::kU16, VT::kI64}) g.in.push_back(t);
  auto& sig = sigs[r.Below(sigs.size())];
  std::vector<P> args;
  for (VT t : sig) {
    P e = t == VT::kF64 ? g.Leaf(t) : r.P(.5) ? g.CastN(g.Expr(r.P(.5) ? VT::kI32 : VT::kI64, 1), t) : g.Expr(t, 2);
    args.push_back(e);
  }
  P call = Fn("regs", args, VT::kI64, [](const std::vector<RetType>&) -> RetType { return int64_t{0}; });
  std::string text = Text(call);
  c.Desc(text);
  ExecEngine eng(Opt(true)), loaded(Opt(true));
  athena::AthenaExpression ex(Opt(true));
  int how = static_cast<int>(r.Below(3));
  ExecEngineOption op = Opt(true);
  op.enable_save_compiled = true;
  ExecEngine saver(op);
  Status st;
  if (how == 0) {
    st = eng.Compile(Build(call), reg);
  } else if (how == 1) {
    st = ex.Compile(text, reg);
  } else {
    st = saver.Compile(Build(call), reg);
    std::string bytes;
    if (st.ok()) st = saver.SaveCompiled(&bytes);
    if (st.ok()) st = loaded.LoadCompiled(bytes, reg);
  }
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", st.ToString());
  }
  for (int k = 0; k < 8; ++k) {
    auto in = g.InValues();
    std::vector<RetType> want;
    bool ok = true;
    for (auto& a : args) {
      Machine m;
      RetType v;
      ok = ok && Reference(a, in, &m, &v);
      want.push_back(v);
    }
    if (!ok) continue;
    Inputs inp(in);
    RetType got;
    memset(vj_c20_regs, 0x5a, sizeof vj_c20_regs);
    st = how == 0 ? eng.Execute(inp.Ptr(), &got) : how == 1 ? ex.Execute(inp.Ptr(), &got) : loaded.Execute(inp.Ptr(), &got);
    if (!st.ok()) c.Fail("status", st.ToString());
    size_t at = 0;
    for (size_t i = 0; i < sig.size(); ++i) {
      if (sig[i] == VT::kF64) continue;
      int64_t x = 0;
      WithNum(sig[i], [&](auto z) -> RetType {
        x = static_cast<int32_t>(std::get<decltype(z)>(want[i]));
        return z;
      });
      if (static_cast<int32_t>(vj_c20_regs[at]) != static_cast<int32_t>(x))
        c.Fail("extension", "argument " + std::to_string(i) + " of type " + Name(sig[i]) + " is passed as " + std::to_string(static_cast<int32_t>(vj_c20_regs[at])) +
                                ", its value is " + std::to_string(x) + ", on\n" + Dump(in));
      ++at;
      c.Count("register arguments compared with their extension");
    }
  }
  c.Nontrivial(Shape(call));
}
#endif

int main(int argc, char** argv) {
  Fill(std::make_integer_sequence<int, kShapes>());
  vr::Plan p;
  p.id = "C20";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 20;
  p.thorough_secs = 600;
  p.rule = "histories of registrations under few names and many shapes; calls whose result is a hash of the callee's identity and of every argument's bits and position";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
#if defined(__x86_64__)
    if (c.idx / 8 % 6 == 5) {
      for (int i = 0; i < 4; ++i) Extended(c);
      return;
    }
#endif
    if (c.idx % 2) {
      for (int i = 0; i < 4; ++i) ProgWorld(c).Go();
      return;
    }
    World w(c);
    c.Desc("");
    int n = 20 + static_cast<int>(c.rng.Below(60));
    for (int i = 0; i < n; ++i) {
      uint64_t k = c.rng.Below(10);
      if (k < 5 || i < 6) w.Register();
      else if (k < 8) w.CheckCall();
      else if (k < 9) w.CheckAbsent();
      else w.CheckOld();
    }
    w.g.reg.reset();
    for (int i = 0; i < 3; ++i) w.CheckOld();
  });
}
