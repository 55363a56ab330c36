// Programs: a small model AST that can be (1) built as jitfusion nodes, (2) printed as DSL text,
// (3) run by the reference interpreter.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "athena.h"
#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
#include "val.h"

namespace vj {
using jitfusion::BatchExecEngine;
using jitfusion::ExecContext;
using jitfusion::ExecEngine;
using jitfusion::ExecEngineOption;
using jitfusion::ExecNode;
using jitfusion::FPMathMode;
using jitfusion::FunctionRegistry;
using jitfusion::FunctionRegistryFactory;
using jitfusion::FunctionSignature;
using jitfusion::FunctionStructure;
using jitfusion::FunctionType;
using jitfusion::Status;
using jitfusion::StringStruct;
using jitfusion::StringListStruct;
using RegPtr = std::unique_ptr<FunctionRegistry>;
using NodePtr = std::unique_ptr<ExecNode>;

template <class T>
struct StructOf;
#define X(K, C, S, N) \
  template <> struct StructOf<std::vector<C>> { using type = jitfusion::S; };
VJ_NUM(X)
#undef X
template <> struct StructOf<std::string> { using type = StringStruct; };
template <> struct StructOf<std::vector<std::string>> { using type = StringListStruct; };

// ---- inputs -----------------------------------------------------------------------------------
// Each list/string argument lives in its own heap block of exactly its size (ASan red zones around it).
struct Slot {
  RetType val;
  void* data = nullptr;
  uint32_t len = 0;
  std::vector<std::pair<char*, size_t>> strs;
  size_t bytes = 0;
  explicit Slot(const RetType& v) : val(v) { Fill(); }
  Slot(const Slot& o) : val(o.val) { Fill(); }
  Slot& operator=(const Slot&) = delete;
  ~Slot() {
    for (auto& s : strs) free(s.first);
    free(data);
  }
  static char* Exact(const void* p, size_t n) {
    char* b = static_cast<char*>(malloc(n));
    if (n) memcpy(b, p, n);
    return b;
  }
  void Fill() {
    std::visit(
        [&](const auto& x) {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, std::string>) {
            data = Exact(x.data(), bytes = x.size());
            len = x.size();
          } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
            bytes = x.size() * sizeof(StringStruct);
            auto* a = static_cast<StringStruct*>(malloc(bytes));
            if (bytes) memset(static_cast<void*>(a), 0, bytes);
            for (size_t i = 0; i < x.size(); ++i) {
              strs.emplace_back(Exact(x[i].data(), x[i].size()), x[i].size());
              a[i].data = strs.back().first;
              a[i].len = x[i].size();
            }
            data = a;
            len = x.size();
          } else if constexpr (!std::is_arithmetic_v<T>) {
            data = Exact(x.data(), bytes = x.size() * sizeof(x[0]));
            len = x.size();
          } else {
            data = Exact(&x, bytes = sizeof(x));
          }
        },
        val);
  }
  bool Intact() const {  // does memory still hold the value?
    return std::visit(
        [&](const auto& x) -> bool {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, std::vector<std::string>>) {
            auto* a = static_cast<StringStruct*>(data);
            for (size_t i = 0; i < x.size(); ++i) {
              if (a[i].data != strs[i].first || a[i].len != x[i].size()) return false;
              if (x[i].size() && memcmp(a[i].data, x[i].data(), x[i].size()) != 0) return false;
            }
            return true;
          } else if constexpr (std::is_arithmetic_v<T>) {
            return memcmp(data, &x, sizeof x) == 0;
          } else {
            return bytes == 0 || memcmp(data, x.data(), bytes) == 0;
          }
        },
        val);
  }
};
struct Inputs {
  std::vector<std::unique_ptr<Slot>> slots;
  explicit Inputs(const std::vector<RetType>& v = {}) {
    for (auto& x : v) slots.push_back(std::make_unique<Slot>(x));
  }
  void* Ptr() { return this; }
  bool Intact() const {
    for (auto& s : slots)
      if (!s->Intact()) return false;
    return true;
  }
};

// ---- outputs: stores go to fixed memory of the output object only ------------------------------
struct OutRec {
  int32_t id;
  VT t;
  uint32_t len;
  uint64_t hash;
  unsigned char raw[48];
};
struct Out {
  uint32_t n = 0;
  OutRec rec[512];
};
inline uint64_t HashBytes(const void* p, size_t n) { return vr::Hash(std::string(static_cast<const char*>(p), n)); }

template <class T>
inline T Canon(T x) {
  if constexpr (std::is_floating_point_v<T>)
    if (std::isnan(x)) return std::numeric_limits<T>::quiet_NaN();
  return x;
}
inline OutRec MakeRec(int32_t id, const RetType& v) {
  OutRec r;
  memset(&r, 0, sizeof r);
  r.id = id;
  r.t = TypeOf(v);
  std::visit(
      [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_arithmetic_v<T>) {
          T c = Canon(x);
          memcpy(r.raw, &c, sizeof c);
        } else if constexpr (std::is_same_v<T, std::string>) {
          r.len = x.size();
          r.hash = vr::Hash(x);
          memcpy(r.raw, x.data(), std::min(x.size(), sizeof r.raw));
        } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
          r.len = x.size();
          uint64_t h = 7;
          for (auto& s : x) h = vr::Mix(h ^ vr::Hash(s) ^ s.size());
          r.hash = h;
        } else {
          r.len = x.size();
          uint64_t h = 7;
          size_t k = 0;
          for (auto e : x) {
            auto c = Canon(e);
            h = vr::Mix(h ^ HashBytes(&c, sizeof c));
            if ((k + 1) * sizeof c <= sizeof r.raw) memcpy(r.raw + k * sizeof c, &c, sizeof c);
            ++k;
          }
          r.hash = h;
        }
      },
      v);
  return r;
}
inline bool operator==(const OutRec& a, const OutRec& b) {
  return a.id == b.id && a.t == b.t && a.len == b.len && a.hash == b.hash && memcmp(a.raw, b.raw, sizeof a.raw) == 0;
}

// ---- registered functions ----------------------------------------------------------------------
struct Event {
  int32_t id;
  RetType val;
};
inline thread_local std::vector<Event>* g_trace = nullptr;

template <class S>
RetType FromAbi(S s);
template <class T>
RetType FromStruct(T s) {
  using C = typename T::CElementType;
  if constexpr (std::is_same_v<T, StringStruct>) return std::string(s.len ? s.data : "", s.len);
  else if constexpr (std::is_same_v<T, StringListStruct>) {
    std::vector<std::string> v;
    for (uint32_t i = 0; i < s.len; ++i) v.emplace_back(s.data[i].len ? s.data[i].data : "", s.data[i].len);
    return v;
  } else {
    return std::vector<C>(s.data, s.data + s.len);
  }
}
template <class S>
RetType FromAbi(S s) {
  if constexpr (std::is_arithmetic_v<S>) return s;
  else return FromStruct(s);
}
template <class C>
C LdNum(void* e, int32_t i) { return std::get<C>(static_cast<Inputs*>(e)->slots[i]->val); }
template <class S>
S LdObj(void* e, int32_t i) {
  Slot& s = *static_cast<Inputs*>(e)->slots[i];
  S r;
  r.data = static_cast<decltype(r.data)>(s.data);
  r.len = s.len;
  return r;
}
template <class S>
S Eff(int32_t id, S v) {
  if (g_trace) g_trace->push_back({id, FromAbi(v)});
  return v;
}
template <class S>
void St(void* out, int32_t id, S v) {
  auto* o = static_cast<Out*>(out);
  if (o->n < 512) o->rec[o->n] = MakeRec(id, FromAbi(v));
  ++o->n;
}
inline int32_t StV(void* out, int32_t id, int32_t v) {
  St<int32_t>(out, id, v);
  return static_cast<int32_t>(static_cast<uint32_t>(v) * 2 + 1);
}
inline int32_t RecDigest(const OutRec& r) {
  uint32_t x;
  memcpy(&x, r.raw, 4);
  return static_cast<int32_t>(x * 31 + static_cast<uint32_t>(r.id) * 7 + static_cast<uint32_t>(r.t));
}
inline int32_t ReadBack(void* out, int32_t k) {
  auto* o = static_cast<Out*>(out);
  if (k < 0) return static_cast<int32_t>(o->n);
  return static_cast<uint32_t>(k) < std::min<uint32_t>(o->n, 512) ? RecDigest(o->rec[k]) : -7;
}
inline int32_t CountStores(void* out) { return static_cast<int32_t>(static_cast<Out*>(out)->n); }
// fails with a message naming `id` when v is odd; passes v through
inline int32_t MayFail(int32_t id, int32_t v, void* ctx) {
  if (v & 1) static_cast<ExecContext*>(ctx)->AddError("err" + std::to_string(id));
  return v;
}
// returns a list allocated in the execution arena: n copies of v
inline jitfusion::I32ListStruct Rep(int32_t v, uint32_t n, void* ctx) {
  jitfusion::I32ListStruct r;
  r.len = n;
  r.data = reinterpret_cast<int32_t*>(static_cast<ExecContext*>(ctx)->arena.Allocate(n * 4));
  for (uint32_t i = 0; i < n; ++i) r.data[i] = v;
  return r;
}
// functions of many i32 arguments whose result depends on every argument and its place
inline int32_t MixStep(int32_t h, int32_t a) { return static_cast<int32_t>((static_cast<uint32_t>(h) * 31 + static_cast<uint32_t>(a)) ^ (static_cast<uint32_t>(h) >> 7)); }
template <class... A>
int32_t MixAll(A... a) {
  int32_t h = 17;
  ((h = MixStep(h, a)), ...);
  return h;
}
template <size_t>
using I32Of = int32_t;
template <size_t... I>
void* MixPtr(std::index_sequence<I...>) { return reinterpret_cast<void*>(&MixAll<I32Of<I>...>); }
constexpr size_t kMaxMix = 12;
inline void Must(const Status& s, const char* what) {
  if (!s.ok()) {
    fprintf(stderr, "harness: %s: %s\n", what, s.ToString().c_str());
    abort();
  }
}
inline FunctionStructure Opaque(void* p, bool ctx = false) {
  FunctionStructure f;
  f.func_type = FunctionType::kCFunc;
  f.c_func_ptr = p;
  f.needs_exec_ctx = ctx;
  return f;
}
inline void AddMix(FunctionRegistry* r) {
  auto mix = [&](size_t n, void* p) {
    Must(r->RegisterReadOnlyCFunc(FunctionSignature("mix", std::vector<VT>(n, VT::kI32), VT::kI32), p), "mix");
  };
  mix(2, MixPtr(std::make_index_sequence<2>()));
  mix(3, MixPtr(std::make_index_sequence<3>()));
  mix(4, MixPtr(std::make_index_sequence<4>()));
  mix(5, MixPtr(std::make_index_sequence<5>()));
  mix(6, MixPtr(std::make_index_sequence<6>()));
  mix(7, MixPtr(std::make_index_sequence<7>()));
  mix(8, MixPtr(std::make_index_sequence<8>()));
  mix(9, MixPtr(std::make_index_sequence<9>()));
  mix(12, MixPtr(std::make_index_sequence<12>()));
  mix(16, MixPtr(std::make_index_sequence<16>()));
  mix(33, MixPtr(std::make_index_sequence<33>()));
  mix(66, MixPtr(std::make_index_sequence<66>()));
  mix(129, MixPtr(std::make_index_sequence<129>()));
}
inline void AddHarnessFuncs(FunctionRegistry* r) {
  Must(r->RegisterReadOnlyCFunc(FunctionSignature("rb", {VT::kPtr, VT::kI32}, VT::kI32), (void*)&ReadBack), "rb");
  Must(r->RegisterReadOnlyCFunc(FunctionSignature("cnt", {VT::kPtr}, VT::kI32), (void*)&CountStores), "cnt");
  Must(r->RegisterStoreCFunc(FunctionSignature("stv", {VT::kPtr, VT::kI32, VT::kI32}, VT::kI32), (void*)&StV, 1), "stv");
#define X(K, C, S, N)                                                                                                \
  Must(r->RegisterReadOnlyCFunc(FunctionSignature("ld_" #N, {VT::kPtr, VT::kI32}, VT::K), (void*)&LdNum<C>), "ld");   \
  Must(r->RegisterReadOnlyCFunc(FunctionSignature("ld_" #N "list", {VT::kPtr, VT::kI32}, VT::K##List),               \
                                (void*)&LdObj<jitfusion::S>), "ld");                                                  \
  Must(r->RegisterFunc(FunctionSignature("eff", {VT::kI32, VT::K}, VT::K), Opaque((void*)&Eff<C>)), "eff");           \
  Must(r->RegisterFunc(FunctionSignature("eff", {VT::kI32, VT::K##List}, VT::K##List),                               \
                       Opaque((void*)&Eff<jitfusion::S>)), "eff");                                                    \
  Must(r->RegisterStoreCFunc(FunctionSignature("st", {VT::kPtr, VT::kI32, VT::K}, VT::kVoid), (void*)&St<C>, 1), "st"); \
  Must(r->RegisterStoreCFunc(FunctionSignature("st", {VT::kPtr, VT::kI32, VT::K##List}, VT::kVoid),                  \
                             (void*)&St<jitfusion::S>, 1), "st");
  VJ_NUM(X)
#undef X
#define X(K, S, N)                                                                                                    \
  Must(r->RegisterReadOnlyCFunc(FunctionSignature("ld_" #N, {VT::kPtr, VT::kI32}, VT::K), (void*)&LdObj<S>), "ld");    \
  Must(r->RegisterFunc(FunctionSignature("eff", {VT::kI32, VT::K}, VT::K), Opaque((void*)&Eff<S>)), "eff");            \
  Must(r->RegisterStoreCFunc(FunctionSignature("st", {VT::kPtr, VT::kI32, VT::K}, VT::kVoid), (void*)&St<S>, 1), "st");
  X(kString, StringStruct, string)
  X(kStringList, StringListStruct, stringlist)
#undef X
  AddMix(r);
  Must(r->RegisterFunc(FunctionSignature("mayfail", {VT::kI32, VT::kI32, VT::kPtr}, VT::kI32), Opaque((void*)&MayFail)), "mf");
  Must(r->RegisterReadOnlyCFuncWithExecCtx(FunctionSignature("rep", {VT::kI32, VT::kU32}, VT::kI32List), (void*)&Rep), "rep");
}
inline RegPtr MakeReg(bool harness = true) {
  RegPtr r;
  Must(FunctionRegistryFactory::CreateFunctionRegistry(&r), "registry");
  if (harness) AddHarnessFuncs(r.get());
  return r;
}

// ---- model AST -----------------------------------------------------------------------------------
struct Node;
using P = std::shared_ptr<Node>;
using Model = std::function<RetType(const std::vector<RetType>&)>;
enum class NK { Const, In, Un, Bin, Fn, If, Switch, Eff, Store, Seq, When, Ref, Fail, Back };
struct Stmt {
  std::string var;
  bool let = false;
  P e;
};
struct Node {
  NK k;
  VT t = VT::kVoid;
  RetType c;                 // Const
  int32_t id = 0;            // In: slot; Eff/Store/Fail: label
  U uop{};
  B bop{};
  std::string name;          // Fn, Ref
  std::vector<P> ch;         // children; When: cond, body(Seq), ..., [else]
  std::vector<Stmt> body;    // Seq
  Model model;
  bool infix_in = false;
};
inline P Mk(NK k, VT t) {
  auto n = std::make_shared<Node>();
  n->k = k;
  n->t = t;
  return n;
}
inline P Const(RetType v) {
  auto n = Mk(NK::Const, TypeOf(v));
  n->c = std::move(v);
  return n;
}
inline P In(VT t, int32_t slot) {
  auto n = Mk(NK::In, t);
  n->id = slot;
  return n;
}
inline P Un(U op, P a) {
  auto n = Mk(NK::Un, UnType(op, a->t));
  n->uop = op;
  n->ch = {a};
  return n;
}
inline P Bin(B op, P a, P b) {
  auto n = Mk(NK::Bin, BinType(op, a->t, b->t));
  n->bop = op;
  n->ch = {a, b};
  return n;
}
inline P Fn(const std::string& name, std::vector<P> args, VT t, Model m) {
  auto n = Mk(NK::Fn, t);
  n->name = name;
  n->ch = std::move(args);
  n->model = std::move(m);
  return n;
}
inline VT JoinType(VT a, VT b) { return IsNum(a) && IsNum(b) ? Promote(a, b) : a; }
inline P If(P c, P a, P b) {
  auto n = Mk(NK::If, JoinType(a->t, b->t));
  n->ch = {c, a, b};
  return n;
}
inline P Switch(std::vector<P> ch) {
  VT t = VT::kUnknown;
  for (size_t i = 0; i < ch.size(); ++i)
    if (i % 2 == 1 || i + 1 == ch.size()) t = t == VT::kUnknown ? ch[i]->t : JoinType(t, ch[i]->t);
  auto n = Mk(NK::Switch, t);
  n->ch = std::move(ch);
  return n;
}
inline P EffN(int32_t id, P a) {
  auto n = Mk(NK::Eff, a->t);
  n->id = id;
  n->ch = {a};
  return n;
}
inline P StoreN(int32_t id, P a) {
  auto n = Mk(NK::Store, VT::kVoid);
  n->id = id;
  n->ch = {a};
  return n;
}
inline P StoreVN(int32_t id, P a) {  // a store function that returns a value
  auto n = Mk(NK::Store, VT::kI32);
  n->id = id;
  n->ch = {a};
  return n;
}
inline P FailN(int32_t id, P a) {
  auto n = Mk(NK::Fail, VT::kI32);
  n->id = id;
  n->ch = {a};
  return n;
}
// reads the output back: how many stores there were so far (k < 0), or a digest of the k-th
inline P BackN(int32_t k) {
  auto n = Mk(NK::Back, VT::kI32);
  n->id = k;
  return n;
}
inline P RefN(const std::string& name, VT t) {
  auto n = Mk(NK::Ref, t);
  n->name = name;
  return n;
}
inline P Seq(std::vector<Stmt> b) {
  auto n = Mk(NK::Seq, VT::kVoid);
  n->body = std::move(b);
  return n;
}
inline P When(std::vector<P> ch) {
  auto n = Mk(NK::When, VT::kVoid);
  n->ch = std::move(ch);
  return n;
}

// ---- to jitfusion nodes ----------------------------------------------------------------------------
inline NodePtr ConstNode(const RetType& v) {
  return std::visit(
      [](const auto& x) -> NodePtr {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>)
          return std::make_unique<jitfusion::ConstantValueNode>(jitfusion::ConstantValueType(x));
        else
          return std::make_unique<jitfusion::ConstantListValueNode>(jitfusion::ConstantListValueType(x));
      },
      v);
}
inline std::vector<NodePtr> Args() { return {}; }
template <class... A>
std::vector<NodePtr> Args(A&&... a) {
  std::vector<NodePtr> v;
  (v.push_back(std::forward<A>(a)), ...);
  return v;
}
inline NodePtr FnNode(const std::string& name, std::vector<NodePtr> args) {
  return std::make_unique<jitfusion::FunctionNode>(name, std::move(args));
}
inline NodePtr Build(const P& n) {
  switch (n->k) {
    case NK::Const: return ConstNode(n->c);
    case NK::In:
      return FnNode(std::string("ld_") + Name(n->t), Args(NodePtr(new jitfusion::EntryArgumentNode), ConstNode(n->id)));
    case NK::Un: return std::make_unique<jitfusion::UnaryOPNode>(n->uop, Build(n->ch[0]));
    case NK::Bin: return std::make_unique<jitfusion::BinaryOPNode>(n->bop, Build(n->ch[0]), Build(n->ch[1]));
    case NK::Fn: {
      std::vector<NodePtr> a;
      for (auto& c : n->ch) a.push_back(Build(c));
      return FnNode(n->name, std::move(a));
    }
    case NK::If:
    case NK::Switch:
    case NK::When: {
      std::vector<NodePtr> a;
      for (auto& c : n->ch) a.push_back(Build(c));
      if (n->k == NK::If) return std::make_unique<jitfusion::IfNode>(std::move(a));
      if (n->k == NK::Switch) return std::make_unique<jitfusion::SwitchNode>(std::move(a));
      return std::make_unique<jitfusion::IfBlockNode>(std::move(a));
    }
    case NK::Eff: return FnNode("eff", Args(ConstNode(n->id), Build(n->ch[0])));
    case NK::Store: return FnNode(n->t == VT::kVoid ? "st" : "stv", Args(NodePtr(new jitfusion::OutputNode), ConstNode(n->id), Build(n->ch[0])));
    case NK::Back:
      if (n->id < -1) return FnNode("cnt", Args(NodePtr(new jitfusion::OutputNode)));
      return FnNode("rb", Args(NodePtr(new jitfusion::OutputNode), ConstNode(n->id)));
    case NK::Fail:
      return FnNode("mayfail", Args(ConstNode(n->id), Build(n->ch[0]), NodePtr(new jitfusion::ExecContextNode)));
    case NK::Ref: return std::make_unique<jitfusion::RefNode>(n->name);
    case NK::Seq: {
      std::vector<jitfusion::VarInfo> vi;
      std::vector<NodePtr> a;
      for (auto& s : n->body) {
        vi.emplace_back(s.var, s.let);
        a.push_back(Build(s.e));
      }
      return std::make_unique<jitfusion::NoOPNode>(std::move(vi), std::move(a));
    }
  }
  abort();
}

// ---- reference interpreter --------------------------------------------------------------------------
struct Machine {
  const std::vector<RetType>* in = nullptr;
  std::vector<Event> trace;
  std::vector<OutRec> stores;
  std::vector<std::string> errors;
  std::vector<std::map<std::string, RetType>> scopes{1};
  uint64_t steps = 0, branches = 0;

  RetType Eval(const P& n) {
    ++steps;
    switch (n->k) {
      case NK::Const: return n->c;
      case NK::In: return (*in)[n->id];
      case NK::Un: return UnOp(n->uop, Eval(n->ch[0]));
      case NK::Bin: {
        if (IsLogic(n->bop)) {
          bool l = Truthy(Eval(n->ch[0]));
          if (n->bop == B::kAnd ? !l : l) return static_cast<uint8_t>(l);
          return static_cast<uint8_t>(Truthy(Eval(n->ch[1])));
        }
        RetType a = Eval(n->ch[0]);
        RetType b = Eval(n->ch[1]);
        return BinOp(n->bop, a, b);
      }
      case NK::Fn: {
        std::vector<RetType> a;
        for (auto& c : n->ch) a.push_back(Eval(c));
        return n->model(a);
      }
      case NK::If: {
        ++branches;
        bool c = Truthy(Eval(n->ch[0]));
        return Cv(Eval(n->ch[c ? 1 : 2]), n->t);
      }
      case NK::Switch: {
        ++branches;
        size_t i = 0;
        for (; i + 1 < n->ch.size(); i += 2)
          if (Truthy(Eval(n->ch[i]))) return Cv(Eval(n->ch[i + 1]), n->t);
        return Cv(Eval(n->ch.back()), n->t);
      }
      case NK::Eff: {
        RetType v = Eval(n->ch[0]);
        trace.push_back({n->id, v});
        return v;
      }
      case NK::Fail: {
        RetType v = Eval(n->ch[0]);
        if (std::get<int32_t>(v) & 1) errors.push_back("err" + std::to_string(n->id));
        return v;
      }
      case NK::Back:
        if (n->id < 0) return static_cast<int32_t>(stores.size());
        return static_cast<size_t>(n->id) < std::min<size_t>(stores.size(), 512) ? RecDigest(stores[n->id]) : -7;
      case NK::Store: {
        RetType v = Eval(n->ch[0]);
        stores.push_back(MakeRec(n->id, v));
        if (n->t == VT::kI32) return static_cast<int32_t>(static_cast<uint32_t>(std::get<int32_t>(v)) * 2 + 1);
        return {};
      }
      case NK::Ref: return *Find(n->name);
      case NK::Seq: {
        RetType last;
        for (auto& s : n->body) {
          RetType v = Eval(s.e);
          last = v;
          if (s.var.empty()) continue;
          if (RetType* p = Find(s.var)) *p = v;
          else scopes.back()[s.var] = v;
        }
        return n->t == VT::kVoid ? RetType{} : last;
      }
      case NK::When: {
        ++branches;
        size_t i = 0;
        for (; i + 1 < n->ch.size(); i += 2)
          if (Truthy(Eval(n->ch[i]))) {
            Block(n->ch[i + 1]);
            return {};
          }
        if (i < n->ch.size()) Block(n->ch[i]);
        return {};
      }
    }
    abort();
  }
  void Block(const P& b) {
    scopes.emplace_back();
    Eval(b);
    scopes.pop_back();
  }
  static RetType Cv(const RetType& v, VT t) { return IsNum(t) ? Conv(v, t) : v; }
  RetType* Find(const std::string& n) {
    for (auto it = scopes.rbegin(); it != scopes.rend(); ++it) {
      auto f = it->find(n);
      if (f != it->end()) return &f->second;
    }
    return nullptr;
  }
};

// ---- a description for humans (and for replay files) ----------------------------------------------------
inline std::string Dump(const P& n) {
  std::string s;
  auto list = [&](const char* open) {
    s += open;
    for (size_t i = 0; i < n->ch.size(); ++i) s += (i ? ", " : "") + Dump(n->ch[i]);
    s += ")";
  };
  switch (n->k) {
    case NK::Const: return Show(n->c);
    case NK::In: return "in" + std::to_string(n->id) + ":" + Name(n->t);
    case NK::Un: return std::string("(") + OpText(n->uop) + Dump(n->ch[0]) + ")";
    case NK::Bin: return "(" + Dump(n->ch[0]) + " " + OpText(n->bop) + " " + Dump(n->ch[1]) + ")";
    case NK::Fn: list((n->name + "(").c_str()); return s;
    case NK::If: list("if("); return s;
    case NK::Switch: list("switch("); return s;
    case NK::Eff: list(("eff" + std::to_string(n->id) + "(").c_str()); return s;
    case NK::Fail: list(("mayfail" + std::to_string(n->id) + "(").c_str()); return s;
    case NK::Back: return "rb(" + std::to_string(n->id) + ")";
    case NK::Store: list(("store" + std::to_string(n->id) + "(").c_str()); return s;
    case NK::Ref: return n->name;
    case NK::Seq:
      for (auto& b : n->body) s += (b.let ? "let " : "") + (b.var.empty() ? "" : b.var + " = ") + Dump(b.e) + "; ";
      return s;
    case NK::When: {
      for (size_t i = 0; i + 1 < n->ch.size(); i += 2)
        s += std::string(i ? "elif " : "when ") + Dump(n->ch[i]) + " { " + Dump(n->ch[i + 1]) + "} ";
      if (n->ch.size() % 2) s += "else { " + Dump(n->ch.back()) + "} ";
      return s;
    }
  }
  return "?";
}
inline std::string Dump(const std::vector<RetType>& in) {
  std::string s;
  for (size_t i = 0; i < in.size(); ++i) s += "in" + std::to_string(i) + " = " + Show(in[i]) + "\n";
  return s;
}
// shape without constants: what "distinct" counts
inline uint64_t Shape(const P& n) {
  uint64_t h = vr::Mix(static_cast<uint64_t>(n->k) * 131 + static_cast<uint64_t>(n->t) * 7919 +
                       static_cast<uint64_t>(n->uop) * 31 + static_cast<uint64_t>(n->bop) * 37);
  if (n->k == NK::Fn) h ^= vr::Hash(n->name);
  for (auto& c : n->ch) h = vr::Mix(h * 3 + Shape(c));
  for (auto& s : n->body) h = vr::Mix(h * 5 + Shape(s.e) + vr::Hash(s.var) + s.let);
  return h;
}
inline std::string Recs(const std::vector<OutRec>& v) {
  std::string s;
  for (auto& r : v) {
    char b[200];
    std::string hex;
    for (int i = 0; i < 16; ++i) {
      snprintf(b, sizeof b, "%02x", r.raw[i]);
      hex += b;
    }
    snprintf(b, sizeof b, "  store id=%d type=%s len=%u raw=%s\n", r.id, Name(r.t), r.len, hex.c_str());
    s += b;
  }
  return s;
}
inline std::vector<OutRec> Stored(const Out& o) {
  return std::vector<OutRec>(o.rec, o.rec + std::min<uint32_t>(o.n, 512));
}
}  // namespace vj
