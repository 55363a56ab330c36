// C24: whatever an object acquired is released with it, and repeating a call does not make the process grow.
// The harness replaces malloc and free and the page-mapping calls with counting versions. A case is a list of
// operations; the same list is run round after round, every program of a round with constants of its own, and at the
// end of each round (every temporary object gone, long-lived ones left as they were) the live heap blocks, the live
// heap bytes, the mapped pages and the open descriptors are read. A figure that goes on growing is a violation.
#include <dirent.h>
#include <malloc.h>
#include <sys/syscall.h>
#include <atomic>
#include <map>
#include "ast_builder.h"
#include "common/fn.h"
#include "common/prog.h"
#include "common/run.h"

// ---- counting allocator ------------------------------------------------------------------------------------
static std::atomic<int64_t> g_blocks{0}, g_bytes{0}, g_pages{0}, g_calls{0};
extern "C" {
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
// Every block carries its exact size in front (what malloc_usable_size says depends on the state of the free lists).
struct Head {
  void* base;
  uint64_t size;
  uint64_t magic, pad;
};
static const uint64_t kMagic = 0x5eedb10c5eedb10cULL;
static void* Got(size_t n, size_t align) {
  if (align < 16) align = 16;
  size_t room = n + sizeof(Head) + align;
  if (room < n) return nullptr;
  char* base = static_cast<char*>(__libc_malloc(room));
  if (!base) return nullptr;
  auto at = (reinterpret_cast<uintptr_t>(base) + sizeof(Head) + align - 1) & ~static_cast<uintptr_t>(align - 1);
  Head* h = reinterpret_cast<Head*>(at) - 1;
  *h = {base, n, kMagic ^ at, 0};
  g_blocks.fetch_add(1, std::memory_order_relaxed);
  g_bytes.fetch_add(static_cast<int64_t>(n), std::memory_order_relaxed);
  g_calls.fetch_add(1, std::memory_order_relaxed);
  return reinterpret_cast<void*>(at);
}
static Head* Of(void* p) {  // null: a block from before these functions were in place
  Head* h = static_cast<Head*>(p) - 1;
  return h->magic == (kMagic ^ reinterpret_cast<uintptr_t>(p)) ? h : nullptr;
}
void* malloc(size_t n) { return Got(n, 16); }
void* calloc(size_t n, size_t m) {
  size_t t;
  if (__builtin_mul_overflow(n, m, &t)) return nullptr;
  void* p = Got(t, 16);
  if (p) memset(p, 0, t);
  return p;
}
void free(void* p) {
  if (!p) return;
  Head* h = Of(p);
  if (!h) return __libc_free(p);
  g_blocks.fetch_sub(1, std::memory_order_relaxed);
  g_bytes.fetch_sub(static_cast<int64_t>(h->size), std::memory_order_relaxed);
  h->magic = 0;
  __libc_free(h->base);
}
void* realloc(void* p, size_t n) {
  if (!p) return Got(n, 16);
  Head* h = Of(p);
  if (!h) return __libc_realloc(p, n);
  if (n == 0) return free(p), nullptr;
  void* q = Got(n, 16);
  if (!q) return nullptr;
  memcpy(q, p, std::min<size_t>(n, h->size));
  free(p);
  return q;
}
size_t malloc_usable_size(void* p) {
  Head* h = p ? Of(p) : nullptr;
  return h ? h->size : 0;
}
void* memalign(size_t a, size_t n) { return Got(n, a); }
void* aligned_alloc(size_t a, size_t n) { return Got(n, a); }
void* valloc(size_t n) { return Got(n, 4096); }
int posix_memalign(void** p, size_t a, size_t n) {
  void* q = Got(n, a);
  if (!q) return 12;
  *p = q;
  return 0;
}
static int64_t Pages(size_t n) { return static_cast<int64_t>((n + 4095) / 4096); }
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  void* p = reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
  if (p != MAP_FAILED) g_pages.fetch_add(Pages(n));
  return p;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void* a, size_t n) {
  int r = static_cast<int>(syscall(SYS_munmap, a, n));
  if (r == 0) g_pages.fetch_sub(Pages(n));
  return r;
}
}

using namespace vj;
using vr::Ctx;
int FnCollect06(int, char**);
int FnCollect07(int, char**);
int FnCollect08(int, char**);
int FnCollect09(int, char**);
static FnRun g_fns;  // every signature of the built-in functions

struct Level {
  int64_t blocks, bytes, pages, fds;
};
static int64_t Fds() {
  int64_t n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static Level ReadLevel() {
  Level l;
  l.fds = Fds();
  l.blocks = g_blocks;
  l.bytes = g_bytes;
  l.pages = g_pages;
  return l;
}

// an object in the arena that owns heap memory
struct Owner {
  std::vector<int32_t> v;
  std::string s;
  explicit Owner(size_t n) : v(n, 7), s(n, 's') {}
};
static int32_t Own(uint32_t n, uint32_t count, void* ctx) {
  Owner* o = nullptr;
  for (uint32_t i = 0; i < count; ++i) o = static_cast<ExecContext*>(ctx)->arena.Create<Owner>(n);
  return o->v[n - 1];
}

// ---- operations --------------------------------------------------------------------------------------------
struct Op {
  std::string what;
  std::function<void(int round)> run;
};
struct Maker {
  Ctx& c;
  Rng& r;
  std::vector<std::shared_ptr<void>> keep;
  static std::string Num(int round) { return std::to_string(100000 + round); }

  ExecEngineOption Option() {
    ExecEngineOption o = Opt(r.P(.5), r.P(.5), r.P(.3));
    static const int64_t chunk[] = {1, 64, 4096, 65536};
    o.exec_ctx_arena_alloc_min_chunk_size = chunk[r.Below(4)];
    return o;
  }
  // a value expression / a pipeline; the constant differs from round to round
  struct Prog {
    P e;
    std::vector<RetType> in;
    bool is_void;
    P At(int round) const {
      if (is_void) {
        P s = Seq(e->body);
        s->body.push_back({"", false, StoreN(900, Const(static_cast<int32_t>(100000 + round)))});
        s->body.push_back({"", false, StoreN(901, Const("text" + Num(round)))});
        return s;
      }
      return If(Bin(B::kNotEqual, In(VT::kI32, 0), Const(static_cast<int32_t>(100000 + round))), e, e);
    }
  };
  Prog Make(bool is_void, bool dsl, int depth = 3) {
    for (;;) {
      GenOpt o;
      o.fails = !dsl && r.P(.3);
      o.dsl = dsl;
      Gen g(r, o);
      g.in.push_back(VT::kI32);
      g.MakeInputs(2 + r.Below(3));
      Prog p;
      p.is_void = is_void;
      if (is_void) {
        ProgOpt po;
        po.stmts = 1 + static_cast<int>(r.Below(5));
        po.nest = 2;
        ProgGen pg(g, po);
        p.e = pg.Pipeline();
      } else {
        p.e = g.Expr(r.P(.3) ? r.Pick(kLists) : r.P(.3) ? VT::kString : g.AnyT(), depth);
      }
      for (int t = 0; t < 6; ++t) {
        p.in = g.InValues();
        Machine m;
        RetType v;
        if (Reference(p.At(0), p.in, &m, &v) && m.stores.size() < 400) return p;
      }
    }
  }
  static std::string Lines(const std::string& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }

  static void RunOne(ExecEngine& e, const Prog& p, ExecContext* ctx) {
    Inputs in(p.in);
    auto out = std::make_unique<Out>();
    RetType v;
    if (p.is_void) ctx ? (void)e.Execute(*ctx, in.Ptr(), static_cast<void*>(out.get())) : (void)e.Execute(in.Ptr(), static_cast<void*>(out.get()));
    else ctx ? (void)e.Execute(*ctx, in.Ptr(), &v) : (void)e.Execute(in.Ptr(), &v);
  }
  std::shared_ptr<ExecContext> Context() {
    if (r.P(.4)) return nullptr;
    return std::make_shared<ExecContext>(r.P(.5) ? 16 : 4096);
  }

  Op Single() {
    bool live = r.P(.5);  // one engine recompiled, or an engine per round
    auto opt = Option();
    auto p = std::make_shared<Prog>(Make(r.P(.3), false));
    auto eng = std::make_shared<std::unique_ptr<ExecEngine>>();
    auto ctx = Context();
    int execs = static_cast<int>(r.Below(4));
    return {std::string(live ? "recompile one engine: " : "new engine: ") + Lines(Dump(p->At(0))), [=, this](int k) {
              if (!*eng) *eng = std::make_unique<ExecEngine>(opt);
              {
                auto node = Build(p->At(k));
                if ((*eng)->Compile(node, Reg()).ok()) c.Count("single compiles");
              }
              for (int i = 0; i < execs; ++i) RunOne(**eng, *p, ctx.get()), c.Count("executions");
              if (!live) eng->reset();
            }};
  }
  Op Many() {
    bool live = r.P(.5);
    auto opt = Option();
    auto ps = std::make_shared<std::vector<Prog>>();
    bool v = r.P(.3);
    for (size_t n = 1 + r.Below(4); n; --n) ps->push_back(Make(v, false, 2));
    std::string d;
    for (auto& p : *ps) d += Lines(Dump(p.At(0))) + "\n";
    auto eng = std::make_shared<std::unique_ptr<BatchExecEngine>>();
    auto ctx = Context();
    return {std::string(live ? "recompile one batch: " : "new batch: ") + d, [=, this](int k) {
              if (!*eng) *eng = std::make_unique<BatchExecEngine>(opt);
              {
                std::vector<NodePtr> n;
                for (auto& p : *ps) n.push_back(Build(p.At(k)));
                if ((*eng)->Compile(n, Reg()).ok()) c.Count("batch compiles");
              }
              for (size_t i = 0; i < ps->size(); ++i) {
                Inputs in((*ps)[i].in);
                auto out = std::make_unique<Out>();
                RetType v;
                Status st;
                if ((*ps)[i].is_void) ctx ? st = (*eng)->ExecuteAt(i, *ctx, in.Ptr(), static_cast<void*>(out.get())) : st = (*eng)->ExecuteAt(i, in.Ptr(), static_cast<void*>(out.get()));
                else ctx ? st = (*eng)->ExecuteAt(i, *ctx, in.Ptr(), &v) : st = (*eng)->ExecuteAt(i, in.Ptr(), &v);
                c.Count("executions");
              }
              if (!live) eng->reset();
            }};
  }
  Op Expr() {
    bool live = r.P(.5);
    auto opt = Option();
    auto p = std::make_shared<Prog>(Make(false, true, 2));
    auto eng = std::make_shared<std::unique_ptr<athena::AthenaExpression>>();
    return {std::string(live ? "recompile one text expression: " : "new text expression: ") + Lines(Text(p->At(0), {})), [=, this](int k) {
              if (!*eng) *eng = std::make_unique<athena::AthenaExpression>(opt);
              std::string t = "v1 = " + Num(k) + "; v2 = v1 + " + Num(k) + "; " + Text(p->At(k), {});
              if ((*eng)->Compile(t, Reg()).ok()) c.Count("expression texts compiled");
              Inputs in(p->in);
              RetType v;
              (void)(*eng)->Execute(in.Ptr(), &v);
              if (!live) eng->reset();
            }};
  }
  Op Pipe() {
    bool live = r.P(.5);
    auto opt = Option();
    auto ps = std::make_shared<std::vector<Prog>>();
    for (size_t n = 1 + r.Below(4); n; --n) {
      ps->push_back(Make(true, true, 2));
      ps->back().in = (*ps)[0].in;
    }
    bool same_in = true;  // executed only when every pipeline reads inputs of the same shape
    for (auto& p : *ps) {
      Machine m;
      RetType v;
      try {
        same_in = same_in && ps->size() == 1 && Reference(p.At(0), p.in, &m, &v);
      } catch (...) {
        same_in = false;
      }
    }
    std::string d;
    for (auto& p : *ps) d += Lines(Text(p.At(0), {})) + "\n";
    auto eng = std::make_shared<std::unique_ptr<athena::AthenaPipeline>>();
    return {std::string(live ? "recompile one pipeline: " : "new pipeline: ") + d, [=, this](int k) {
              if (!*eng) *eng = std::make_unique<athena::AthenaPipeline>(opt);
              std::vector<std::string> t;
              for (auto& p : *ps) t.push_back(Text(p.At(k), {}));
              if ((*eng)->Compile(t, Reg()).ok()) c.Count("pipeline texts compiled");
              if (same_in) {
                Inputs in((*ps)[0].in);
                auto out = std::make_unique<Out>();
                (void)(*eng)->Execute(in.Ptr(), static_cast<void*>(out.get()));
              }
              if (!live) eng->reset();
            }};
  }
  // text that is refused, at any stage
  std::string Broken(Prog& p) {
    std::string t = Text(p.At(0), {});
    switch (r.Below(7)) {
      case 0: return t.substr(0, r.Below(t.size()));                                                  // cut off
      case 1: t.insert(r.Below(t.size()), r.P(.5) ? ")" : " @ "); return t;                            // a stray token
      case 2: return t + " when (1) { a = [1, 2, 3]; b = \"left open\"; if (a, ";                      // inside a block
      case 3: return t + " zz = nosuch(\"s\", [1.5, 2.5], 7u8); zz;";                                  // unknown function
      case 4: return t + " zz = \"a\" + 1; zz;";                                                       // types
      case 5: return t + " zz = unknown_variable; zz;";
      default: return t + " switch(1, [\"a\", \"b\"], 0, [\"c\"], ); \x01";
    }
  }
  Op BadText() {
    bool pipe = r.P(.5), live = r.P(.5);
    auto opt = Option();
    Prog p = Make(pipe, true, 2);
    std::string t = Broken(p);
    auto e = std::make_shared<std::unique_ptr<athena::AthenaExpression>>();
    auto q = std::make_shared<std::unique_ptr<athena::AthenaPipeline>>();
    return {std::string("refused ") + (pipe ? "pipeline: " : "expression: ") + Lines(t), [=, this](int k) {
              std::string s = "n" + Num(k) + " = " + Num(k) + "; " + t;
              Status st;
              if (pipe) {
                if (!*q) *q = std::make_unique<athena::AthenaPipeline>(opt);
                st = (*q)->Compile({s, "st_i32(output, 1, 1);"}, Reg());
                if (!live) q->reset();
              } else {
                if (!*e) *e = std::make_unique<athena::AthenaExpression>(opt);
                st = (*e)->Compile(s, Reg());
                if (!live) e->reset();
              }
              c.Count(st.ok() ? "broken texts that compile after all" : "refused texts");
            }};
  }
  Op BadTree() {
    bool live = r.P(.5), batch = r.P(.5);
    auto opt = Option();
    auto p = std::make_shared<Prog>(Make(false, false, 2));
    int kind = static_cast<int>(r.Below(4));
    auto one = std::make_shared<std::unique_ptr<ExecEngine>>();
    auto many = std::make_shared<std::unique_ptr<BatchExecEngine>>();
    return {"refused tree " + std::to_string(kind) + ": " + Lines(Dump(p->e)), [=, this](int k) {
              P bad;
              P x = Const("text" + Num(k));
              switch (kind) {
                case 0: bad = Fn("nosuch" + Num(k), {p->e, x}, VT::kI32, nullptr); break;
                case 1: bad = Mk(NK::Bin, VT::kI32), bad->bop = B::kAdd, bad->ch = {p->e, x}, bad->ch[0] = Const(1); break;
                case 2: bad = Seq({{"a", true, p->e}, {"a", false, p->e}, {"", false, StoreN(k, Const(1))}}); break;
                default: bad = Bin(B::kDiv, Const(k), Const(0));
              }
              Status st;
              if (batch) {
                if (!*many) *many = std::make_unique<BatchExecEngine>(opt);
                std::vector<NodePtr> n;
                n.push_back(Build(p->At(k)));
                n.push_back(Build(bad));
                st = (*many)->Compile(n, Reg());
                if (!live) many->reset();
              } else {
                if (!*one) *one = std::make_unique<ExecEngine>(opt);
                auto n = Build(bad);
                st = (*one)->Compile(n, Reg());
                if (!live) one->reset();
              }
              c.Count(st.ok() ? "broken trees that compile after all" : "refused trees");
            }};
  }
  Op Artifact() {
    auto opt = Option();
    opt.enable_save_compiled = true;
    auto p = std::make_shared<Prog>(Make(r.P(.3), false));
    bool batch = r.P(.4), live = r.P(.5), again = r.P(.5);
    int damage = r.P(.5) ? static_cast<int>(1 + r.Below(3)) : 0;
    uint64_t where = r.Next();
    auto one = std::make_shared<std::unique_ptr<ExecEngine>>();
    auto many = std::make_shared<std::unique_ptr<BatchExecEngine>>();
    std::shared_ptr<std::string> kept = std::make_shared<std::string>();
    return {std::string("save and load ") + (damage ? "damaged bytes, " : "") + (batch ? "batch: " : "engine: ") + Lines(Dump(p->At(0))), [=, this](int k) {
              std::string bytes = *kept;
              if (bytes.empty() || again) {
                auto node = Build(p->At(k));
                bytes.clear();
                if (batch) {
                  BatchExecEngine b(opt);
                  std::vector<NodePtr> n;
                  n.push_back(std::move(node));
                  n.push_back(ConstNode(RetType(k)));
                  if (!b.Compile(n, Reg()).ok() || !b.SaveCompiled(&bytes).ok()) return;
                } else {
                  ExecEngine e(opt);
                  if (!e.Compile(node, Reg()).ok() || !e.SaveCompiled(&bytes).ok()) return;
                }
                c.Count("artifacts saved");
                if (!again && kept->empty()) *kept = bytes;
              }
              std::string in = bytes;
              if (damage == 1) in.resize(where % in.size());
              if (damage == 2) in[where % std::min<size_t>(in.size(), 60)] ^= static_cast<char>(1 + (where >> 40) % 255);
              if (damage == 3) in += "tail";
              Status st;
              if (batch) {
                if (!*many) *many = std::make_unique<BatchExecEngine>(opt);
                st = (*many)->LoadCompiled(in, Reg());
                if (st.ok() && !damage && !p->is_void) {
                  Inputs x(p->in);
                  RetType v;
                  (void)(*many)->ExecuteAt(0, x.Ptr(), &v);
                }
                if (!live) many->reset();
              } else {
                if (!*one) *one = std::make_unique<ExecEngine>(opt);
                st = (*one)->LoadCompiled(in, Reg());
                if (st.ok() && !damage) RunOne(**one, *p, nullptr);
                if (!live) one->reset();
              }
              c.Count(st.ok() ? "artifacts loaded" : "artifacts refused");
            }};
  }
  Op Missing() {  // an artifact whose functions the registry does not have, or that were never given an address
    auto opt = Option();
    bool live = r.P(.5);
    std::string bytes;
    {
      opt.enable_save_compiled = true;
      ExecEngine e(opt);
      auto n = Build(EffN(1, Const(5)));
      if (!e.Compile(n, Reg()).ok() || !e.SaveCompiled(&bytes).ok()) bytes.clear();
    }
    auto one = std::make_shared<std::unique_ptr<ExecEngine>>();
    return {"load against a registry without the function", [=, this](int) {
              if (!*one) *one = std::make_unique<ExecEngine>(opt);
              auto reg = MakeReg(false);
              Status st = (*one)->LoadCompiled(bytes, reg);
              if (!live) one->reset();
              c.Count(st.ok() ? "artifacts loaded" : "artifacts refused");
            }};
  }
  Op Registry() {
    int kind = static_cast<int>(r.Below(3));
    size_t n = 1 + r.Below(20);
    return {"registries " + std::to_string(kind), [=, this](int k) {
              auto reg = MakeReg(kind != 0);
              for (size_t i = 0; i < n; ++i) {
                FunctionSignature g("f" + Num(k) + std::to_string(i % 7), {VT::kI32, VT::kI32}, VT::kI32);
                (void)reg->RegisterReadOnlyCFunc(g, MixPtr(std::make_index_sequence<2>()), i % 3 == 0);
              }
              if (kind == 2) {
                ExecEngine e(Opt(true));
                auto node = Build(Fn("f" + Num(k) + "0", {Const(1), Const(k)}, VT::kI32, nullptr));
                if (e.Compile(node, reg).ok()) c.Count("single compiles");
                reg.reset();
                RetType v;
                (void)e.Execute(nullptr, &v);
              }
              c.Count("registries");
            }};
  }
  Op Execs() {  // many executions of engines that stay
    auto p = std::make_shared<Prog>(Make(r.P(.3), false));
    auto eng = std::make_shared<ExecEngine>(Option());
    auto node = Build(p->At(0));
    bool ok = eng->Compile(node, Reg()).ok();
    auto own = std::make_shared<ExecEngine>(Option());
    static RegPtr reg = [] {
      auto g = MakeReg();
      Must(g->RegisterFunc(FunctionSignature("own", {VT::kU32, VT::kU32}, VT::kI32), Opaque((void*)&Own, true)), "own");
      return g;
    }();
    auto n2 = std::make_unique<jitfusion::BinaryOPNode>(B::kAdd, FnNode("own", Args(Build(vj::In(VT::kU32, 0)), Build(vj::In(VT::kU32, 1)))), FailNode(r));
    NodePtr n3 = std::move(n2);
    bool ok2 = own->Compile(n3, reg).ok();
    auto ctx = std::make_shared<ExecContext>(r.P(.5) ? 16 : 4096);
    bool with_ctx = r.P(.6);
    size_t reps = 1 + r.Below(30);
    uint32_t objects = static_cast<uint32_t>(1 + r.Below(r.P(.3) ? 300 : 3));
    uint32_t size = static_cast<uint32_t>(1 + r.Below(objects < 4 && r.P(.2) ? 20000 : 60));
    if (!ok2) c.Fail("refused", "own() does not compile");
    return {"execute " + std::to_string(reps) + " times " + (with_ctx ? "in one context: " : "without a context: ") + Lines(Dump(p->At(0))), [=, this](int) {
              for (size_t i = 0; i < reps; ++i) {
                if (ok) RunOne(*eng, *p, with_ctx ? ctx.get() : nullptr);
                std::vector<RetType> vals = {static_cast<uint32_t>(1 + (size * (i + 1)) % (objects < 4 ? 20000 : 100)), objects};
                Inputs in(vals);
                RetType v;
                Status st = with_ctx ? own->Execute(*ctx, in.Ptr(), &v) : own->Execute(in.Ptr(), &v);
                c.Count(st.ok() ? "executions that create objects in the context" : "failing executions that create objects in the context");
              }
            }};
  }
  static NodePtr FailNode(Rng& r) { return Build(r.P(.4) ? FailN(3, Const(static_cast<int32_t>(r.Below(2)))) : Const(1)); }
  Op Trees() {  // trees, clones and printed forms, never compiled; and the text front end alone
    auto p = std::make_shared<Prog>(Make(r.P(.5), true, 4));
    auto builder = std::make_shared<athena::ProgramAstBuilder>();
    std::string broken = Broken(*p);
        return {"trees, clones and texts parsed: " + Lines(Text(p->At(0), {})) + "\n" + Lines(broken), [=, this](int k) {
              auto n = Build(p->At(k));
              auto cl = n->Clone();
              n.reset();
              std::string s = cl->ToString();
              std::unique_ptr<jitfusion::ExecNode> t;
              std::string text = "n" + Num(k) + " = [1, 2, " + Num(k) + "]; " + Text(p->At(k), {});
              (void)(p->is_void ? builder->BuildPipeline(text, &t) : builder->BuildExpression(text, &t));
              (void)(p->is_void ? builder->BuildPipeline("n" + Num(k) + " = \"left\"; " + broken, &t) : builder->BuildExpression(broken, &t));
              athena::ProgramAstBuilder fresh;
              (void)fresh.BuildPipeline("n" + Num(k) + " = 1; " + broken, &t);
              c.Count("trees and texts built and dropped");
            }};
  }
  Op Arena_() {
    int64_t chunk = static_cast<int64_t>(r.P(.5) ? 16 : 4096);
    auto a = std::make_shared<jitfusion::Arena>(chunk);
    uint64_t seed = r.Next();
    int steps = r.P(.3) ? 600 : 30;
    return {"arena of chunk size " + std::to_string(chunk), [=, this](int) {
              Rng q(seed);
              auto fill = [&](jitfusion::Arena& x) {
                for (int i = 0; i < steps; ++i) {
                  if (q.P(.3)) x.Create<Owner>(1 + q.Below(200));
                  else x.Allocate(static_cast<int64_t>(q.Below(q.P(.1) ? 20000 : 200)));
                  if (q.P(steps > 30 ? .003 : .05)) x.Reset();
                }
              };
              fill(*a);
              a->Reset();
              jitfusion::Arena b(chunk);
              fill(b);
              c.Count("arenas filled");
            }};
  }
  Op Builtins() {  // built-in functions executed over and over in kept engines, failing calls included
    auto eng = std::make_shared<BatchExecEngine>(Option());
    auto calls = std::make_shared<std::vector<Vals>>();
    std::vector<NodePtr> nodes;
    std::string d;
    size_t n = 4 + r.Below(12), first = c.idx / 8 * 31 + r.Below(31);
    for (size_t i = 0; i < n * 3 && calls->size() < n; ++i) {
      const Sig& s = g_fns.sigs[(first + i) % g_fns.sigs.size()];
      Vals v = GenArgs(r, s);
      if (!InDomain(s, v)) continue;
      try {
        s.model(v);
      } catch (const Undefined&) {
        continue;
      } catch (const Err&) {
      }
      std::vector<P> in;
      for (size_t k = 0; k < s.args.size(); ++k) in.push_back(vj::In(s.args[k], static_cast<int32_t>(k)));
      nodes.push_back(Build(s.build ? s.build(in) : Fn(s.name, in, s.ret, s.model)));
      d += " " + s.Text();
      calls->push_back(v);
    }
    if (!nodes.empty()) Must(eng->Compile(nodes, Reg()), "built-in functions");
    auto ctx = Context();
    return {"built-in functions" + d, [=, this](int) {
              for (size_t i = 0; i < calls->size(); ++i) {
                Inputs in((*calls)[i]);
                RetType v;
                Status st = ctx ? eng->ExecuteAt(i, *ctx, in.Ptr(), &v) : eng->ExecuteAt(i, in.Ptr(), &v);
                c.Count(st.ok() ? "built-in calls" : "failing built-in calls");
              }
            }};
  }
  Op Any() {
    switch (r.Below(17)) {
      case 14:
      case 15:
      case 16: return Builtins();
      case 0:
      case 1: return Single();
      case 2: return Many();
      case 3: return Expr();
      case 4:
      case 5: return Pipe();
      case 6: return BadText();
      case 7: return BadTree();
      case 8:
      case 9: return Artifact();
      case 10: return r.P(.3) ? Missing() : Registry();
      case 11: return Execs();
      case 12: return Trees();
      default: return Arena_();
    }
  }
};

static const char* kFigure[] = {"live heap blocks", "live heap bytes", "mapped pages", "open descriptors"};
static int64_t Get(const Level& l, int f) { return f == 0 ? l.blocks : f == 1 ? l.bytes : f == 2 ? l.pages : l.fds; }
// Runs the operations for a number of rounds: which figures are higher at the end (the lowest level of the last eighth
// above the highest level of the first eighth)? Something that keeps what each round adds, even in a table that doubles, must
// show in three watches of which each is four times as long as what went before; pools and caches that settle do not.
static std::vector<int> Watch(Ctx& c, std::vector<Op>& ops, int rounds, int& k, std::string* trail = nullptr) {
  std::vector<Level> at;
  at.reserve(static_cast<size_t>(rounds) + 1);
  at.push_back(ReadLevel());
  for (int i = 0; i < rounds; ++i) {
    for (auto& o : ops) o.run(k);
    ++k;
    at.push_back(ReadLevel());
  }
  c.Count("levels read", at.size());
  std::vector<int> up;
  size_t part = std::max<size_t>(1, at.size() / 8);
  for (int f = 0; f < 4; ++f) {
    int64_t lo = INT64_MAX, hi = INT64_MIN;
    for (size_t i = 0; i < part; ++i) hi = std::max(hi, Get(at[i], f)), lo = std::min(lo, Get(at[at.size() - 1 - i], f));
    if (lo <= hi) continue;
    up.push_back(f);
    if (trail && up.size() == 1) {
      trail->clear();
      for (size_t i = 0; i < at.size(); i += std::max<size_t>(1, at.size() / 16)) *trail += " " + std::to_string(Get(at[i], f));
    }
  }
  return up;
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C24";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 25;
  p.thorough_secs = 500;
  p.rule = "lists of operations (compiles, refusals, saves, sound and damaged loads, executions in kept and throw-away contexts, registries, trees, texts, arenas) run round after round with changing constants; live heap blocks and bytes, mapped pages and descriptors read after each round must not go on growing";
  FnCollect06(0, nullptr);
  FnCollect07(0, nullptr);
  FnCollect08(0, nullptr);
  FnCollect09(0, nullptr);
  for (auto& f : g_fills) f(g_fns);
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    std::string trail;
    {
      Maker m{c, c.rng, {}};
      std::vector<Op> ops;
      size_t n = 1 + c.rng.Below(3);
      std::string d;
      for (size_t i = 0; i < n; ++i) {
        ops.push_back(m.Any());
        d += "* " + ops.back().what + "\n";
      }
      c.Desc(d);
      int k = 0;
      (void)Watch(c, ops, 3, k);  // one-time initialisation
      auto up = Watch(c, ops, 4, k);
      if (!up.empty()) {
        c.Count("cases looked at longer");
        up = Watch(c, ops, 24, k);
        if (!up.empty()) {
          c.Count("cases looked at still longer");
          up = Watch(c, ops, 96, k, &trail);
        }
      }
      if (!up.empty()) {
        std::string which;
        for (auto& o : ops) {
          std::vector<Op> one = {o};
          if (ops.size() > 1 && !Watch(c, one, 40, k).empty()) which += "\nalone too: " + o.what;
        }
        c.Fail("growth", std::string(kFigure[up[0]]) + " go on growing round after round:" + trail + which);
      }
      c.Nontrivial(vr::Hash(d));
      c.Count("operation lists");
      if (n > 1 && d.size() < 1200) c.Sample(d);
    }
  });
}
