// C19: a compiled engine is safe to execute from many threads at once. ThreadSanitizer build.
#include <pthread.h>
#include <sched.h>
#include <spawn.h>
#include <sys/wait.h>
#include <atomic>
#include <mutex>
#include <thread>
#include "common/fn.h"
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;
extern char** environ;
int FnCollect06(int, char**);
int FnCollect07(int, char**);
int FnCollect08(int, char**);
int FnCollect09(int, char**);

namespace {
FnRun g_fns;

template <class T>
void Bits(std::string* o, const T& v) {
  if constexpr (std::is_floating_point_v<T>) {
    T x = std::isnan(v) ? std::numeric_limits<T>::quiet_NaN() : v;
    if (std::isnan(v)) *o += "nan";
    else o->append(reinterpret_cast<const char*>(&x), sizeof x);
  } else if constexpr (std::is_arithmetic_v<T>) {
    o->append(reinterpret_cast<const char*>(&v), sizeof v);
  } else if constexpr (std::is_same_v<T, std::string>) {
    *o += std::to_string(v.size()) + ":" + v;
  } else {
    *o += std::to_string(v.size()) + "[";
    for (const auto& e : v) Bits(o, e);
  }
}
std::string Key(const RetType& v) {
  std::string s = std::to_string(v.index()) + "=";
  std::visit([&](const auto& x) { Bits(&s, x); }, v);
  return s;
}

// user functions that hand the processor to another thread in the middle of an execution
inline thread_local uint64_t g_jitter = 1;
void Jitter() {
  g_jitter = g_jitter * 6364136223846793005ULL + 1442695040888963407ULL;
  uint32_t x = static_cast<uint32_t>(g_jitter >> 40) & 63;
  if (x < 20) sched_yield();
  if (x == 63) usleep(50);
}
int32_t Pause(int32_t v) {
  Jitter();
  return v;
}
jitfusion::I32ListStruct PauseL(jitfusion::I32ListStruct v) {
  Jitter();
  return v;
}
int32_t PauseFail(int32_t id, int32_t v, void* ctx) {
  Jitter();
  if (v & 1) static_cast<ExecContext*>(ctx)->AddError("late" + std::to_string(id));
  return v;
}
RegPtr MakePauseReg() {
  RegPtr r = MakeReg();
  Must(r->RegisterFunc(FunctionSignature("pause", {VT::kI32}, VT::kI32), Opaque((void*)&Pause)), "pause");
  Must(r->RegisterFunc(FunctionSignature("pause", {VT::kI32List}, VT::kI32List), Opaque((void*)&PauseL)), "pause");
  Must(r->RegisterFunc(FunctionSignature("pausefail", {VT::kI32, VT::kI32, VT::kPtr}, VT::kI32), Opaque((void*)&PauseFail)), "pf");
  return r;
}

// One compiled thing shared by all threads, with its inputs.
struct Job {
  std::string what;
  std::vector<std::unique_ptr<Inputs>> in;
  // outcome of one call: status and everything produced
  std::function<std::string(ExecContext*, void* in, uint64_t how)> run;
  std::vector<std::string> alone;
};

std::string Outcome(const Status& st, const RetType& v) { return st.ToString() + "|" + (st.ok() ? Key(v) : "") ; }

void AddInputs(Job* j, const std::vector<Vals>& in) {
  for (auto& v : in) j->in.push_back(std::make_unique<Inputs>(v));
}

using Jobs = std::vector<std::unique_ptr<Job>>;

// ---- built-in functions ----
bool FnJobs(Ctx& c, Jobs* jobs, size_t first, size_t n) {
  auto eng = std::make_shared<BatchExecEngine>(Opt(c.rng.P(.5)));
  std::vector<NodePtr> nodes;
  std::vector<std::string> names;
  std::vector<std::vector<Vals>> ins;
  for (size_t k = 0; k < n; ++k) {
    const Sig& s = g_fns.sigs[(first + k) % g_fns.sigs.size()];
    std::vector<P> a;
    for (size_t i = 0; i < s.args.size(); ++i) a.push_back(In(s.args[i], static_cast<int>(i)));
    P e = s.build ? s.build(a) : Fn(s.name, a, s.ret, s.model);
    std::vector<Vals> in;
    for (int t = 0; t < 12 && in.size() < 3; ++t) {
      Vals v = GenArgs(c.rng, s);
      if (!InDomain(s, v)) continue;
      try {
        s.model(v);
      } catch (const Undefined&) {
        continue;
      } catch (const Err&) {
      }
      in.push_back(v);
    }
    if (in.empty()) continue;
    nodes.push_back(Build(e));
    names.push_back(s.Text());
    ins.push_back(in);
  }
  if (nodes.empty()) return false;
  Status st = eng->Compile(nodes, Reg());
  if (!st.ok()) c.Fail("refused", "a batch of built-in functions does not compile: " + st.ToString());
  for (size_t k = 0; k < names.size(); ++k) {
    auto j = std::make_unique<Job>();
    j->what = names[k];
    AddInputs(j.get(), ins[k]);
    j->run = [eng, k](ExecContext* ctx, void* in, uint64_t how) {
      RetType v;
      (void)how;
      Status s = ctx ? eng->ExecuteAt(k, *ctx, in, &v) : eng->ExecuteAt(k, in, &v);
      return Outcome(s, v);
    };
    jobs->push_back(std::move(j));
  }
  return true;
}

// wraps some operands of type i32 into functions that yield
P Slow(vr::Rng& r, const P& n, int* left) {
  P m = std::make_shared<Node>(*n);
  for (auto& x : m->ch) x = Slow(r, x, left);
  for (auto& s : m->body) s.e = Slow(r, s.e, left);
  if (*left > 0 && (m->t == VT::kI32 || m->t == VT::kI32List) && m->k != NK::Const && m->k != NK::Seq && m->k != NK::When && r.P(.4)) {
    --*left;
    if (m->t == VT::kI32 && r.P(.4)) return Fn("pausefail", {Const(static_cast<int32_t>(r.Below(1000))), m, Fn("!ctx", {}, VT::kPtr, nullptr)}, VT::kI32, nullptr);
    return Fn("pause", {m}, m->t, nullptr);
  }
  return m;
}

std::string SlowText(const P& n) {
  std::string t = Text(n);
  for (size_t p; (p = t.find("!ctx()")) != std::string::npos;) t.replace(p, 6, "exec_ctx");
  return t;
}

// ---- random programs and expressions ----
void ExprJob(Ctx& c, Jobs* jobs, RegPtr& reg) {
  GenOpt o;
  o.dsl = true;
  o.fails = c.rng.P(.5);
  Gen g(c.rng, o);
  g.MakeInputs(3 + c.rng.Below(3));
  g.in.push_back(VT::kI32);
  auto j = std::make_unique<Job>();
  int left = 6;
  bool pipe = c.rng.P(.5);
  std::vector<Vals> in;
  P e;
  if (pipe) {
    ProgOpt po;
    po.stmts = 4;
    ProgGen pg(g, po);
    e = pg.Pipeline();
  } else {
    VT t = g.AnyT();
    e = g.Expr(t, 4);
  }
  for (int t = 0; t < 20 && in.size() < 4; ++t) {
    Vals v = g.InValues();
    Machine m;
    RetType r;
    if (Reference(e, v, &m, &r)) in.push_back(v);
  }
  if (in.empty()) return;
  P s = Slow(c.rng, e, &left);
  std::string text = SlowText(s);
  j->what = text;
  AddInputs(j.get(), in);
  if (pipe) {
    auto x = std::make_shared<athena::AthenaPipeline>(Opt(c.rng.P(.5)));
    Status st = x->Compile({text}, reg);
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", st.ToString() + "\n" + text);
    }
    j->run = [x](ExecContext* ctx, void* in, uint64_t) {
      auto out = std::make_unique<Out>();
      Status st = ctx ? x->Execute(*ctx, in, out.get()) : x->Execute(in, out.get());
      return st.ToString() + "|" + Recs(Stored(*out));
    };
  } else if (c.rng.P(.5)) {
    auto x = std::make_shared<athena::AthenaExpression>(Opt(c.rng.P(.5)));
    Status st = x->Compile(text, reg);
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", st.ToString() + "\n" + text);
    }
    j->run = [x](ExecContext* ctx, void* in, uint64_t) {
      RetType v;
      Status st = ctx ? x->Execute(*ctx, in, &v) : x->Execute(in, &v);
      return Outcome(st, v);
    };
  } else {
    // the same expression in a batch, and saved and loaded again
    auto parse = [&](std::vector<NodePtr>* out) {
      for (int k = 0; k < 3; ++k) {
        Gen g2(c.rng, o);
        g2.in = g.in;
        P e2 = k == 1 ? e : g2.Expr(g2.NumT(), 2);
        for (auto& v : in) {
          Machine m;
          RetType r;
          if (!Reference(e2, v, &m, &r)) {
            e2 = e;
            break;
          }
        }
        out->push_back(Build(e2));
      }
    };
    std::vector<NodePtr> nodes;
    parse(&nodes);
    auto x = std::make_shared<BatchExecEngine>(Opt(true, true));
    Status st = x->Compile(nodes, reg);
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", st.ToString());
    }
    if (c.rng.P(.5)) {
      std::string bytes;
      st = x->SaveCompiled(&bytes);
      if (!st.ok()) c.Fail("save", st.ToString());
      x = std::make_shared<BatchExecEngine>(Opt(true));
      st = x->LoadCompiled(bytes, reg);
      if (!st.ok()) c.Fail("load", st.ToString());
    }
    j->run = [x](ExecContext* ctx, void* in, uint64_t how) {
      // the outcome does not depend on the call form: both are used
      std::vector<RetType> all;
      std::string s;
      if (how % 2) {
        Status st = ctx ? x->ExecuteAll(*ctx, in, &all) : x->ExecuteAll(in, &all);
        s = st.ok() ? "OK" : "error";
        if (st.ok())
          for (auto& v : all) s += Key(v);
      } else {
        bool ok = true;
        std::string vals;
        for (size_t i = 0; i < 3; ++i) {
          RetType v;
          Status st = ctx ? x->ExecuteAt(i, *ctx, in, &v) : x->ExecuteAt(i, in, &v);
          ok &= st.ok();
          if (st.ok()) vals += Key(v);
        }
        s = ok ? "OK" + vals : "error";
      }
      return s;
    };
  }
  jobs->push_back(std::move(j));
}

// ---- a thread that compiles, runs and destroys engines of its own ----
std::string Compiler(uint64_t seed, int rounds, const RegPtr* shared, std::atomic<uint64_t>* built) {
  vr::Rng r(seed);
  for (int k = 0; k < rounds; ++k) {
    GenOpt o;
    o.dsl = true;
    Gen g(r, o);
    g.MakeInputs(3);
    g.in.push_back(VT::kI32);
    RegPtr own;
    if (r.P(.3)) own = MakePauseReg();
    const RegPtr& reg = own ? own : *shared;
    bool pipe = r.P(.5);
    P e;
    if (pipe) {
      ProgOpt po;
      po.stmts = 3;
      ProgGen pg(g, po);
      e = pg.Pipeline();
    } else {
      e = g.Expr(g.AnyT(), 3);
    }
    Vals in;
    Machine m;
    RetType want;
    bool ok = false;
    for (int t = 0; t < 10 && !ok; ++t) {
      in = g.InValues();
      m = Machine();
      ok = Reference(e, in, &m, &want);
    }
    std::string text = Text(e);
    bool strict = true;
    if (pipe) {
      athena::AthenaPipeline x(Opt(strict));
      Status st = x.Compile({text}, reg);
      if (!st.ok()) {
        if (Contains(st.ToString(), "constant zero")) continue;
        return "compiling in a thread: " + st.ToString() + "\n" + text;
      }
      if (!ok) continue;
      Inputs i(in);
      auto out = std::make_unique<Out>();
      st = x.Execute(i.Ptr(), out.get());
      if (!st.ok()) return "executing in the compiling thread: " + st.ToString() + "\n" + text;
      auto got = Stored(*out);
      if (!(got == m.stores)) return "compiled while others ran, it stores something else:\n" + text + "\n" + SpotDiff(got, m.stores);
    } else {
      ExecEngine x(Opt(strict, true, r.P(.3)));
      auto node = Build(e);
      Status st = x.Compile(node, reg);
      if (!st.ok()) {
        if (Contains(st.ToString(), "constant zero")) continue;
        return "compiling in a thread: " + st.ToString() + "\n" + text;
      }
      std::unique_ptr<ExecEngine> l;
      if (r.P(.4)) {
        std::string bytes;
        st = x.SaveCompiled(&bytes);
        if (!st.ok()) return "saving in a thread: " + st.ToString();
        l = std::make_unique<ExecEngine>(Opt(strict));
        st = l->LoadCompiled(bytes, reg);
        if (!st.ok()) return "loading in a thread: " + st.ToString();
      }
      if (!ok) continue;
      Inputs i(in);
      RetType got;
      st = l ? l->Execute(i.Ptr(), &got) : x.Execute(i.Ptr(), &got);
      if (!st.ok()) return "executing in the compiling thread: " + st.ToString() + "\n" + text;
      if (!Same(got, want)) return "compiled while others ran, it returns " + Show(got) + ", expected " + Show(want) + "\n" + text;
    }
    built->fetch_add(1, std::memory_order_relaxed);
  }
  return "";
}

struct Tick {
  uint64_t at;
  uint32_t thread, job;
};

void Storm(Ctx& c, Jobs& jobs, RegPtr& reg, int runners, int compilers, int calls) {
  bool before = c.rng.P(.5);
  auto alone = [&] {
    ExecContext ctx(4096);
    for (auto& j : jobs) {
      j->alone.clear();
      for (auto& i : j->in) j->alone.push_back(j->run(c.rng.P(.5) ? &ctx : nullptr, i->Ptr(), c.rng.Next()));
    }
  };
  if (before) alone();
  struct Res {
    std::vector<std::tuple<size_t, size_t, std::string>> got;
    std::vector<Tick> ticks;
    std::string err;
  };
  std::vector<Res> res(runners + compilers);
  std::atomic<uint64_t> clock{0}, built{0};
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, runners + compilers);
  std::vector<std::thread> th;
  uint64_t seed = c.rng.Next();
  for (int t = 0; t < runners; ++t) {
    th.emplace_back([&, t] {
      vr::Rng r(seed + t);
      g_jitter = r.Next();
      ExecContext own(r.P(.5) ? 64 : 4096);
      Res& me = res[t];
      pthread_barrier_wait(&bar);
      for (int k = 0; k < calls; ++k) {
        // mostly the same engine at the same time in all threads
        size_t j = r.P(.7) ? static_cast<size_t>(k) % jobs.size() : r.Below(jobs.size());
        size_t i = r.Below(jobs[j]->in.size());
        std::string s = jobs[j]->run(r.P(.7) ? &own : nullptr, jobs[j]->in[i]->Ptr(), r.Next());
        me.ticks.push_back({clock.fetch_add(1, std::memory_order_relaxed), static_cast<uint32_t>(t), static_cast<uint32_t>(j)});
        me.got.emplace_back(j, i, std::move(s));
        if (r.P(.1)) sched_yield();
      }
    });
  }
  for (int t = 0; t < compilers; ++t) {
    th.emplace_back([&, t] {
      pthread_barrier_wait(&bar);
      res[runners + t].err = Compiler(seed * 31 + t, 2, &reg, &built);
    });
  }
  for (auto& x : th) x.join();
  pthread_barrier_destroy(&bar);
  if (!before) alone();
  std::vector<Tick> ticks;
  for (auto& m : res) {
    if (!m.err.empty()) c.Fail("compile", m.err);
    for (auto& [j, i, s] : m.got) {
      if (s != jobs[j]->alone[i]) {
        c.Fail("result", "called among other threads, input " + std::to_string(i) + " of\n" + jobs[j]->what + "\ngives " + s.substr(0, 600) + "\nalone it gives " +
                             jobs[j]->alone[i].substr(0, 600));
      }
      c.Count("calls compared with the same call made alone");
    }
    ticks.insert(ticks.end(), m.ticks.begin(), m.ticks.end());
  }
  for (auto& j : jobs)
    for (auto& i : j->in)
      if (!i->Intact()) c.Fail("input-modified", "an input shared by the threads was modified by\n" + j->what);
  std::sort(ticks.begin(), ticks.end(), [](const Tick& a, const Tick& b) { return a.at < b.at; });
  uint64_t h = 1, switches = 0;
  for (size_t i = 0; i < ticks.size(); ++i) {
    h = vr::Mix(h * 31 + ticks[i].thread * 977 + ticks[i].job);
    switches += i && ticks[i].thread != ticks[i - 1].thread;
  }
  c.Nontrivial(h);
  c.Count("changes of thread between consecutive calls", switches);
  c.Count("engines compiled, run and destroyed meanwhile", built.load());
  c.Count("threads", runners + compilers);
}

// A process whose very first use of the library is concurrent.
int Cold(uint64_t seed) {
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, 6);
  std::vector<std::string> err(6);
  std::vector<std::thread> th;
  std::atomic<uint64_t> built{0};
  for (int t = 0; t < 6; ++t) {
    th.emplace_back([&, t] {
      pthread_barrier_wait(&bar);
      RegPtr reg = MakePauseReg();
      err[t] = Compiler(seed * 77 + t, 2, &reg, &built);
    });
  }
  for (auto& x : th) x.join();
  for (auto& e : err) {
    if (!e.empty()) {
      fprintf(stderr, "%s\n", e.c_str());
      return 3;
    }
  }
  return 0;
}
}  // namespace

int main(int argc, char** argv) {
  if (argc > 2 && std::string(argv[1]) == "--cold") return Cold(strtoull(argv[2], nullptr, 10));
  FnCollect06(0, nullptr);
  FnCollect07(0, nullptr);
  FnCollect08(0, nullptr);
  FnCollect09(0, nullptr);
  for (auto& f : g_fills) f(g_fns);
  vr::Plan p;
  p.id = "C19";
  p.workers = 3;
  p.quick_cases = 20000;
  p.thorough_cases = 2000000;
  p.quick_secs = 35;
  p.thorough_secs = 1500;
  p.hang_secs = 300;
  p.rule = "storms of 3-6 threads calling shared engines (all built-in functions in batches, random expressions and pipelines with failing and yielding calls) while others compile, load and destroy engines, under ThreadSanitizer; distinct = observed order of the calls' completions";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    if (c.idx % 24 < 3) {
      char exe[4096];
      ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
      exe[n] = 0;
      std::string s = std::to_string(c.rng.Below(1000000000));
      c.Desc("cold start " + s);
      std::string flag = "--cold";
      char* av[] = {exe, flag.data(), s.data(), nullptr};
      pid_t pid;
      int st = -1;
      if (posix_spawn(&pid, exe, nullptr, nullptr, av, environ) == 0) waitpid(pid, &st, 0);
      if (st != 0) c.Fail("cold", "concurrent first use of the library in a fresh process: " + std::string(WIFEXITED(st) ? "exit status " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st))) + " (its report is on standard error)");
      c.Count("fresh processes whose first use was concurrent");
      return;
    }
    static RegPtr reg = MakePauseReg();
    Jobs jobs;
    uint64_t kind = c.idx / 3 % 8;
    std::string d;
    if (kind != 7) {
      size_t per = 40, first = (c.idx * per) % g_fns.sigs.size();
      if (!FnJobs(c, &jobs, first, per)) return;
      for (auto& j : jobs) d += j->what + "\n";
      c.Desc(d);
      c.Count("built-in signatures called from several threads", jobs.size());
      Storm(c, jobs, reg, 3 + static_cast<int>(c.rng.Below(2)), 0, static_cast<int>(jobs.size()) + 10);
    } else {
      int n = 1 + static_cast<int>(c.rng.Below(3));
      for (int i = 0; i < n; ++i) ExprJob(c, &jobs, reg);
      if (jobs.empty()) return;
      for (auto& j : jobs) d += j->what + "\n";
      c.Desc(d);
      c.Count("programs called from several threads", jobs.size());
      Storm(c, jobs, reg, 2 + static_cast<int>(c.rng.Below(3)), static_cast<int>(c.rng.Below(3)), 40);
      c.Sample(d.substr(0, 400));
    }
  });
}
