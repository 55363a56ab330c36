// C12: compiling arbitrary text never crashes, throws, hangs or writes to the standard streams.
#include <sys/resource.h>
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

static off_t StreamBytes() {
  off_t n = 0;
  for (int fd : {1, 2}) {
    struct stat s;
    if (fstat(fd, &s) == 0 && S_ISREG(s.st_mode)) n += s.st_size;
  }
  return n;
}

static const std::vector<std::string> kWords = {
    "let", "when", "if", "elif", "else", "switch", "{", "}", ";", "in", "not", "!", "and", "&&", "or", "||", "true", "false", "-", "+", "*", "/",
    "(", ")", "%", "|", "^", "&", "~", "==", "=", "!=", "<>", "<", "<=", ">", ">=", ",", "[", "]", "<<", ">>", "entry_arg", "exec_ctx", "output",
    "x", "y", "z", "st", "eff", "ld_i32", "ListAdd", "GenLargeBitmap", "IfByBitmap", "GroupIndex", "StringConcat", "CastStringList", "Len",
    "0", "1", "7u8", "65535u16", "4294967295u32", "18446744073709551615u64", "18446744073709551616", "99999999999999999999999999u8", "127i8", "1.5",
    ".5", "5.", "1.0f32", "3f64", "1e400", "340282366920938463463374607431768211456.0f32", "\"s\"", "'t'", "\"\"", "\"\\\"\"", "'\\\\'", "[1,2]", "[1u8]",
    "[\"a\"]", "\"", "'", "//", "/*", "*/", "\n", "\t", "\r", " ", "\\", "#", "@", "?", ":", ".", "\xff", "\xc3\xa9", "\x7f"};

static std::string Soup(Rng& r) {
  std::string s;
  size_t n = r.Below(r.P(.1) ? 400 : 40);
  bool sp = r.P(.6);
  for (size_t i = 0; i < n; ++i) {
    s += r.Pick(kWords);
    if (r.P(.01)) s += '\0';
    if (sp) s += ' ';
  }
  if (r.P(.5)) s += ";";
  return s;
}
static std::string Valid(Rng& r, bool pipeline) {
  GenOpt o;
  o.dsl = true;
  o.effects = r.P(.3);
  Gen g(r, o);
  g.MakeInputs(4);
  PrintOpt po;
  po.noise = r.P(.4);
  po.r = &r;
  if (pipeline) {
    ProgOpt pp;
    pp.stmts = 1 + static_cast<int>(r.Below(6));
    ProgGen pg(g, pp);
    return Text(pg.Pipeline(), po);
  }
  return Text(g.Expr(g.AnyT(), 3), po);
}
static void Mutate(Rng& r, std::string& s) {
  if (s.empty()) return;
  size_t i = r.Below(s.size());
  switch (r.Below(9)) {
    case 0: s[i] = static_cast<char>(r.Next()); break;
    case 1: s.erase(i, 1 + r.Below(8)); break;
    case 2: s.insert(i, r.Pick(kWords)); break;
    case 3: s.insert(i, s.substr(r.Below(s.size()), r.Below(30))); break;
    case 4: s[i] ^= static_cast<char>(1 << r.Below(8)); break;
    case 5: s.resize(i); break;
    case 6: s.insert(i, 1, "(){};,\"'[]"[r.Below(10)]); break;
    case 7: std::swap(s[i], s[r.Below(s.size())]); break;
    default: s.insert(i, 1, '\0'); break;
  }
}
static std::string Rep(const std::string& s, size_t n) {
  std::string o;
  o.reserve(s.size() * n);
  while (n--) o += s;
  return o;
}
static std::string Extreme(Rng& r) {
  size_t n = 1 + r.Below(300);
  switch (r.Below(18)) {
    case 0: return Rep("(", n) + "1" + Rep(")", n - r.Below(2)) + ";";
    case 1: return Rep(r.P(.5) ? "-" : "not ", n) + "1;";
    case 2: return "1" + Rep(r.P(.5) ? "+1" : " and 1", n) + ";";
    case 3: return Rep("if(1,1,", n) + "2" + Rep(")", n) + ";";
    case 4: return "[" + Rep("1,", n * 20) + "1];";
    case 5: return "\"" + std::string(n * 1000, 'a') + "\";";
    case 6: return std::string(n * 100, 'v') + " = 1; " + std::string(n * 100, 'v') + ";";
    case 7: return Rep("\n", n * 50) + "x;";
    case 8: return "/*" + Rep("*", n * 20) + (r.P(.5) ? "/ 1;" : "");
    case 9: return Rep("9", n) + (r.P(.5) ? ";" : ".5;");
    case 10: return "f(" + Rep("1,", n) + "1);";
    case 11: return Rep("when 1 { ", n % 60) + "st(output, 1, 2);" + Rep("}", n % 60);
    case 12: return Rep("x = 1;", n);
    case 13: return "switch(" + Rep("0, 1, ", n) + "5);";
    case 14: return std::string(n, static_cast<char>(r.Next()));
    case 15: return "0." + Rep("0", n) + "1f32;";
    case 16: return "when 0 { st(output,0,0); } " + Rep("elif 0 { st(output, 1, 1); } ", n % 80) + "else { st(output,2,2); }";
    default: return "\"" + Rep("\n", n) + "\" + 1;";
  }
}
static std::string Bytes(Rng& r) {
  std::string s(r.Below(r.P(.2) ? 3000 : 60), '\0');
  bool ascii = r.P(.5);
  for (auto& ch : s) ch = static_cast<char>(ascii ? 32 + r.Below(95) : r.Next());
  return s;
}

struct Objects {
  athena::AthenaExpression ex;
  athena::AthenaPipeline pl;
};

static void Try(Ctx& c, Objects& o, const std::string& text, bool pipeline) {
  c.Desc(std::string(pipeline ? "pipeline" : "expression") + ", " + std::to_string(text.size()) + " bytes:\n" + vr::Esc(text.substr(0, 6000)));
  off_t before = StreamBytes();
  double t0 = vr::Now();
  Status st;
  if (pipeline) {
    std::vector<std::string> v{text};
    if (c.rng.P(.1)) v.push_back("st(output, 5, 5);");
    if (c.rng.P(.05)) v.insert(v.begin(), c.rng.P(.5) ? "" : text);
    st = o.pl.Compile(v, Reg());
  } else {
    st = o.ex.Compile(text, Reg());
  }
  std::string msg = st.ToString();
  if (StreamBytes() != before) c.Fail("output", "compiling wrote to a standard stream; status " + msg.substr(0, 300));
  double dt = vr::Now() - t0;
  if (dt > 20) c.Fail("slow", "compiling " + std::to_string(text.size()) + " bytes took " + std::to_string(dt) + " s");
  if (st.ok()) {
    c.Count("texts that compile");
    if (pipeline) c.Count("pipelines that compile");
  } else {
    if (msg.size() < 5) c.Fail("message", "an error without a message");
    c.Count("texts refused");
  }
  c.Nontrivial(vr::Hash(text));
}
// the object that refused text still works
static void StillWorks(Ctx& c, Objects& o) {
  int32_t k = static_cast<int32_t>(c.rng.Below(1000));
  Status st = o.ex.Compile("a = " + std::to_string(k) + "; a + 1;", Reg());
  RetType v;
  if (st.ok()) st = o.ex.Execute(nullptr, &v);
  if (!st.ok() || !Same(v, RetType(k + 1))) c.Fail("unusable", "after a rejected compilation the expression object gives " + st.ToString() + " " + Show(v));
  st = o.pl.Compile({"when 1 { st(output, 0, " + std::to_string(k) + "); }"}, Reg());
  auto out = std::make_unique<Out>();
  if (st.ok()) st = o.pl.Execute(nullptr, static_cast<void*>(out.get()));
  if (!st.ok() || out->n != 1 || !(out->rec[0] == MakeRec(0, k))) c.Fail("unusable", "after a rejected compilation the pipeline object gives " + st.ToString());
  c.Count("objects used again after refusing text");
}

// In a child: true when the process came through.
static bool Survives(const std::function<void()>& f, int secs) {
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    rlimit l{static_cast<rlim_t>(secs), static_cast<rlim_t>(secs)};
    setrlimit(RLIMIT_CPU, &l);
    f();
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void Probes(Ctx& c) {
  const size_t n = 60000;
  const std::pair<const char*, std::string> deep[] = {
      {"parenthesised operators", Rep("(1+", n) + "1" + Rep(")", n) + ";"},
      {"unary operators", Rep("- ", n) + "1;"},
      {"a chain of +", "1" + Rep("+1", n) + ";"},
  };
  for (auto& [what, text] : deep) {
    c.Desc(std::to_string(n) + " nested: " + what);
    const std::string& t = text;
    if (!Survives([&] { athena::AthenaExpression ex; (void)ex.Compile(t, Reg()); }, 40))
      c.Report("deep-nesting", std::string("compiling ") + std::to_string(n) + " nested " + what + " ends the process");
    c.Count("nesting probes");
  }
  std::string t = "x0 = ld_i32(entry_arg, 0);";
  for (int i = 0; i < 40; ++i) t += "x" + std::to_string(i + 1) + " = x" + std::to_string(i) + " + x" + std::to_string(i) + ";";
  t += "x40;";
  c.Desc(t);
  if (!Survives([&] {
        rlimit l{0, 0};
        (void)l;
        athena::AthenaExpression ex;
        (void)ex.Compile(t, Reg());
      }, 3))
    c.Report("expr-blowup", "compiling 41 statements, each of which uses the variable of the one before twice, does not end");
  c.Count("growth probes");
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C12";
  p.quick_cases = 400000;
  p.thorough_cases = 40000000;
  p.quick_secs = 20;
  p.thorough_secs = 900;
  p.hang_secs = 100;
  p.rule = "distinct texts compiled: random bytes, token soup, byte-mutated valid programs, extreme literals, sizes and nesting";
  auto objs = std::make_shared<std::unique_ptr<Objects>>();
  return vr::Main(argc, argv, p, [objs](Ctx& c) {
    if (c.idx == 0) {
      Probes(c);
      return;
    }
    if (!*objs || c.rng.P(.05)) *objs = std::make_unique<Objects>();
    Objects& o = **objs;
    Rng& r = c.rng;
    bool pipeline = r.P(.5);
    std::string text;
    switch (r.Below(10)) {
      case 0: text = Bytes(r); break;
      case 1: case 2: text = Soup(r); break;
      case 3: case 4: text = Extreme(r); break;
      default: {
        text = Valid(r, pipeline == r.P(.95));
        for (size_t n = r.Below(5); n > 0; --n) Mutate(r, text);
      }
    }
    if (r.P(.1)) for (size_t n = 1 + r.Below(3); n > 0; --n) Mutate(r, text);
    Try(c, o, text, pipeline);
    if (r.P(.05)) StillWorks(c, o);
    if (c.idx < 60) c.Sample(vr::Esc(text.substr(0, 200)));
  });
}
