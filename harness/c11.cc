// C11: DSL text means what the documented grammar says.
#include <deque>
#include "ast_builder.h"
#include "common/big.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

// ---- precedence: integer trees over every operator, printed with the fewest parentheses -------------
struct Trees {
  Rng& r;
  std::vector<VT> in;
  P Leaf() {
    if (r.P(.7)) {
      size_t i = r.Below(in.size());
      return In(in[i], i);
    }
    VT t = r.Pick(kInts);
    return Const(WithNum(t, [&](auto z) -> RetType { return static_cast<decltype(z)>(1 + r.Below(9)); }));
  }
  P Tree(int ops) {
    if (ops <= 0) return Leaf();
    if (r.P(.15)) return Un(r.Pick(kUns), Tree(ops - 1));
    if (r.P(.08)) {
      P l = Tree(ops - 1);
      if (!IsInt(l->t)) return l;
      RetType lst = WithNum(l->t, [&](auto z) -> RetType {
        std::vector<decltype(z)> v(1 + r.Below(4));
        for (auto& x : v) x = static_cast<decltype(z)>(r.Below(6));
        return v;
      });
      P n = Fn("in", {l, Const(lst)}, VT::kU8, [](const std::vector<RetType>& a) -> RetType {
        return std::visit(
            [&](const auto& x) -> RetType {
              using T = std::decay_t<decltype(x)>;
              if constexpr (std::is_arithmetic_v<T>) {
                for (T y : std::get<std::vector<T>>(a[1]))
                  if (x == y) return static_cast<uint8_t>(1);
                return static_cast<uint8_t>(0);
              } else {
                abort();
              }
            },
            a[0]);
      });
      n->infix_in = true;
      return n;
    }
    int left = static_cast<int>(r.Below(ops));
    P a = Tree(left), b = Tree(ops - 1 - left);
    for (int t = 0; t < 20; ++t) {
      B op = r.Pick(kBins);
      if (OpOk(op, a->t, b->t)) return Bin(op, a, b);
    }
    return Bin(B::kAdd, a, b);
  }
};

static void CheckStores(Ctx& c, const std::string& text, const std::vector<RetType>& in, const std::vector<OutRec>& want,
                        athena::AthenaPipeline& pl) {
  Inputs inp(in);
  auto out = std::make_unique<Out>();
  Status st = pl.Execute(inp.Ptr(), static_cast<void*>(out.get()));
  if (!st.ok()) c.Fail("status", "execution of the text: " + st.ToString());
  auto got = Stored(*out);
  if (!(got == want)) c.Fail("meaning", "the text does not compute what the program it denotes computes, on\n" + Dump(in) + SpotDiff(got, want));
  c.Count("stores compared", got.size());
}

static void Precedence(Ctx& c) {
  Rng& r = c.rng;
  Trees t{r, {}};
  for (int i = 0; i < 6; ++i) t.in.push_back(r.P(.5) ? VT::kI32 : r.Pick(kInts));
  std::vector<std::vector<RetType>> ins;
  for (int q = 0; q < 6; ++q) {
    std::vector<RetType> v;
    for (VT x : t.in) v.push_back(WithNum(x, [&](auto z) -> RetType { return static_cast<decltype(z)>(r.P(.7) ? 1 + r.Below(7) : r.Below(100)); }));
    ins.push_back(v);
  }
  std::vector<std::vector<OutRec>> want(ins.size());
  PrintOpt po;
  po.noise = r.P(.3);
  po.r = &r;
  std::string text;
  int n = 0;
  for (int tries = 0; tries < 600 && n < 16; ++tries) {
    P e = t.Tree(2 + static_cast<int>(r.Below(5)));
    std::vector<OutRec> w;
    for (auto& in : ins) {
      Machine m;
      RetType v;
      if (!Reference(e, in, &m, &v)) break;
      w.push_back(MakeRec(n, v));
    }
    if (w.size() < ins.size()) continue;
    for (size_t q = 0; q < ins.size(); ++q) want[q].push_back(w[q]);
    text += Text(Seq({{"", false, StoreN(n, e)}}), po) + "\n";
    ++n;
    c.Nontrivial(Shape(e));
  }
  c.Desc(text);
  athena::AthenaPipeline pl(Opt(true));
  Status st = pl.Compile({text}, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", st.ToString());
  }
  for (size_t q = 0; q < ins.size(); ++q) CheckStores(c, text, ins[q], want[q], pl);
  c.Count("expressions whose grouping was compared", n);
  c.Sample(text);
}

// ---- whole programs with layout noise ---------------------------------------------------------------
static void Programs(Ctx& c, bool big) {
  Rng& r = c.rng;
  GenOpt o;
  o.floats = r.P(.5);
  o.effects = r.P(.4);
  o.dsl = true;
  Gen g(r, o);
  g.MakeInputs(3 + r.Below(4));
  g.in.push_back(VT::kI32);
  ProgOpt po;
  po.stmts = 2 + static_cast<int>(r.Below(7));
  po.nest = static_cast<int>(r.Below(3));
  po.prefix = r.P(.5) ? "v" : r.P(.5) ? "in_" : r.P(.5) ? "whenX9_" : "letx";
  ProgGen pg(g, po);
  BigGen bg(g, c.thorough ? 4000 : 160);
  P e = big ? bg.Make() : pg.Pipeline();
  if (big) c.Count("programs with one construct much larger than usual");
  PrintOpt pr;
  pr.minimal = r.P(.7);
  pr.noise = r.P(.85);
  pr.r = &r;
  std::string text = Text(e, pr);
  c.Desc(text);
  std::vector<RetType> in;
  Machine m;
  RetType v;
  bool ok = false;
  for (int t = 0; t < 10 && !ok; ++t) {
    in = g.InValues();
    m = Machine();
    ok = Reference(e, in, &m, &v) && m.stores.size() <= 500;
  }
  if (!ok) return;
  athena::AthenaPipeline pl(Opt(true));
  Status st = pl.Compile({text}, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", st.ToString());
  }
  std::vector<Event> tr;
  g_trace = &tr;
  CheckStores(c, text, in, m.stores, pl);
  g_trace = nullptr;
  if (!SameTrace(tr, m.trace)) c.Fail("events", "calls made: " + Trace(tr) + "\nexpected:  " + Trace(m.trace));
  c.Count("programs with layout noise");
  c.Nontrivial(Shape(e));
}
static void Expressions(Ctx& c) {
  Rng& r = c.rng;
  GenOpt o;
  o.floats = r.P(.5);
  o.dsl = true;
  Gen g(r, o);
  g.MakeInputs(3 + r.Below(4));
  g.in.push_back(VT::kI32);
  ProgOpt po;
  po.stmts = 0;
  std::vector<Stmt> b;
  bool many = r.P(.3);
  size_t n = many ? 2 + r.Below(8) : r.Below(3);
  bool very = r.P(.15);
  if (very) many = true, n = 15 + r.Below(50);
  std::map<std::string, size_t> size;  // of the tree a name stands for once the names in it are replaced
  std::set<std::string> fixed;
  std::function<size_t(const P&)> Size = [&](const P& x) -> size_t {
    if (x->k == NK::Ref) return size.count(x->name) ? size[x->name] : 1;
    size_t z = 1;
    for (auto& y : x->ch) z += Size(y);
    return z;
  };
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::pair<std::string, VT>> again;
    for (auto& v : g.vars)
      if (!fixed.count(v.first)) again.push_back(v);
    bool re = !again.empty() && r.P(.4);
    auto old = re ? r.Pick(again) : std::pair<std::string, VT>();
    VT t = re ? old.second : g.AnyT();
    P x = g.Expr(t, many ? 1 : 2);
    size_t z = Size(x);
    if (z > 300) continue;
    std::string nm = re ? old.first : "n" + std::to_string(i);
    if (re) c.Count("names given a new meaning");
    else g.vars.emplace_back(nm, t);
    size[nm] = z;
    bool let = !re && r.P(.3);
    if (let) fixed.insert(nm);
    b.push_back({nm, let, x});
  }
  VT t = g.AnyT();
  P last = g.Expr(t, 3);
  if (very) {  // one that looks at many names
    size_t z = Size(last);
    for (int k = 0; k < 12 && !g.vars.empty(); ++k) {
      auto v = r.Pick(g.vars);
      if (!IsInt(v.second) || z + size[v.first] > 600) continue;
      z += size[v.first];
      P x = g.CastN(RefN(v.first, v.second), VT::kI64);
      last = IsInt(last->t) ? Bin(B::kBitwiseXor, last, x) : x;
    }
    t = last->t;
    c.Count("expressions over many names");
  }
  b.push_back({"", false, last});
  P e = Seq(b);
  e->t = t;
  PrintOpt pr;
  pr.noise = r.P(.85);
  pr.minimal = r.P(.7);
  pr.r = &r;
  std::string text = Text(e, pr);
  c.Desc(text);
  athena::AthenaExpression ex(Opt(true));
  Status st = ex.Compile(text, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", st.ToString());
  }
  for (int q = 0; q < 4; ++q) {
    auto in = g.InValues();
    Machine m;
    RetType v, got;
    if (!Reference(e, in, &m, &v)) continue;
    Inputs inp(in);
    st = ex.Execute(inp.Ptr(), &got);
    if (!st.ok()) c.Fail("status", st.ToString());
    if (!Same(got, v)) c.Fail("meaning", "on\n" + Dump(in) + "got " + Show(got) + "\nexpected " + Show(v));
    c.Count("expression results compared");
  }
  c.Nontrivial(Shape(e));
}

// ---- the text against the same program built directly, over all values including NaN -----------------------
static void AgainstTree(Ctx& c) {
  Rng& r = c.rng;
  GenOpt o;
  o.dsl = true;
  o.nan = true;
  o.fns = false;
  o.lists = r.P(.3);
  Gen g(r, o);
  g.MakeInputs(2);
  for (int i = 0; i < 5; ++i) g.in.push_back(r.P(.6) ? (r.P(.5) ? VT::kF32 : VT::kF64) : r.Pick(kInts));
  static const B rel[] = {B::kLarge, B::kLargeEqual, B::kEqual, B::kLess, B::kLessEqual, B::kNotEqual};
  std::vector<Stmt> b;
  for (int i = 0; i < 12; ++i) {
    P e = r.P(.5) ? g.Expr(g.AnyT(), 3) : g.Cond(2);
    if (r.P(.5)) {  // operators around comparisons
      VT t = r.P(.6) ? (r.P(.5) ? VT::kF32 : VT::kF64) : g.NumT(), u = r.P(.6) ? t : g.NumT();
      P x = Bin(rel[r.Below(6)], g.Expr(t, 1), g.Expr(u, 1));
      if (r.P(.7)) x = Un(r.P(.7) ? U::kNot : r.Pick(kUns), x);
      if (r.P(.3)) x = Un(r.Pick(kUns), x);
      e = r.P(.5) ? x : IsNum(e->t) ? Bin(r.P(.5) ? B::kAnd : B::kOr, x, e) : If(x, e, e);
    }
    c.Nontrivial(Shape(e));
    b.push_back({"", false, StoreN(i, e)});
  }
  P e = Seq(b);
  PrintOpt pr;
  pr.noise = r.P(.4);
  pr.r = &r;
  std::string text = Text(e, pr);
  c.Desc(text);
  athena::AthenaPipeline pl(Opt(true));
  ExecEngine eng(Opt(true));
  Status st = pl.Compile({text}, Reg());
  auto node = Build(e);
  Status s2 = eng.Compile(node, Reg());
  if (st.ok() != s2.ok()) c.Fail("refused", "from text: " + st.ToString() + "\nas a tree: " + s2.ToString());
  if (!st.ok()) return;
  for (int q = 0; q < 8; ++q) {
    auto in = g.InValues();
    for (auto& x : in)
      if (IsFloat(TypeOf(x)) && r.P(.4))
        x = Conv(RetType(r.P(.6) ? std::nan("") : r.P(.5) ? std::numeric_limits<double>::infinity() : -0.0), TypeOf(x));
    Machine m;
    RetType v;
    bool ok = true;  // divisions and shifts outside their domain are not run
    try {
      ok = Reference(e, in, &m, &v);
    } catch (...) {
      ok = false;
    }
    if (!ok) continue;
    Inputs i1(in), i2(in);
    auto o1 = std::make_unique<Out>(), o2 = std::make_unique<Out>();
    st = pl.Execute(i1.Ptr(), static_cast<void*>(o1.get()));
    s2 = eng.Execute(i2.Ptr(), static_cast<void*>(o2.get()));
    if (st.ToString() != s2.ToString()) c.Fail("status", "text: " + st.ToString() + "\ntree: " + s2.ToString());
    auto got = Stored(*o1), want = Stored(*o2);
    if (!(got == want)) c.Fail("meaning", "the text does not compute what the program built directly computes, on\n" + Dump(in) + SpotDiff(got, want));
    c.Count("stores compared with the tree", got.size());
  }
}

// ---- literals -------------------------------------------------------------------------------------
static std::string LitString(Rng& r, char q) {
  std::string s;
  size_t n = r.P(.1) ? 300 : r.Below(12);
  for (size_t i = 0; i < n; ++i) {
    unsigned char ch = r.P(.6) ? "ab/*#;{}()'\"0 \n\t"[r.Below(17)] : r.Next();
    if (ch == '\\' || ch == static_cast<unsigned char>(q)) ch = '.';
    s += static_cast<char>(ch);
  }
  return s;
}
static std::pair<std::string, RetType> Literal(Rng& r, VT t) {
  if (t == VT::kString) {
    char q = r.P(.5) ? '"' : '\'';
    std::string s = LitString(r, q);
    return {q + s + q, s};
  }
  return WithNum(t, [&](auto z) -> std::pair<std::string, RetType> {
    using T = decltype(z);
    if constexpr (std::is_floating_point_v<T>) {
      std::string s;
      int form = static_cast<int>(r.Below(5));
      auto digits = [&](size_t n) {
        std::string d;
        for (size_t i = 0; i < n; ++i) d += static_cast<char>('0' + r.Below(10));
        return d;
      };
      size_t a = r.P(.1) ? 1 + r.Below(36) : 1 + r.Below(6), b = r.P(.1) ? 1 + r.Below(60) : 1 + r.Below(8);
      if (form == 0) s = digits(a) + ".";
      else if (form == 1) s = "." + digits(b);
      else if (form == 2) s = digits(a);
      else s = digits(a) + "." + digits(b);
      if (r.P(.2)) {  // next to the point half way between two neighbours, where rounding twice goes wrong
        T f = static_cast<T>(std::ldexp(1 + static_cast<double>(r.Next() >> 11) / 9007199254740992.0, static_cast<int>(r.Below(40)) - 20));
        long double mid = (static_cast<long double>(f) + std::nextafter(f, std::numeric_limits<T>::max())) / 2;
        char buf[200];
        std::snprintf(buf, sizeof buf, "%.90Lf", mid);
        s = buf;
        if (r.P(.5)) s += '1';
        form = 3;
      }
      T v;
      if constexpr (sizeof(T) == 4) v = std::strtof(s.c_str(), nullptr);
      else v = std::strtod(s.c_str(), nullptr);
      if (sizeof(T) == 4) s += "f32";
      else if (form == 2 || r.P(.4)) s += "f64";
      return {s, v};
    } else {
      T v = RandNum<T>(r);
      if (r.P(.15)) v = std::numeric_limits<T>::max();
      if (v < 0) v = static_cast<T>(-(v + 1));
      std::string s = std::to_string(v);
      if (r.P(.1)) s = std::string(1 + r.Below(30), '0') + s;
      if (!(std::is_same_v<T, int32_t> && r.P(.6))) s += Name(TypeOfC<T>());
      return {s, v};
    }
  });
}
// decimal digits of v + 1, v arbitrary long
static std::string PlusOne(std::string s) {
  for (size_t i = s.size(); i-- > 0;) {
    if (s[i] != '9') {
      ++s[i];
      return s;
    }
    s[i] = '0';
  }
  return "1" + s;
}
// a literal beyond 64 bits, or beyond the range of its floating-point type, is refused wherever it stands
static void TooBig(Ctx& c) {
  Rng& r = c.rng;
  VT t = r.Pick(kNums);
  std::string lit = WithNum(t, [&](auto z) -> std::string {
    using T = decltype(z);
    std::string s;
    if constexpr (std::is_floating_point_v<T>) {
      s = "1" + std::string((sizeof(T) == 4 ? 39 : 309) + r.Below(200), '0') + (r.P(.5) ? ".0" : r.P(.5) ? "." : "");
      if (s.back() == '0' && s.find('.') == std::string::npos) s += sizeof(T) == 4 ? "" : r.P(.5) ? "" : ".";
      bool plain = s.find('.') == std::string::npos;
      if (sizeof(T) == 4) s += "f32";
      else if (plain || r.P(.4)) s += "f64";
    } else {
      // what 64 bits hold is taken modulo the type, which nothing documents and nothing here judges
      switch (r.Below(3)) {
        case 0: s = PlusOne(std::to_string(std::numeric_limits<uint64_t>::max())); break;
        case 1: s = r.Pick(std::vector<std::string>{"18446744073709551617", "18446744073709551871", "36893488147419103232", "340282366920938463463374607431768211456"}); break;
        default: s = "2" + std::string(19 + r.Below(30), '0'); break;
      }
      if (r.P(.1)) s = std::string(1 + r.Below(30), '0') + s;
      if (!(std::is_same_v<T, int32_t> && r.P(.6))) s += Name(TypeOfC<T>());
    }
    return s;
  });
  bool pipeline = r.P(.5);
  std::string text;
  switch (r.Below(pipeline ? 5 : 3)) {
    case 0: text = lit + ";"; break;
    case 1: text = "[" + lit + "];"; break;
    case 2: text = "x = " + lit + "; x;"; break;
    case 3: text = "when (" + lit + " > " + lit + ") { x = 1; }"; break;
    default: text = "st(output, 0, " + lit + ");"; break;
  }
  c.Desc(text);
  Status st;
  if (pipeline) {
    athena::AthenaPipeline pl(Opt(true));
    st = pl.Compile({text}, Reg());
  } else {
    athena::AthenaExpression ex(Opt(true));
    st = ex.Compile(text, Reg());
  }
  if (st.ok()) c.Fail("accepted", "a literal its type cannot hold is accepted");
  if (st.ToString().compare(0, 12, "Parse Error:") != 0) c.Fail("kind", "refused with: " + st.ToString());
  c.Count("literals too big for their type refused");
}
static void Literals(Ctx& c) {
  Rng& r = c.rng;
  std::string text;
  std::vector<OutRec> want;
  int id = 0;
  auto add = [&](const std::string& s, const RetType& v) {
    text += "st(output, " + std::to_string(id) + ", " + s + ");\n";
    want.push_back(MakeRec(id++, v));
    c.Count("literals compared");
    c.Nontrivial(vr::Hash(s));
  };
  for (VT t : kNums) {
    for (int k = 0; k < 2; ++k) {
      auto [s, v] = Literal(r, t);
      add(s, v);
    }
    std::string s = "[";
    size_t n = 1 + r.Below(r.P(.1) ? 200 : 8);
    WithNum(t, [&](auto z) -> RetType {
      std::vector<decltype(z)> v;
      for (size_t i = 0; i < n; ++i) {
        auto [x, y] = Literal(r, t);
        s += (i ? r.P(.5) ? "," : " , " : "") + x;
        v.push_back(std::get<decltype(z)>(y));
      }
      add(s + "]", v);
      return z;
    });
  }
  for (int k = 0; k < 4; ++k) {
    auto [s, v] = Literal(r, VT::kString);
    add(s, v);
  }
  {
    std::vector<std::string> v;
    std::string s = "[";
    size_t n = 1 + r.Below(6);
    for (size_t i = 0; i < n; ++i) {
      auto [x, y] = Literal(r, VT::kString);
      s += (i ? ", " : "") + x;
      v.push_back(std::get<std::string>(y));
    }
    add(s + "]", v);
  }
  add("true", static_cast<uint8_t>(1));
  add("false", static_cast<uint8_t>(0));
  c.Desc(text);
  athena::AthenaPipeline pl(Opt(true));
  Status st = pl.Compile({text}, Reg());
  if (!st.ok()) c.Fail("refused", st.ToString());
  CheckStores(c, text, {}, want, pl);
  c.Sample(text.substr(0, 600));
  for (int k = 0; k < 20; ++k) TooBig(c);
}

// ---- text outside the grammar ---------------------------------------------------------------------------
enum class TK { Id, Lit, Kw, If, Call, Op, Sign, In, LP, RP, LB, RB, LC, RC, Comma, Semi, Assign, Let, When, Elif, Else, Bad };
struct Tok {
  TK k;
  std::string s;
  VT t = VT::kVoid;  // literals
};
static Tok RandTok(Rng& r) {
  static const std::vector<Tok> all = {
      {TK::Id, "x"}, {TK::Id, "v1"}, {TK::Id, "foo_bar"}, {TK::Kw, "entry_arg"}, {TK::Kw, "output"}, {TK::Kw, "exec_ctx"},
      {TK::If, "if"}, {TK::If, "switch"}, {TK::Op, "*"}, {TK::Op, "/"}, {TK::Op, "%"}, {TK::Op, "&"}, {TK::Op, "|"}, {TK::Op, "^"},
      {TK::Op, "=="}, {TK::Op, "!="}, {TK::Op, "<>"}, {TK::Op, "<"}, {TK::Op, "<="}, {TK::Op, ">"}, {TK::Op, ">="}, {TK::Op, "<<"},
      {TK::Op, ">>"}, {TK::Op, "and"}, {TK::Op, "&&"}, {TK::Op, "or"}, {TK::Op, "||"}, {TK::Sign, "+"}, {TK::Sign, "-"}, {TK::In, "in"},
      {TK::LP, "("}, {TK::LP, "("}, {TK::RP, ")"}, {TK::RP, ")"}, {TK::LB, "["}, {TK::RB, "]"}, {TK::LC, "{"}, {TK::RC, "}"},
      {TK::Comma, ","}, {TK::Comma, ","}, {TK::Semi, ";"}, {TK::Semi, ";"}, {TK::Assign, "="}, {TK::Assign, "="}, {TK::Let, "let"},
      {TK::When, "when"}, {TK::Elif, "elif"}, {TK::Else, "else"}, {TK::Lit, "true", VT::kVoid}, {TK::Lit, "false", VT::kVoid},
      {TK::Bad, "@"}, {TK::Bad, "#"}, {TK::Bad, "$"}, {TK::Bad, "`"}, {TK::Bad, "?"}, {TK::Bad, ":"}, {TK::Bad, "."}, {TK::Bad, "\\"},
      {TK::Bad, "_"}, {TK::Bad, "\xc3\xa9"}, {TK::Bad, "\x01"}, {TK::Bad, std::string(1, '\0')}, {TK::Bad, "99999999999999999999"},
      {TK::Bad, "1.5.5"}, {TK::Bad, "1e5"}, {TK::Bad, "0x10"}, {TK::Bad, "1u9"}, {TK::Bad, "2y"}, {TK::Bad, "1.5i32"}};
  // "not" and "~" are prefix only
  if (r.P(.06)) return {TK::Id, "~", VT::kPtr};
  if (r.P(.06)) return {TK::Id, r.P(.5) ? "not" : "!", VT::kPtr};
  if (r.P(.25)) {
    VT t = r.Pick(kNums);
    if (r.P(.2)) t = VT::kString;
    for (;;) {
      auto [s, v] = Literal(r, t);
      if (s.find('\n') == std::string::npos && s.find('\0') == std::string::npos) return {TK::Lit, s, t};
    }
  }
  return r.Pick(all);
}
static bool IsPrefix(const Tok& t) { return t.k == TK::Sign || (t.k == TK::Id && t.t == VT::kPtr); }
static bool IsId(const Tok& t) { return t.k == TK::Id && t.t != VT::kPtr; }

struct Grammar {  // a recognizer of the documented grammar, over tokens
  const std::vector<Tok>& t;
  bool pipeline;
  size_t i = 0;
  bool At(TK k) const { return i < t.size() && t[i].k == k; }
  bool Eat(TK k) {
    if (!At(k)) return false;
    ++i;
    return true;
  }
  bool Primary() {
    if (i >= t.size()) return false;
    if (IsId(t[i])) {
      ++i;
      if (!Eat(TK::LP)) return true;
      if (Eat(TK::RP)) return true;
      return List() && Eat(TK::RP);
    }
    if (Eat(TK::If)) return Eat(TK::LP) && List() && Eat(TK::RP);
    if (Eat(TK::Lit) || Eat(TK::Kw)) return true;
    if (Eat(TK::LP)) return Expr() && Eat(TK::RP);
    if (Eat(TK::LB)) {
      VT e = VT::kUnknown;
      do {
        if (!At(TK::Lit) || t[i].t == VT::kVoid || (e != VT::kUnknown && t[i].t != e)) return false;
        e = t[i++].t;
      } while (Eat(TK::Comma));
      return Eat(TK::RB);
    }
    return false;
  }
  bool List() {
    do
      if (!Expr()) return false;
    while (Eat(TK::Comma));
    return true;
  }
  bool Expr() {
    for (;;) {
      while (i < t.size() && IsPrefix(t[i])) ++i;
      if (!Primary()) return false;
      if (!(Eat(TK::Op) || Eat(TK::Sign) || Eat(TK::In))) return true;
    }
  }
  bool Block() { return Eat(TK::LC) && Stmts() && Eat(TK::RC); }
  bool Stmt() {
    if (At(TK::When)) {
      if (!pipeline) return false;
      ++i;
      if (!Expr() || !Block()) return false;
      while (Eat(TK::Elif))
        if (!Expr() || !Block()) return false;
      if (Eat(TK::Else)) return Block();
      return true;
    }
    if (Eat(TK::Let)) {
      if (i >= t.size() || !IsId(t[i])) return false;
      ++i;
      return Eat(TK::Assign) && Expr() && Eat(TK::Semi);
    }
    if (i + 1 < t.size() && IsId(t[i]) && t[i + 1].k == TK::Assign) i += 2;
    return Expr() && Eat(TK::Semi);
  }
  bool Stmts() {
    do
      if (!Stmt()) return false;
    while (i < t.size() && !At(TK::RC));
    return true;
  }
  bool Program() { return Stmts() && i == t.size(); }
};
struct Soup {
  Rng& r;
  std::vector<Tok> o;
  void T(TK k, const char* s) { o.push_back({k, s}); }
  void Lit() {
    Tok t;
    do t = RandTok(r);
    while (t.k != TK::Lit);
    o.push_back(t);
  }
  void Primary(int d) {
    switch (d <= 0 ? r.Below(2) : r.Below(8)) {
      case 0: Lit(); break;
      case 1: case 2: T(r.P(.2) ? TK::Kw : TK::Id, o.size() && r.P(.5) ? "x" : "v1"); if (o.back().k == TK::Kw) o.back().s = "entry_arg"; break;
      case 3: T(TK::LP, "("); Expr(d - 1); T(TK::RP, ")"); break;
      case 4: T(TK::If, r.P(.5) ? "if" : "switch"); Args(d, 3); break;
      case 5: T(TK::Id, "foo_bar"); Args(d, r.Below(3)); break;
      case 6: {
        T(TK::LB, "[");
        Lit();
        while (o.back().t == VT::kVoid) o.pop_back(), Lit();
        VT e = o.back().t;
        for (size_t n = r.Below(3); n > 0; --n) {
          T(TK::Comma, ",");
          do {
            if (o.back().k == TK::Lit) o.pop_back();
            Lit();
          } while (o.back().t != e);
        }
        T(TK::RB, "]");
        break;
      }
      default: {
        static const char* pre[] = {"-", "+", "~", "not", "!"};
        size_t k = r.Below(5);
        if (k < 2) T(TK::Sign, pre[k]);
        else o.push_back({TK::Id, pre[k], VT::kPtr});
        Primary(d - 1);
      }
    }
  }
  void Args(int d, size_t n) {
    T(TK::LP, "(");
    for (size_t i = 0; i < n; ++i) {
      if (i) T(TK::Comma, ",");
      Expr(d - 1);
    }
    T(TK::RP, ")");
  }
  void Expr(int d) {
    Primary(d);
    while (r.P(.4)) {
      for (;;) {
        Tok t = RandTok(r);
        if (t.k != TK::Op && t.k != TK::Sign && t.k != TK::In) continue;
        o.push_back(t);
        break;
      }
      Primary(d);
    }
  }
  void Stmt(int d) {
    if (d > 0 && r.P(.25)) {
      T(TK::When, "when");
      Expr(2);
      Block(d);
      while (r.P(.3)) T(TK::Elif, "elif"), Expr(1), Block(d);
      if (r.P(.4)) T(TK::Else, "else"), Block(d);
      return;
    }
    if (r.P(.5)) {
      if (r.P(.3)) T(TK::Let, "let");
      T(TK::Id, "x");
      T(TK::Assign, "=");
    }
    Expr(3);
    T(TK::Semi, ";");
  }
  void Block(int d) {
    T(TK::LC, "{");
    for (size_t n = 1 + r.Below(2); n > 0; --n) Stmt(d - 1);
    T(TK::RC, "}");
  }
};
static void Corrupted(Ctx& c) {
  Rng& r = c.rng;
  athena::ProgramAstBuilder used;  // sees every text of the case, good and bad
  std::deque<std::string> texts;
  for (int q = 0; q < 150; ++q) {
    bool pipeline = r.P(.6);
    Soup s{r, {}};
    for (size_t n = 1 + r.Below(3); n > 0; --n) s.Stmt(pipeline ? 2 : r.P(.05));
    auto t = s.o;
    for (size_t n = r.Below(3); n > 0 && !t.empty(); --n) {
      size_t i = r.Below(t.size());
      switch (r.Below(6)) {
        case 0: t.erase(t.begin() + i); break;
        case 1: t.insert(t.begin() + i, t[i]); break;
        case 2: std::swap(t[i], t[r.Below(t.size())]); break;
        case 3: t[i] = RandTok(r); break;
        case 4: t.insert(t.begin() + r.Below(t.size() + 1), RandTok(r)); break;
        default: t.resize(i); break;
      }
    }
    std::string text;
    PrintOpt po;
    po.noise = r.P(.3);
    po.r = &r;
    Printer pr(po);
    for (auto& x : t) text += x.s + pr.Sp(true);
    if (r.P(.03)) text += r.P(.5) ? "/* open" : "\"open";
    bool bad = false;
    for (auto& x : t) bad |= x.k == TK::Bad;
    bool open = text.size() > 5 && (text.compare(text.size() - 5, 5, " open") == 0 || text.compare(text.size() - 5, 5, "\"open") == 0);
    if (open) bad = true;
    Grammar g{t, pipeline};
    bool in = !bad && g.Program();
    c.Desc(std::string(pipeline ? "pipeline: " : "expression: ") + vr::Esc(text) + (in ? "\n(in the grammar)" : "\n(outside the grammar)"));
    {
      texts.push_back(text);
      const std::string& code = texts.back();
      athena::ProgramAstBuilder fresh;
      std::unique_ptr<ExecNode> a, b;
      Status sa = pipeline ? used.BuildPipeline(code, &a) : used.BuildExpression(code, &a);
      Status sb = pipeline ? fresh.BuildPipeline(code, &b) : fresh.BuildExpression(code, &b);
      if (sa.ToString() != sb.ToString() || !a != !b || (a && a->ToString() != b->ToString()))
        c.Fail("history", "a builder that has seen other texts answers " + sa.ToString() + (a ? " " + a->ToString() : "") + "\na new one " +
                              sb.ToString() + (b ? " " + b->ToString() : ""));
      c.Count("texts parsed by a builder that has seen others");
    }
    Status st;
    if (pipeline) {
      athena::AthenaPipeline pl;
      st = pl.Compile({text}, Reg());
    } else {
      athena::AthenaExpression ex;
      st = ex.Compile(text, Reg());
    }
    std::string msg = st.ToString();
    if (!in) {
      if (st.ok()) c.Fail("accepted", "text outside the grammar compiles");
      if (msg.compare(0, 12, "Parse Error:") != 0) c.Fail("kind", "text outside the grammar is refused with: " + msg);
      c.Count("texts outside the grammar refused");
      c.Nontrivial(vr::Hash(text));
    } else {
      if (Contains(msg, "syntax error") || Contains(msg, "invalid character")) c.Fail("refused", "text inside the grammar is refused: " + msg);
      c.Count("texts inside the grammar (types not judged)");
    }
  }
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C11";
  p.quick_cases = 100000;
  p.thorough_cases = 4000000;
  p.quick_secs = 18;
  p.thorough_secs = 600;
  p.rule = "distinct expression shapes printed with the fewest parentheses, program shapes printed with layout noise, literal spellings, and refused texts";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    switch (c.idx / 8 % 8) {
      case 0: case 1: Precedence(c); break;
      case 2: Programs(c, false); break;
      case 3: Expressions(c); break;
      case 4: Literals(c); break;
      case 5: AgainstTree(c); break;
      case 6: Programs(c, true); break;
      default: Corrupted(c);
    }
  });
}
