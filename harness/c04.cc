// C04: compilation accepts exactly the programs that obey the typing and scoping rules.
#include "common/mutate.h"
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

static std::vector<VT> AllT() {
  std::vector<VT> v = kNums;
  v.push_back(VT::kString);
  v.insert(v.end(), kLists.begin(), kLists.end());
  v.push_back(VT::kPtr);
  v.push_back(VT::kVoid);
  return v;
}
static const std::vector<VT> kAll = AllT();

static NodePtr Leaf(VT t, int slot) {
  if (t == VT::kPtr) return std::make_unique<jitfusion::EntryArgumentNode>();
  if (t == VT::kVoid)
    return FnNode("st", Args(NodePtr(new jitfusion::OutputNode), ConstNode(int32_t(slot)), ConstNode(int32_t(4))));
  return FnNode(std::string("ld_") + Name(t), Args(NodePtr(new jitfusion::EntryArgumentNode), ConstNode(int32_t(slot))));
}
static std::string LeafText(VT t, int slot) {
  if (t == VT::kPtr) return "entry_arg";
  if (t == VT::kVoid) return "st(output, " + std::to_string(slot) + ", 4)";
  return std::string("ld_") + Name(t) + "(entry_arg, " + std::to_string(slot) + ")";
}

struct Item {  // one construct: accepted with type t, or refused (t == kUnknown)
  std::string text;
  NodePtr node;
  VT t;
};

static void Judge(Ctx& c, std::vector<Item>& items, const char* what) {
  std::vector<NodePtr> ok;
  std::vector<Item*> okm;
  for (auto& it : items) {
    c.Nontrivial(vr::Hash(it.text));
    if (it.t != VT::kUnknown) {
      okm.push_back(&it);
      ok.push_back(it.node->Clone());
      continue;
    }
    c.Desc(it.text);
    ExecEngine eng;
    Status st = eng.Compile(it.node, Reg());
    if (st.ok()) c.Fail("accepted", "compiles although it breaks a typing rule: " + it.text);
    if (st.ToString().empty()) c.Fail("message", "refused without a message: " + it.text);
    athena::AthenaExpression ex;
    st = ex.Compile(it.text + ";", Reg());
    if (st.ok()) c.Fail("accepted", "text compiles although it breaks a typing rule: " + it.text);
    c.Count(std::string("refusals: ") + what);
  }
  for (size_t from = 0; from < ok.size(); from += 25) {
    std::vector<NodePtr> part;
    std::string d;
    for (size_t i = from; i < ok.size() && i < from + 25; ++i) {
      d += okm[i]->text + "\n";
      part.push_back(std::move(ok[i]));
    }
    c.Desc(d);
    BatchExecEngine eng(Opt(c.rng.P(.5)));
    Status st = eng.Compile(part, Reg());
    if (!st.ok()) c.Fail("refused", std::string("a well-typed construct is refused: ") + st.ToString());
    for (size_t i = 0; i < part.size(); ++i) {
      if (eng.GetReturnType(i) != okm[from + i]->t)
        c.Fail("type", okm[from + i]->text + " has type " + Name(eng.GetReturnType(i)) + ", documented " + Name(okm[from + i]->t));
      c.Count(std::string("acceptances: ") + what);
    }
    if (c.rng.P(.2)) {
      size_t k = from + c.rng.Below(part.size());
      athena::AthenaExpression ex;
      Status s2 = ex.Compile(okm[k]->text + ";", Reg());
      if (!s2.ok()) c.Fail("refused", "well-typed text is refused: " + okm[k]->text + "\n" + s2.ToString());
      c.Count("acceptances: text");
    }
  }
}

static void BinTable(Ctx& c, B op, VT a) {
  std::vector<Item> v;
  for (VT b : kAll) {
    bool ok = a != VT::kVoid && b != VT::kVoid && a != VT::kPtr && b != VT::kPtr && OpOk(op, a, b);
    v.push_back({"(" + LeafText(a, 0) + ") " + OpText(op) + " (" + LeafText(b, 1) + ")",
                 std::make_unique<jitfusion::BinaryOPNode>(op, Leaf(a, 0), Leaf(b, 1)), ok ? BinType(op, a, b) : VT::kUnknown});
  }
  Judge(c, v, "binary operators");
}
static void UnTable(Ctx& c, U op) {
  std::vector<Item> v;
  for (VT a : kAll) {
    bool ok = a != VT::kVoid && a != VT::kPtr && OpOk(op, a);
    v.push_back({std::string(OpText(op)) + "(" + LeafText(a, 0) + ")", std::make_unique<jitfusion::UnaryOPNode>(op, Leaf(a, 0)),
                 ok ? UnType(op, a) : VT::kUnknown});
  }
  Judge(c, v, "unary operators");
}
static bool BranchesOk(VT a, VT b) { return (IsNum(a) && IsNum(b)) || (a == b && a != VT::kVoid); }
static void IfTable(Ctx& c, VT a) {
  std::vector<Item> v;
  for (VT b : kAll) {
    if (a == VT::kPtr && b == VT::kPtr) continue;  // selecting a pointer is not documented
    VT ct = c.rng.Pick(kNums);
    v.push_back({"if(" + LeafText(ct, 0) + ", " + LeafText(a, 1) + ", " + LeafText(b, 2) + ")",
                 std::make_unique<jitfusion::IfNode>(Args(Leaf(ct, 0), Leaf(a, 1), Leaf(b, 2))),
                 BranchesOk(a, b) ? JoinType(a, b) : VT::kUnknown});
    // `a` as a condition
    VT bt = c.rng.Pick(kNums);
    v.push_back({"if(" + LeafText(a, 0) + ", " + LeafText(bt, 1) + ", " + LeafText(bt, 2) + ")",
                 std::make_unique<jitfusion::IfNode>(Args(Leaf(a, 0), Leaf(bt, 1), Leaf(bt, 2))), IsNum(a) ? bt : VT::kUnknown});
    // switch: a and b as two branches somewhere among n
    size_t n = 2 + c.rng.Below(3);
    size_t i = c.rng.Below(n), j = c.rng.Below(n);
    if (i == j) j = (i + 1) % n;
    bool both_ok = BranchesOk(a, b);
    VT rest = both_ok ? a : c.rng.P(.5) ? a : b;
    if (rest == VT::kVoid) rest = VT::kI32;
    std::vector<NodePtr> args;
    std::string text = "switch(";
    VT t = VT::kUnknown;
    for (size_t k = 0; k < n; ++k) {
      VT bt2 = k == i ? a : k == j ? b : rest;
      if (k + 1 < n) {
        VT ct2 = c.rng.Pick(kNums);
        args.push_back(Leaf(ct2, 0));
        text += LeafText(ct2, 0) + ", ";
      }
      args.push_back(Leaf(bt2, 1));
      text += LeafText(bt2, 1) + (k + 1 < n ? ", " : ")");
      t = t == VT::kUnknown ? bt2 : JoinType(t, bt2);
    }
    v.push_back({text, std::make_unique<jitfusion::SwitchNode>(std::move(args)), both_ok ? t : VT::kUnknown});
    // a as a switch condition, first or second
    std::vector<NodePtr> a2;
    bool first = c.rng.P(.5);
    a2.push_back(Leaf(first ? a : VT::kU8, 0));
    a2.push_back(Leaf(bt, 1));
    a2.push_back(Leaf(first ? VT::kU8 : a, 0));
    a2.push_back(Leaf(bt, 1));
    a2.push_back(Leaf(bt, 2));
    v.push_back({"switch(" + LeafText(first ? a : VT::kU8, 0) + ", " + LeafText(bt, 1) + ", " + LeafText(first ? VT::kU8 : a, 0) +
                     ", " + LeafText(bt, 1) + ", " + LeafText(bt, 2) + ")",
                 std::make_unique<jitfusion::SwitchNode>(std::move(a2)), IsNum(a) ? bt : VT::kUnknown});
  }
  Judge(c, v, "if and switch");
}
static void Counts(Ctx& c) {
  std::vector<Item> v;
  for (size_t n = 1; n < 10; ++n) {
    VT t = c.rng.Pick(kNums);
    std::vector<NodePtr> a, b;
    std::string s;
    for (size_t i = 0; i < n; ++i) {
      a.push_back(Leaf(t, 0));
      b.push_back(Leaf(t, 0));
      s += (i ? ", " : "") + LeafText(t, 0);
    }
    v.push_back({"if(" + s + ")", std::make_unique<jitfusion::IfNode>(std::move(a)), n == 3 ? t : VT::kUnknown});
    v.push_back({"switch(" + s + ")", std::make_unique<jitfusion::SwitchNode>(std::move(b)), n % 2 ? t : VT::kUnknown});
  }
  Judge(c, v, "argument counts");
}
static void Functions(Ctx& c) {
  std::vector<Item> v;
  auto call = [&](const std::string& f, std::vector<VT> a, VT t) {
    std::vector<NodePtr> args;
    std::string s;
    for (size_t i = 0; i < a.size(); ++i) {
      args.push_back(Leaf(a[i], static_cast<int>(i)));
      s += (i ? ", " : "") + LeafText(a[i], static_cast<int>(i));
    }
    v.push_back({f + "(" + s + ")", FnNode(f, std::move(args)), t});
  };
  for (VT a : kAll)
    for (VT b : kAll) {
      if (!c.rng.P(.25)) continue;
      call("min", {a, b}, a == b && IsNum(a) ? a : VT::kUnknown);
      call("max", {a, b}, a == b && IsNum(a) ? a : VT::kUnknown);
      call("StringConcat", {a, b}, a == VT::kString && b == VT::kString ? VT::kString : VT::kUnknown);
      call("eff", {a, b}, a == VT::kI32 && b != VT::kPtr && b != VT::kVoid ? b : VT::kUnknown);
      call("rep", {a, b}, a == VT::kI32 && b == VT::kU32 ? VT::kI32List : VT::kUnknown);
      call("ld_i64", {a, b}, a == VT::kPtr && b == VT::kI32 ? VT::kI64 : VT::kUnknown);
    }
  for (VT a : kAll) {
    call("min", {a}, VT::kUnknown);
    call("max", {a, a, a}, VT::kUnknown);
    call("eff", {VT::kI32, a, a}, VT::kUnknown);
    call("eff", {VT::kI32}, VT::kUnknown);
    call("Eff", {VT::kI32, a}, VT::kUnknown);
    call("mi", {a, a}, VT::kUnknown);
    call("minn", {a, a}, VT::kUnknown);
    if (a != VT::kPtr) call("rep", {VT::kI32, VT::kU32, a}, VT::kUnknown);  // a trailing pointer is the legacy exec_ctx form
    call("nosuch", {a}, VT::kUnknown);
  }
  call("nosuch", {}, VT::kUnknown);
  call("rep", {}, VT::kUnknown);
  Judge(c, v, "function signatures");
}

// integer division by a literal: refused for zero, accepted for everything else and for floats
static void Divisors(Ctx& c) {
  std::vector<Item> v;
  auto add = [&](VT a, const RetType& d) {
    VT t = TypeOf(d);
    bool zero = IsInt(t) && !Truthy(d);
    if (zero && IsFloat(a)) return;
    std::string lit = IsFloat(t) ? "0.0" : std::to_string(std::get<uint64_t>(Conv(d, VT::kU64)));
    for (B op : {B::kDiv, B::kMod}) {
      v.push_back({std::string("(") + LeafText(a, 0) + ") " + OpText(op) + " (" + lit + ")",
                   std::make_unique<jitfusion::BinaryOPNode>(op, Leaf(a, 0), Build(Const(d))), zero ? VT::kUnknown : Promote(a, t)});
    }
  };
  for (VT a : kNums) {
    for (VT t : kNums) {
      add(a, Conv(RetType(uint8_t(0)), t));
      add(a, Conv(RetType(uint8_t(1 + c.rng.Below(9))), t));
      if (Bits(t) > 8 && IsInt(t)) add(a, Conv(RetType(uint64_t(1) << (8 * (1 + c.rng.Below(Bits(t) / 8 - 1)))), t));
    }
    add(a, RetType(-0.0));
    add(a, RetType(std::numeric_limits<double>::quiet_NaN()));
    add(a, RetType(std::numeric_limits<float>::denorm_min()));
  }
  Judge(c, v, "literal divisors");
}

// an expression that breaks a typing rule whatever surrounds it
static P Broken(Gen& g, Rng& r, std::string* why) {
  VT num = r.Pick(kNums), fl = r.P(.5) ? VT::kF32 : VT::kF64;
  auto cst = [&](VT t) { return Const(g.Literal(t)); };
  static const B arith[] = {B::kSub, B::kMul, B::kDiv, B::kMod};
  static const B bits[] = {B::kBitwiseAnd, B::kBitwiseOr, B::kBitwiseXor, B::kBitwiseShiftLeft, B::kBitwiseShiftRight};
  static const B rel[] = {B::kLarge, B::kLargeEqual, B::kEqual, B::kLess, B::kLessEqual, B::kNotEqual};
  auto raw_un = [&](U op, P a) {
    auto n = Mk(NK::Un, VT::kI32);
    n->uop = op;
    n->ch = {a};
    return n;
  };
  auto raw_bin = [&](B op, P a, P b) {
    if (r.P(.5)) std::swap(a, b);
    auto n = Mk(NK::Bin, VT::kI32);
    n->bop = op;
    n->ch = {a, b};
    return n;
  };
  auto fn = [&](const std::string& f, std::vector<P> a) { return Fn(f, a, VT::kI32, nullptr); };
  switch (r.Below(16)) {
    case 0: *why = "string in +"; return raw_bin(B::kAdd, g.Expr(num, 1), cst(VT::kString));
    case 1: *why = "list in arithmetic"; return raw_bin(arith[r.Below(4)], g.Expr(num, 1), cst(r.Pick(kLists)));
    case 2: *why = "float in bitwise"; return raw_bin(bits[r.Below(5)], g.Expr(r.Pick(kInts), 1), cst(fl));
    case 3: *why = "string in and/or"; return raw_bin(r.P(.5) ? B::kAnd : B::kOr, g.Expr(num, 1), cst(VT::kString));
    case 4: *why = "string compared with number"; return raw_bin(rel[r.Below(6)], g.Expr(num, 1), cst(VT::kString));
    case 5: *why = "lists compared"; { VT l = r.Pick(kLists); return raw_bin(rel[r.Below(6)], cst(l), cst(l)); }
    case 6: *why = "unary on string"; return raw_un(kUns[r.Below(4)], cst(VT::kString));
    case 7: *why = "~ on float"; return raw_un(U::kBitwiseNot, cst(fl));
    case 8: *why = "different lists in +"; { VT a = r.Pick(kLists), b = r.Pick(kLists); if (a == b) b = a == VT::kU8List ? VT::kI8List : VT::kU8List; return raw_bin(B::kAdd, cst(a), cst(b)); }
    case 9: *why = "unknown function"; return fn("nosuch", {g.Expr(num, 1)});
    case 10: *why = "wrong argument type"; return fn("min", {cst(VT::kI32), cst(VT::kI64)});
    case 11: *why = "undefined variable"; return RefN("undefined_name", VT::kI32);
    case 12: {
      *why = "incompatible if branches";
      auto n = Mk(NK::If, VT::kI32);
      n->ch = {g.Expr(num, 1), g.Expr(num, 1), cst(VT::kString)};
      return n;
    }
    case 13: {
      *why = "condition that is not numeric";
      auto n = Mk(NK::If, VT::kI32);
      n->ch = {cst(VT::kString), g.Expr(VT::kI32, 1), g.Expr(VT::kI32, 1)};
      return n;
    }
    case 14: {
      *why = "even number of switch arguments";
      auto n = Mk(NK::Switch, VT::kI32);
      n->ch = {g.Expr(num, 1), g.Expr(VT::kI32, 1)};
      return n;
    }
    default: *why = "integer division by literal zero"; {
      auto n = Mk(NK::Bin, VT::kI32);
      n->bop = r.P(.5) ? B::kDiv : B::kMod;
      n->ch = {g.Expr(r.Pick(kInts), 1), g.ConstInt(r.Pick(kInts), 0)};
      return n;
    }
  }
}

static Status CompileAs(Ctx& c, const P& e, const std::string& text, bool tree) {
  if (tree) {
    ExecEngine eng(Opt(true));
    auto node = Build(e);
    return eng.Compile(node, Reg());
  }
  athena::AthenaPipeline pl(Opt(true));
  std::vector<std::string> codes = {text};
  if (c.rng.P(.2)) {
    codes.insert(c.rng.P(.5) ? codes.begin() : codes.end(), "st(output, 400, 1);");
    c.Count("programs judged inside a list of pipelines");
  }
  return pl.Compile(codes, Reg());
}

static void Programs(Ctx& c) {
  GenOpt o;
  o.dsl = true;
  Gen g(c.rng, o);
  g.MakeInputs(3);
  ProgOpt po;
  po.stmts = 3 + static_cast<int>(c.rng.Below(8));
  po.nest = 1 + static_cast<int>(c.rng.Below(3));
  ProgGen pg(g, po);
  P e = pg.Pipeline();
  std::string text = Text(e);
  c.Desc(text);
  if (c.rng.P(.25)) {
    Status st = CompileAs(c, e, text, c.rng.P(.5));
    if (!st.ok() && !Contains(st.ToString(), "constant zero")) c.Fail("refused", "a valid program is refused: " + st.ToString());
    c.Count("acceptances: programs");
    c.Nontrivial(Shape(e));
  }
  int rounds = 8;
  for (int k = 0; k < rounds; ++k) {
    P m = CloneP(e);
    Positions ps;
    ps.Program(m);
    std::string why;
    g.vars.clear();
    auto nonconst = [](const Place& p) {
      std::vector<std::pair<std::string, VT>> v;
      for (auto& x : p.scope.vars)
        if (!p.scope.consts.count(x.first)) v.push_back(x);
      return v;
    };
    switch (c.rng.Below(9)) {
      case 0: case 1: case 2: {  // a broken expression anywhere
        P* at = c.rng.Pick(ps.exprs);
        P bad = Broken(g, c.rng, &why);
        if (c.rng.P(.5) && (*at)->k != NK::Store) bad = If(Const(uint8_t(c.rng.Below(2))), *at, bad);
        if ((*at)->k == NK::Store) (*at)->ch[0] = bad;
        else *at = bad;
        break;
      }
      case 3: {  // a condition that is not numeric
        if (ps.conds.empty()) continue;
        *c.rng.Pick(ps.conds) = Const(g.Literal(c.rng.P(.5) ? VT::kString : c.rng.Pick(kLists)));
        why = "condition that is not numeric";
        break;
      }
      case 4: {  // assign another type
        Place p = c.rng.Pick(ps.places);
        auto v = p.scope.vars;
        if (v.empty()) continue;
        auto x = c.rng.Pick(v);
        VT t;
        do t = g.AnyT(); while (t == x.second);
        p.seq->body.insert(p.seq->body.begin() + static_cast<long>(p.at), {x.first, false, Const(g.Literal(t))});
        why = "variable " + x.first + " of type " + Name(x.second) + " assigned " + Name(t);
        break;
      }
      case 5: {  // reassign or redeclare a constant, redeclare a variable
        Place p = c.rng.Pick(ps.places);
        if (p.scope.vars.empty()) continue;
        auto x = c.rng.Pick(p.scope.vars);
        if (x.second == VT::kVoid) continue;
        bool is_const = p.scope.consts.count(x.first) != 0;
        bool let = is_const ? c.rng.P(.5) : true;
        p.seq->body.insert(p.seq->body.begin() + static_cast<long>(p.at),
                           {x.first, let, c.rng.P(.3) ? RefN(x.first, x.second) : Const(g.Literal(x.second))});
        why = std::string(is_const ? "constant " : "variable ") + x.first + (let ? " redeclared with let" : " reassigned");
        break;
      }
      case 6: {  // use before definition, or outside the block that defines it
        if (ps.assigns.empty()) continue;
        auto a = c.rng.Pick(ps.assigns);
        std::string name = a.second->var;
        VT t = a.second->e->t;
        if (t == VT::kVoid) continue;
        std::vector<Place> out;
        for (auto& p : ps.places)
          if (!p.scope.Has(name)) out.push_back(p);
        if (out.empty()) continue;
        Place p = c.rng.Pick(out);
        P use = RefN(name, t);
        Stmt s{"", false, c.rng.P(.5) ? StoreN(300, use) : use};
        if (c.rng.P(.3)) s = {"fresh_name", false, use};
        if (c.rng.P(.2)) s = {name, false, use};
        p.seq->body.insert(p.seq->body.begin() + static_cast<long>(p.at), s);
        why = "variable " + name + " used where it is not defined";
        break;
      }
      case 7: {  // let x then change it inside a later block
        Place p = c.rng.Pick(ps.places);
        VT t = g.AnyT();
        P body = Seq({{"cst_x", c.rng.P(.3), Const(g.Literal(t))}});
        if (c.rng.P(.4)) body = Seq({{"", false, When({Const(uint8_t(1)), body})}});
        std::vector<P> ch = {Const(uint8_t(1)), c.rng.P(.5) ? body : Seq({{"", false, StoreN(301, Const(g.Literal(t)))}})};
        if (ch[1] != body) ch.push_back(body);
        auto it = p.seq->body.begin() + static_cast<long>(p.at);
        it = p.seq->body.insert(it, {"", false, When(ch)});
        p.seq->body.insert(it, {"cst_x", true, Const(g.Literal(t))});
        why = "let constant assigned inside a block";
        break;
      }
      default: {  // a void value where a value is needed
        P* at = c.rng.Pick(ps.exprs);
        if ((*at)->k == NK::Store) at = &(*at)->ch[0];
        bool root = false;
        for (auto& pl : ps.places)
          for (auto& s : pl.seq->body) root |= &s.e == at;
        if (root) continue;
        *at = StoreN(302, Const(int32_t(1)));
        why = "void used as a value";
        break;
      }
    }
    std::string mt = Text(m);
    c.Desc(why + "\n" + mt);
    Status st = CompileAs(c, m, mt, c.rng.P(.5));
    if (st.ok()) c.Fail("accepted", "compiles although it breaks a rule (" + why + ")");
    c.Count("refusals: programs");
    c.Count("broken rule: " + why.substr(0, why.find_first_of("0123456789") == std::string::npos ? why.size() : 8));
    c.Nontrivial(Shape(m));
  }
  c.Sample(c.cur_desc.substr(0, 700));
}

static void ExpressionMode(Ctx& c) {  // statements before the value; when is not allowed
  GenOpt o;
  o.dsl = true;
  Gen g(c.rng, o);
  g.MakeInputs(3);
  ProgOpt po;
  po.stmts = static_cast<int>(c.rng.Below(4));
  po.nest = 0;
  po.stores = false;
  ProgGen pg(g, po);
  P e = pg.Pipeline();
  VT t = g.AnyT();
  e->body.push_back({"", false, g.Expr(t, 2)});
  e->t = t;
  std::string text = Text(e);
  c.Desc(text);
  auto in = g.InValues();
  athena::AthenaExpression ex(Opt(true));
  Status st = ex.Compile(text, Reg());
  if (!st.ok()) {
    if (Contains(st.ToString(), "constant zero")) return;
    c.Fail("refused", "a valid expression program is refused: " + st.ToString());
  }
  c.Count("acceptances: expression programs");
  RetType want, got;
  Machine m;
  if (Reference(e, in, &m, &want)) {
    Inputs i(in);
    st = ex.Execute(i.Ptr(), &got);
    if (!st.ok()) c.Fail("status", st.ToString());
    if (TypeOf(got) != t) c.Fail("type", "result " + Show(got) + ", documented type " + Name(t));
    if (!Same(got, want)) c.Fail("value", "got " + Show(got) + ", expected " + Show(want) + " on\n" + Dump(in));
  }
  c.Nontrivial(Shape(e));
  // with a when block it is refused
  std::string w = "when 1 { q = 1; } ";
  std::string bad = c.rng.P(.5) ? w + text : text + w + "1;";
  c.Desc(bad);
  st = ex.Compile(bad, Reg());
  if (st.ok()) c.Fail("accepted", "expression mode accepts a when block");
  std::string why;
  P b = Broken(g, c.rng, &why);
  P m2 = CloneP(e);
  size_t at = m2->body.size() - 1;  // statements the result does not depend on need not be checked
  m2->body[at].e = c.rng.P(.5) ? b : If(Const(uint8_t(1)), m2->body[at].e, b);
  bad = Text(m2);
  c.Desc(why + "\n" + bad);
  st = ex.Compile(bad, Reg());
  if (st.ok()) c.Fail("accepted", "expression compiles although it breaks a rule (" + why + ")");
  c.Count("refusals: expression programs", 2);
}

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C04";
  size_t nb = kBins.size() * kAll.size(), nu = kUns.size(), ni = kAll.size();
  size_t table = nb + nu + ni + 1 + 3 + 1;
  p.quick_cases = table + 100000;
  p.thorough_cases = table + 3000000;
  p.quick_secs = 22;
  p.thorough_secs = 500;
  p.rule = "complete tables of operators, if/switch branches and conditions over all 24 types, function signatures, then valid programs and programs broken by one rule at a random place; distinct = construct or program shape";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    size_t i = c.idx;
    if (i < nb) return BinTable(c, kBins[i / kAll.size()], kAll[i % kAll.size()]);
    i -= nb;
    if (i < nu) return UnTable(c, kUns[i]);
    i -= nu;
    if (i < ni) return IfTable(c, kAll[i]);
    i -= ni;
    if (i == 0) return Counts(c);
    if (i < 4) return Functions(c);
    if (i == 4) return Divisors(c);
    if (i % 4 == 0) ExpressionMode(c);
    else Programs(c);
  });
}
