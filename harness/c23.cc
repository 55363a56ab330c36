// C23: cloning and printing an expression tree are faithful.
#include <algorithm>
#include <list>
#include "ast_builder.h"
#include "common/big.h"
#include "common/run.h"
#include "pipeline_grouper.h"
using namespace vj;
using vr::Ctx;
using namespace jitfusion;

namespace {
// A plain description of a tree, taken from the nodes' public accessors.
struct G {
  ExecNodeType k{};
  int op = 0;
  std::string name;  // function, variable
  std::vector<VarInfo> vars;
  bool isolated = false;
  ConstantValueType val;
  ConstantListValueType list;
  SourceLocation loc;
  std::vector<G> ch;
};

G Read(ExecNode* n, std::vector<ExecNode*>* all) {
  G g;
  if (all) all->push_back(n);
  g.k = n->GetExecNodeType();
  g.loc = n->GetLocation();
  auto kids = [&](const std::vector<NodePtr>& a) {
    for (auto& x : a) g.ch.push_back(Read(x.get(), all));
  };
  if (auto* c = dynamic_cast<ConstantValueNode*>(n)) g.val = c->GetVal();
  if (auto* c = dynamic_cast<ConstantListValueNode*>(n)) g.list = c->GetValList();
  if (auto* u = dynamic_cast<UnaryOPNode*>(n)) {
    g.op = static_cast<int>(u->GetOp());
    g.ch.push_back(Read(u->GetChild(), all));
  }
  if (auto* b = dynamic_cast<BinaryOPNode*>(n)) {
    g.op = static_cast<int>(b->GetOp());
    g.ch.push_back(Read(b->GetLeft(), all));
    g.ch.push_back(Read(b->GetRight(), all));
  }
  if (auto* f = dynamic_cast<FunctionNode*>(n)) {
    g.name = f->GetFuncName();
    kids(f->GetArgs());
  }
  if (auto* s = dynamic_cast<NoOPNode*>(n)) {
    g.vars = s->GetVarInfos();
    g.isolated = s->IsIsolated();
    kids(s->GetArgs());
  }
  if (auto* i = dynamic_cast<IfNode*>(n)) kids(i->GetArgs());
  if (auto* s = dynamic_cast<SwitchNode*>(n)) kids(s->GetArgs());
  if (auto* b = dynamic_cast<IfBlockNode*>(n)) kids(b->GetArgs());
  if (auto* r = dynamic_cast<RefNode*>(n)) g.name = r->GetName();
  return g;
}

NodePtr Make(const G& g) {
  std::vector<NodePtr> a;
  for (auto& c : g.ch) a.push_back(Make(c));
  NodePtr n;
  switch (g.k) {
    case ExecNodeType::kEntryArgumentNode: n = std::make_unique<EntryArgumentNode>(); break;
    case ExecNodeType::kExecContextNode: n = std::make_unique<ExecContextNode>(); break;
    case ExecNodeType::kOutputNode: n = std::make_unique<OutputNode>(); break;
    case ExecNodeType::kConstValueNode: n = std::make_unique<ConstantValueNode>(g.val); break;
    case ExecNodeType::kConstListValueNode: n = std::make_unique<ConstantListValueNode>(g.list); break;
    case ExecNodeType::kUnaryOPNode: n = std::make_unique<UnaryOPNode>(static_cast<UnaryOPType>(g.op), std::move(a[0])); break;
    case ExecNodeType::kBinaryOPNode: n = std::make_unique<BinaryOPNode>(static_cast<BinaryOPType>(g.op), std::move(a[0]), std::move(a[1])); break;
    case ExecNodeType::kFunctionNode: n = std::make_unique<FunctionNode>(g.name, std::move(a)); break;
    case ExecNodeType::kNoOPNode: n = std::make_unique<NoOPNode>(g.vars, std::move(a), g.isolated); break;
    case ExecNodeType::kIfNode: n = std::make_unique<IfNode>(std::move(a)); break;
    case ExecNodeType::kSwitchNode: n = std::make_unique<SwitchNode>(std::move(a)); break;
    case ExecNodeType::kIfBlockNode: n = std::make_unique<IfBlockNode>(std::move(a)); break;
    case ExecNodeType::kRefNode: n = std::make_unique<RefNode>(g.name); break;
  }
  n->SetLocation(g.loc);
  return n;
}

template <class T>
std::string Raw(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) {
    return std::to_string(v.size()) + ":" + v;
  } else {
    return std::string(reinterpret_cast<const char*>(&v), sizeof v);
  }
}
// What the tree is. full: with constants' bits and locations; otherwise only what the printed form must tell apart.
void Put(const G& g, bool full, std::string* o) {
  *o += "(" + std::to_string(static_cast<int>(g.k)) + "," + std::to_string(g.op) + "," + Raw(g.name);
  for (auto& v : g.vars) *o += "[" + Raw(v.name) + ((v.is_const && (full || !v.name.empty())) ? "!" : "") + "]";
  if (full) {
    *o += g.isolated ? "i" : "";
    *o += std::to_string(g.val.index()) + "=" + std::visit([](auto& v) { return Raw(v); }, g.val);
    *o += std::to_string(g.list.index()) + "=" + std::visit([](auto& l) {
            std::string s = std::to_string(l.size());
            for (auto v : l) s += "," + Raw(v);
            return s;
          }, g.list);
    *o += "@" + std::to_string(reinterpret_cast<uintptr_t>(g.loc.source_code.data())) + "+" + std::to_string(g.loc.source_code.size()) + "/" +
          std::to_string(g.loc.begin_line) + ":" + std::to_string(g.loc.begin_col) + "-" + std::to_string(g.loc.end_line) + ":" + std::to_string(g.loc.end_col);
  }
  for (auto& c : g.ch) Put(c, full, o);
  *o += ")";
}
std::string Key(const G& g, bool full) {
  std::string s;
  Put(g, full, &s);
  return s;
}
std::string Key(ExecNode* n, bool full) { return Key(Read(n, nullptr), full); }
std::string Readable(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    char b[8];
    snprintf(b, sizeof b, c < 32 || c > 126 ? "\\x%02x" : "%c", c);
    o += b;
  }
  return o;
}
std::string FirstDiff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t f = i > 60 ? i - 60 : 0;
  return "first difference at " + std::to_string(i) + "\n one:   ..." + Readable(a.substr(f, 160)) + "\n other: ..." + Readable(b.substr(f, 160));
}
void All(G& g, std::vector<G*>* o) {
  o->push_back(&g);
  for (auto& c : g.ch) All(c, o);
}
size_t Size(const G& g) {
  size_t n = 1;
  for (auto& c : g.ch) n += Size(c);
  return n;
}

const std::string kSrc = "some source text that several nodes point into\nand a second line\n";
SourceLocation RandLoc(vr::Rng& r) {
  SourceLocation l;
  if (r.P(.1)) return l;
  size_t a = r.Below(kSrc.size()), b = r.Below(kSrc.size() - a + 1);
  l.source_code = std::string_view(kSrc).substr(a, b);
  l.begin_line = static_cast<int>(r.Below(1000));
  l.begin_col = static_cast<int>(r.Below(300));
  l.end_line = static_cast<int>(r.Below(1000));
  l.end_col = static_cast<int>(r.Below(300));
  return l;
}

std::string Ident(vr::Rng& r, char first) {
  std::string s(1, r.P(.7) ? first : "_vVZ_bx_"[r.Below(8)]);
  size_t n = 1 + r.Below(r.P(.1) ? 60 : 4);
  for (size_t i = 0; i < n; ++i) s += "abcdeXY_019"[r.Below(11)];
  return s;
}

const std::vector<UnaryOPType> kU = {UnaryOPType::kPlus, UnaryOPType::kMinus, UnaryOPType::kNot, UnaryOPType::kBitwiseNot};
const std::vector<BinaryOPType> kB = {BinaryOPType::kAdd, BinaryOPType::kSub, BinaryOPType::kMul, BinaryOPType::kDiv, BinaryOPType::kMod,
                                      BinaryOPType::kLarge, BinaryOPType::kLargeEqual, BinaryOPType::kEqual, BinaryOPType::kLess, BinaryOPType::kLessEqual,
                                      BinaryOPType::kNotEqual, BinaryOPType::kAnd, BinaryOPType::kOr, BinaryOPType::kBitwiseAnd, BinaryOPType::kBitwiseOr,
                                      BinaryOPType::kBitwiseXor, BinaryOPType::kBitwiseShiftLeft, BinaryOPType::kBitwiseShiftRight};

// A tree of any shape, compilable or not.
G RandTree(vr::Rng& r, int depth) {
  G g;
  g.loc = RandLoc(r);
  uint64_t k = depth <= 0 ? r.Below(6) : r.Below(17);
  auto kids = [&](size_t lo, size_t hi) {
    if (hi == 5 && r.P(.1)) hi = 20, depth = std::min(depth, 2);
    size_t n = lo + r.Below(hi - lo + 1);
    for (size_t i = 0; i < n; ++i) g.ch.push_back(RandTree(r, depth - 1 - static_cast<int>(r.Below(2))));
  };
  switch (k) {
    case 0: g.k = ExecNodeType::kEntryArgumentNode; break;
    case 1: g.k = ExecNodeType::kExecContextNode; break;
    case 2: g.k = ExecNodeType::kOutputNode; break;
    case 3: {
      g.k = ExecNodeType::kConstValueNode;
      RetType v = r.P(.2) ? RetType(std::string("~lit") + std::to_string(r.Below(100))) : RandOf(r, r.Pick(kNums), {});
      NodePtr n = ConstNode(v);
      G t = Read(n.get(), nullptr);
      g.val = t.val;
      break;
    }
    case 4: {
      g.k = ExecNodeType::kConstListValueNode;
      NodePtr n = ConstNode(RandOf(r, r.Pick(kLists), {}));
      G t = Read(n.get(), nullptr);
      if (t.k == ExecNodeType::kConstListValueNode) {
        g.list = t.list;
        if (r.P(.05)) {  // long to print
          std::visit([&](auto& v) {
            size_t want = 200 + r.Below(2500);
            if (!v.empty()) {
              size_t m = v.size();
              while (v.size() < want) v.push_back(v[r.Below(m)]);
            }
          }, g.list);
        }
        if (auto* s = std::get_if<std::vector<std::string>>(&g.list)) {
          for (auto& x : *s) x = "~lit" + std::to_string(x.size());
        }
      } else {
        g.list = std::vector<int32_t>{1, 2};
      }
      break;
    }
    case 5:
      g.k = ExecNodeType::kRefNode;
      g.name = Ident(r, 'v');
      break;
    case 6: case 7:
      g.k = ExecNodeType::kUnaryOPNode;
      g.op = static_cast<int>(r.Pick(kU));
      kids(1, 1);
      break;
    case 8: case 9: case 10:
      g.k = ExecNodeType::kBinaryOPNode;
      g.op = static_cast<int>(r.Pick(kB));
      kids(2, 2);
      break;
    case 11: case 12:
      g.k = ExecNodeType::kFunctionNode;
      g.name = Ident(r, 'f');
      kids(0, 4);
      break;
    case 13:
    case 14:
      g.k = ExecNodeType::kNoOPNode;
      g.isolated = r.P(.3);
      kids(0, 5);
      for (size_t i = 0; i < g.ch.size(); ++i) {
        bool c = r.P(.4);
        if (r.P(.6)) {
          g.vars.emplace_back(Ident(r, 'v'), c);
        } else {
          g.vars.emplace_back();
        }
      }
      break;
    case 15:
      g.k = r.P(.5) ? ExecNodeType::kIfNode : ExecNodeType::kSwitchNode;
      kids(0, 5);
      break;
    default:
      g.k = ExecNodeType::kIfBlockNode;
      kids(0, 5);
      break;
  }
  return g;
}

bool VarKids(const G& g) {
  return g.k == ExecNodeType::kFunctionNode || g.k == ExecNodeType::kNoOPNode || g.k == ExecNodeType::kIfNode || g.k == ExecNodeType::kSwitchNode ||
         g.k == ExecNodeType::kIfBlockNode;
}
void Erase(G& g, size_t i) {
  g.ch.erase(g.ch.begin() + i);
  if (g.k == ExecNodeType::kNoOPNode) g.vars.erase(g.vars.begin() + i);
}
void Insert(G& g, size_t i, G x) {
  g.ch.insert(g.ch.begin() + i, std::move(x));
  if (g.k == ExecNodeType::kNoOPNode) g.vars.insert(g.vars.begin() + i, VarInfo());
}

// One change somewhere in the tree; returns its name, empty when this one does not apply.
std::string Mutate(vr::Rng& r, G* root) {
  std::vector<G*> all;
  All(*root, &all);
  G& g = *r.Pick(all);
  auto other = [&](const std::string& s, char f) {
    std::string t = s;
    switch (r.Below(4)) {
      case 0: t += "x"; break;
      case 1: t = t.size() > 1 ? t.substr(0, t.size() - 1) : t + "0"; break;
      case 2: t[t.size() - 1] = t[t.size() - 1] == 'q' ? 'r' : 'q'; break;
      default: t = Ident(r, f);
    }
    return t;
  };
  switch (r.Below(12)) {
    case 0:
      if (g.k == ExecNodeType::kUnaryOPNode || g.k == ExecNodeType::kBinaryOPNode) {
        g.op = g.k == ExecNodeType::kBinaryOPNode ? static_cast<int>(r.Pick(kB)) : static_cast<int>(r.Pick(kU));
        return "operator";
      }
      return "";
    case 1:
      if (g.k == ExecNodeType::kFunctionNode) {
        g.name = other(g.name, 'f');
        return "function name";
      }
      return "";
    case 2:
      if (g.k == ExecNodeType::kRefNode) {
        g.name = other(g.name, 'v');
        return "referenced name";
      }
      return "";
    case 3:
    case 4:
      for (size_t t = 0; t < g.vars.size(); ++t) {
        auto& v = g.vars[r.Below(g.vars.size())];
        if (v.name.empty()) continue;
        if (r.P(.4)) {
          v.is_const = !v.is_const;
          return "let mark";
        }
        if (r.P(.3)) {
          v = VarInfo();
          return "unnamed";
        }
        v.name = other(v.name, 'v');
        return "variable name";
      }
      return "";
    case 5:
      if (g.ch.size() > 1) {
        size_t a = r.Below(g.ch.size()), b = r.Below(g.ch.size());
        std::swap(g.ch[a], g.ch[b]);
        return "children exchanged";
      }
      return "";
    case 6:
      if (VarKids(g) && !g.ch.empty()) {
        Erase(g, r.Below(g.ch.size()));
        return "child removed";
      }
      return "";
    case 7:
      if (VarKids(g)) {
        G x = g.ch.empty() || r.P(.5) ? RandTree(r, 1) : r.Pick(g.ch);
        Insert(g, r.Below(g.ch.size() + 1), x);
        return "child added";
      }
      return "";
    case 8: {
      G x;
      x.k = r.P(.5) ? ExecNodeType::kUnaryOPNode : ExecNodeType::kFunctionNode;
      x.op = static_cast<int>(UnaryOPType::kMinus);
      x.name = x.k == ExecNodeType::kFunctionNode ? "fwrap" : "";
      if (x.k == ExecNodeType::kFunctionNode) x.op = 0;
      x.ch.push_back(g);
      g = x;
      return "wrapped";
    }
    case 9: {  // the last child's last child becomes the next sibling: f(g(a, b)) -> f(g(a), b)
      if (!VarKids(g) || g.ch.empty()) return "";
      size_t i = r.Below(g.ch.size());
      G& s = g.ch[i];
      if (!VarKids(s) || s.ch.empty()) return "";
      G x = s.ch.back();
      Erase(s, s.ch.size() - 1);
      Insert(g, i + 1, x);
      return "child moved up";
    }
    case 10:
      switch (g.k) {
        case ExecNodeType::kIfNode: g.k = r.P(.5) ? ExecNodeType::kSwitchNode : ExecNodeType::kIfBlockNode; return "kind";
        case ExecNodeType::kSwitchNode: g.k = r.P(.5) ? ExecNodeType::kIfNode : ExecNodeType::kIfBlockNode; return "kind";
        case ExecNodeType::kIfBlockNode: g.k = r.P(.5) ? ExecNodeType::kSwitchNode : ExecNodeType::kIfNode; return "kind";
        case ExecNodeType::kEntryArgumentNode: g.k = r.P(.5) ? ExecNodeType::kOutputNode : ExecNodeType::kExecContextNode; return "kind";
        case ExecNodeType::kExecContextNode: g.k = r.P(.5) ? ExecNodeType::kOutputNode : ExecNodeType::kEntryArgumentNode; return "kind";
        case ExecNodeType::kOutputNode: g.k = r.P(.5) ? ExecNodeType::kEntryArgumentNode : ExecNodeType::kExecContextNode; return "kind";
        case ExecNodeType::kRefNode: g.k = ExecNodeType::kFunctionNode; return "kind";
        default: return "";
      }
    default:
      if (!g.ch.empty() && g.k != ExecNodeType::kNoOPNode) {  // a node replaced by its child
        G x = r.Pick(g.ch);
        g = x;
        return "unwrapped";
      }
      return "";
  }
}

// names that print like a node of another kind are outside the property
bool Plain(const G& g) {
  static const std::vector<std::string> kWords = {"if", "switch", "if_block", "no_op", "output", "entry_argument", "exec_context"};
  if (std::find(kWords.begin(), kWords.end(), g.name) != kWords.end()) return false;
  if (auto* s = std::get_if<std::string>(&g.val)) {
    if (g.k == ExecNodeType::kConstValueNode && s->compare(0, 4, "~lit") != 0) return false;
  }
  if (g.k == ExecNodeType::kConstListValueNode) {
    if (auto* l = std::get_if<std::vector<std::string>>(&g.list)) {
      for (auto& s : *l)
        if (s.compare(0, 4, "~lit") != 0) return false;
    }
  }
  for (auto& c : g.ch)
    if (!Plain(c)) return false;
  return true;
}

struct Check {
  Ctx& c;
  // everything about clone and print that needs no execution; consumes nothing, returns a clone
  NodePtr Do(ExecNode* n, const std::string& how) {
    std::vector<ExecNode*> a, b;
    std::string k0 = Key(Read(n, &a), true);
    std::string p0 = n->ToString(), p1 = n->ToString();
    if (p0 != p1) c.Fail("print-twice", how + ": printed twice, differently");
    NodePtr q = n->Clone();
    if (!q) c.Fail("clone", how + ": no clone");
    std::string kq = Key(Read(q.get(), &b), true);
    if (kq != k0) c.Fail("clone", how + ": the clone is another tree, " + FirstDiff(k0, kq));
    std::sort(a.begin(), a.end());
    for (auto* x : b) {
      if (std::binary_search(a.begin(), a.end(), x)) c.Fail("shared", how + ": a node belongs to both trees");
    }
    if (q->ToString() != p0) c.Fail("print-clone", how + ": the clone prints differently, " + FirstDiff(p0, q->ToString()));
    std::string pre = c.rng.P(.5) ? "  " : "|   ";
    if (n->ToString(pre) != q->ToString(pre)) c.Fail("print-clone", how + ": the clone prints differently after a prefix");
    if (n->ToString() != p0) c.Fail("print-twice", how + ": printed again, differently");
    if (Key(n, true) != k0) c.Fail("changed", how + ": cloning or printing changed the tree, " + FirstDiff(k0, Key(n, true)));
    // a tree built again from the same description prints the same
    NodePtr again = Make(Read(n, nullptr));
    if (again->ToString() != p0) c.Fail("print-equal", how + ": an equal tree prints differently, " + FirstDiff(p0, again->ToString()));
    c.Count("clones compared node by node");
    c.Count("nodes compared", b.size());
    c.Nontrivial(vr::Hash(k0.substr(0, 4000)));
    return q;
  }
  void Disturb(ExecNode* n) {
    n->SetLocation(RandLoc(c.rng));
    n->SetReturnType(ValueType::kStringList);
    if (auto* f = dynamic_cast<FunctionNode*>(n)) f->AppendArgs(std::make_unique<OutputNode>());
    if (auto* s = dynamic_cast<NoOPNode*>(n)) s->AppendArgs("zz", std::make_unique<OutputNode>(), true);
    if (auto* i = dynamic_cast<IfNode*>(n)) i->AppendArgs(std::make_unique<OutputNode>());
    if (auto* i = dynamic_cast<SwitchNode*>(n)) i->AppendArgs(std::make_unique<OutputNode>());
    std::vector<ExecNode*> all;
    Read(n, &all);
    for (auto* x : all) {
      if (c.rng.P(.3)) x->SetLocation(RandLoc(c.rng));
    }
  }
  // the clone keeps its content whatever happens to the original, and the other way round
  void Independent(NodePtr* n, const std::string& how) {
    NodePtr q = (*n)->Clone();
    std::string k = Key(q.get(), true), p = q->ToString();
    if (c.rng.P(.5)) {
      Disturb(n->get());
      if (Key(q.get(), true) != k) c.Fail("shared", how + ": changing the original changed the clone, " + FirstDiff(k, Key(q.get(), true)));
      n->reset();
      if (Key(q.get(), true) != k || q->ToString() != p) c.Fail("shared", how + ": the clone changed when the original was destroyed");
      *n = std::move(q);
    } else {
      Disturb(q.get());
      if (Key(n->get(), true) != k) c.Fail("shared", how + ": changing the clone changed the original, " + FirstDiff(k, Key(n->get(), true)));
      q.reset();
      if (Key(n->get(), true) != k || (*n)->ToString() != p) c.Fail("shared", how + ": the original changed when the clone was destroyed");
    }
    c.Count("trees checked for independence of original and clone");
  }
  void Mutants(const G& g0, const std::string& print0, int tries) {
    if (!Plain(g0)) return;
    std::string key0 = Key(g0, false);
    for (int t = 0; t < tries; ++t) {
      G g = g0;
      std::string what = Mutate(c.rng, &g);
      if (what.empty()) continue;
      if (c.rng.P(.2)) Mutate(c.rng, &g);
      if (Size(g) > 4000) continue;
      std::string key = Key(g, false);
      if (key == key0 || !Plain(g)) continue;
      NodePtr m = Make(g);
      if (m->ToString() == print0) {
        c.Fail("print-same", "two trees that differ (" + what + ") print the same:\n" + print0.substr(0, 600) + "\n" + FirstDiff(key0, key));
      }
      c.Count("pairs of different trees printed (" + what + ")");
    }
  }
};
}  // namespace

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C23";
  p.quick_cases = 400000;
  p.thorough_cases = 30000000;
  p.quick_secs = 18;
  p.thorough_secs = 600;
  p.rule = "random trees of every node kind, parsed and grouped pipelines and compiled programs, cloned, changed, destroyed, printed, compared node by node and executed; distinct = tree with its locations and constants";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    Check k{c};
    if (!c.rng.P(.06)) {
      // any shape
      G g = RandTree(c.rng, 2 + static_cast<int>(c.rng.Below(5)));
      if (c.idx % 97 == 1) {
        for (int i = 0; i < 150; ++i) {
          G x;
          x.k = ExecNodeType::kUnaryOPNode;
          x.op = static_cast<int>(UnaryOPType::kMinus);
          x.loc = RandLoc(c.rng);
          x.ch.push_back(g);
          g = x;
        }
      }
      if (Size(g) > 3000) return;
      c.Desc("tree " + Readable(Key(g, false)));
      NodePtr n = Make(g);
      if (Key(n.get(), true) != Key(g, true)) c.Fail("accessors", "a freshly built tree is not what was asked for");
      NodePtr q = k.Do(n.get(), "a tree");
      q = k.Do(q.get(), "the clone of a tree");
      k.Mutants(g, n->ToString(), 6);
      k.Independent(&n, "a tree");
      if (c.idx < 40) c.Sample(n->ToString());
      return;
    }
    // programs
    GenOpt o;
    o.floats = c.rng.P(.4);
    o.lists = c.rng.P(.6);
    o.dsl = true;
    Gen g(c.rng, o);
    g.MakeInputs(3 + c.rng.Below(4));
    g.in.push_back(VT::kI32);
    ProgOpt po;
    po.stmts = 2 + static_cast<int>(c.rng.Below(8));
    ProgGen pg(g, po);
    P e = c.rng.P(.15) ? BigGen(g, c.thorough ? 1000 : 120).Make() : pg.Pipeline();
    std::string text = Text(e, {});
    c.Desc(text);
    int how = static_cast<int>(c.rng.Below(3));
    std::string hw = how == 0 ? "a built program" : how == 1 ? "a parsed program" : "a grouped program";
    NodePtr n;
    if (how == 0) {
      n = Build(e);
      std::vector<ExecNode*> all;
      Read(n.get(), &all);
      for (auto* x : all) x->SetLocation(RandLoc(c.rng));
    } else {
      athena::ProgramAstBuilder b;
      Status st = b.BuildPipeline(text, &n);
      if (!st.ok()) c.Fail("refused", st.ToString());
      if (how == 2) {
        std::vector<NodePtr> v;
        v.push_back(std::move(n));
        athena::PipelineGrouper gr;
        auto r = gr.Group(v);
        if (r.size() != 1) c.Fail("grouping", "one pipeline became " + std::to_string(r.size()));
        n = std::move(r[0]);
      }
    }
    NodePtr q = k.Do(n.get(), hw);
    k.Mutants(Read(n.get(), nullptr), n->ToString(), 4);
    c.Count("programs " + hw);
    // a broken program: original and clone report the same error at the same place
    {
      G bad = Read(n.get(), nullptr);
      std::vector<G*> all;
      All(bad, &all);
      bool done = false;
      for (int t = 0; t < 20 && !done; ++t) {
        G& x = *c.rng.Pick(all);
        if (x.k == ExecNodeType::kRefNode || x.k == ExecNodeType::kFunctionNode) {
          x.name += "_nowhere";
          done = true;
        }
      }
      if (done && c.rng.P(.5)) {
        NodePtr a = Make(bad), b = a->Clone();
        ExecEngine e1(Opt(true)), e2(Opt(true));
        Status s1 = e1.Compile(a, Reg());
        a.reset();
        Status s2 = e2.Compile(b, Reg());
        if (s1.ok() || s1.ToString() != s2.ToString()) c.Fail("clone-error", hw + ": the original reports\n" + s1.ToString() + "\nthe clone\n" + s2.ToString());
        c.Count("errors of original and clone compared");
      }
    }
    bool strict = HasFloat(e) || c.rng.P(.5);
    ExecEngine e0(Opt(strict)), e1(Opt(strict));
    std::string before = n->ToString();
    std::string kb = Key(n.get(), true);
    Status st = e0.Compile(n, Reg());
    if (!st.ok()) {
      if (Contains(st.ToString(), "constant zero")) return;
      c.Fail("refused", hw + ": " + st.ToString());
    }
    if (n && c.rng.P(.5)) {
      // the tree after it was compiled: still the same tree, and its clone compiles too
      if (Key(n.get(), true) != kb) c.Fail("changed", hw + ": compilation changed the tree, " + FirstDiff(kb, Key(n.get(), true)));
      if (n->ToString() != before) c.Fail("print-twice", hw + ": after compilation it prints differently");
      q = n->Clone();
      if (Key(q.get(), true) != kb) c.Fail("clone", hw + ": the clone of a compiled tree is another tree");
      c.Count("trees cloned after compilation");
    }
    if (c.rng.P(.3)) k.Independent(&q, hw);
    n.reset();
    st = e1.Compile(q, Reg());
    if (!st.ok()) c.Fail("refused", hw + ": the clone of an accepted tree is refused: " + st.ToString());
    q.reset();
    ExecContext x0(4096), x1(4096);
    for (int t = 0; t < 6; ++t) {
      auto in = g.InValues();
      Machine m;
      RetType v;
      if (!Reference(e, in, &m, &v)) continue;
      Inputs i0(in), i1(in);
      auto o0 = std::make_unique<Out>(), o1 = std::make_unique<Out>();
      Status s0 = e0.Execute(x0, i0.Ptr(), o0.get()), s1 = e1.Execute(x1, i1.Ptr(), o1.get());
      if (!s0.ok() || !s1.ok()) c.Fail("status", hw + ": original " + s0.ToString() + ", clone " + s1.ToString());
      auto r0 = Stored(*o0), r1 = Stored(*o1);
      if (!(r1 == m.stores)) c.Fail("stores", hw + ": the clone on\n" + Dump(in) + SpotDiff(r1, m.stores));
      if (!(r0 == m.stores)) c.Fail("stores", hw + ": the original on\n" + Dump(in) + SpotDiff(r0, m.stores));
      c.Count("executions of clone and original compared");
      c.Count("stores compared", r1.size());
    }
  });
}
