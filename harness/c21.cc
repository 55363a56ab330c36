// C21: compile errors point at the offending source text.
#include "common/mutate.h"
#include "common/prog.h"
#include "common/run.h"
using namespace vj;
using vr::Ctx;

namespace {
struct Bad {
  P root;                 // the expression that holds the error
  Node* mark = nullptr;   // the construct the message must point at
  std::string say;        // what the message must say
  std::string kind;
};

struct Maker {
  Gen& g;
  vr::Rng& r;
  int n = 0;
  P E(VT t) { return g.Expr(t, static_cast<int>(r.Below(3))); }
  VT Num() { return r.Pick(kNums); }
  VT NonNum() { return r.P(.5) ? VT::kString : r.Pick(kLists); }
  P Raw(NK k, std::vector<P> ch) {
    P x = Mk(k, VT::kI32);
    x->ch = std::move(ch);
    return x;
  }
  P Void() { return StoreN(900, E(Num())); }
  Bad Make() {
    Bad b;
    auto at = [&](P root, Node* mark, const std::string& say, const std::string& kind) {
      b.root = root;
      b.mark = mark;
      b.say = say;
      b.kind = kind;
    };
    switch (r.Below(17)) {
      case 0: {
        std::string nm = "nowhere_" + std::to_string(r.Below(1000));
        P x = RefN(nm, VT::kI32);
        at(x, x.get(), "variable '" + nm + "' is not defined", "undefined variable");
        break;
      }
      case 1: {
        std::string nm = "no_such_" + std::to_string(r.Below(1000));
        std::vector<P> a;
        for (size_t i = r.Below(4); i-- > 0;) a.push_back(E(g.AnyT()));
        P x = Fn(nm, a, VT::kI32, nullptr);
        at(x, x.get(), "function " + nm + "(", "unknown function");
        b.say += "\x1enot found";
        break;
      }
      case 2: {  // a known function, arguments of no registered signature
        static const std::vector<std::string> kF = {"Sort", "Concat", "Sum", "Unique", "ln", "StrLen", "CountList", "Truncate"};
        P x = Fn(r.Pick(kF), {E(Num()), E(VT::kString), E(VT::kF64), E(Num())}, VT::kI32, nullptr);
        at(x, x.get(), "not found", "wrong arguments");
        break;
      }
      case 3:
      case 4:
      case 5: {
        B op = r.Pick(kBins);
        VT u = Num(), v = NonNum();
        if (r.P(.5)) std::swap(u, v);
        P x = Bin(op, E(u), E(v));
        at(x, x.get(), "operator", "binary operator");
        break;
      }
      case 6: {
        P x = Un(r.Pick(kUns), E(NonNum()));
        at(x, x.get(), "operand", "unary operator");
        break;
      }
      case 7: {
        std::vector<P> ch = {E(Num())};
        size_t k = r.P(.5) ? 1 + r.Below(2) : 4 + r.Below(2);
        while (ch.size() < k) ch.push_back(E(VT::kI32));
        P x = Raw(NK::If, ch);
        at(x, x.get(), "if expects exactly 3 arguments", "if argument count");
        break;
      }
      case 8: {
        P cnd = E(NonNum());
        P x = Raw(NK::If, {cnd, E(VT::kI32), E(VT::kI32)});
        at(x, cnd.get(), "if condition must be a numeric type", "if condition");
        break;
      }
      case 9: {
        P x = Raw(NK::If, {E(Num()), E(r.P(.5) ? VT::kString : Num()), E(r.Pick(kLists))});
        at(x, x.get(), "if branches have incompatible types", "if branches");
        break;
      }
      case 10: {
        std::vector<P> ch = {E(Num()), E(VT::kI32), E(VT::kI32)};
        P v = Void();
        ch[r.Below(3)] = v;
        at(Raw(NK::If, ch), v.get(), "if argument cannot be void", "void in if");
        break;
      }
      case 11: {
        std::vector<P> ch;
        for (size_t i = 2 * (1 + r.Below(3)); i-- > 0;) ch.push_back(E(VT::kI32));
        P x = Raw(NK::Switch, ch);
        at(x, x.get(), "switch expects an odd number", "switch argument count");
        break;
      }
      case 12: {
        size_t k = 1 + r.Below(3);
        std::vector<P> ch;
        for (size_t i = 0; i < 2 * k + 1; ++i) ch.push_back(E(VT::kI32));
        P v = E(NonNum());
        ch[2 * r.Below(k)] = v;
        at(Raw(NK::Switch, ch), v.get(), "switch condition must", "switch condition");
        break;
      }
      case 13: {
        std::vector<P> ch;
        for (size_t i = 0; i < 5; ++i) ch.push_back(E(VT::kI32));
        P v = Void();
        ch[r.Below(5)] = v;
        at(Raw(NK::Switch, ch), v.get(), "switch argument cannot be void", "void in switch");
        break;
      }
      case 14: {
        P x = Fn("eff", {E(VT::kI32), Void()}, VT::kI32, nullptr);
        at(x, x.get(), "function 'eff' argument cannot be void", "void argument");
        break;
      }
      case 15: {
        P x = r.P(.5) ? Bin(r.Pick(kBins), Void(), E(Num())) : Bin(r.Pick(kBins), E(Num()), Void());
        at(x, x.get(), "void", "void operand");
        break;
      }
      default: {
        P x = Un(r.Pick(kUns), Void());
        at(x, x.get(), "void", "void operand");
        break;
      }
    }
    return b;
  }
};

struct Spot {
  size_t begin, end;  // bytes in the text
  int bl, bc, el, ec; // 1-based lines and columns, end exclusive
};

std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v(1);
  for (char ch : s) {
    if (ch == '\n') v.emplace_back();
    else v.back() += ch;
  }
  return v;
}
bool Where(std::string* text, Spot* s) {
  size_t b = text->find(kMarkBegin);
  if (b == std::string::npos || text->find(kMarkBegin, b + 1) != std::string::npos) return false;
  text->erase(b, kMarkBegin.size());
  size_t e = text->find(kMarkEnd);
  if (e == std::string::npos) return false;
  text->erase(e, kMarkEnd.size());
  s->begin = b;
  s->end = e;
  auto pos = [&](size_t at, int* l, int* c) {
    *l = 1;
    *c = 1;
    for (size_t i = 0; i < at; ++i) {
      if ((*text)[i] == '\n') {
        ++*l;
        *c = 1;
      } else {
        ++*c;
      }
    }
  };
  pos(b, &s->bl, &s->bc);
  pos(e, &s->el, &s->ec);
  return true;
}
std::string NoCr(std::string s) {
  while (!s.empty() && s.back() == '\r') s.pop_back();
  return s;
}
// the column on screen at which character i of the line stands
size_t Visual(const std::string& s, size_t i) {
  size_t v = 0;
  for (size_t k = 0; k < i; ++k) v = k < s.size() && s[k] == '\t' ? (v / 8 + 1) * 8 : v + 1;
  return v;
}

void CheckMessage(Ctx& c, const std::string& msg, const std::string& text, const Spot& s, const std::string& say) {
  std::vector<std::string> says;
  size_t from = 0;
  for (;;) {
    size_t e = say.find('\x1e', from);
    says.push_back(say.substr(from, e == std::string::npos ? e : e - from));
    if (e == std::string::npos) break;
    from = e + 1;
  }
  auto out = Lines(msg);
  for (auto& w : says) {
    if (!Contains(out[0], w)) c.Fail("problem", "the message does not say \"" + w + "\":\n" + msg);
  }
  int l = 0, col = 0;
  size_t k = 0;
  for (; k < out.size(); ++k) {
    size_t a = out[k].find("line ");
    if (a != std::string::npos && out[k].find("-->") != std::string::npos && sscanf(out[k].c_str() + a, "line %d, column %d", &l, &col) == 2) break;
  }
  if (k == out.size()) c.Fail("no-location", "the message gives no line and column:\n" + msg);
  std::string want = "line " + std::to_string(s.bl) + ", column " + std::to_string(s.bc);
  if (l != s.bl || col != s.bc) c.Fail("location", "the construct begins at " + want + ", the message is\n" + msg);
  auto src = Lines(text);
  ++k;
  for (int ln = s.bl; ln <= s.el; ++ln) {
    const std::string& line = src[ln - 1];
    // " 12 | source"
    std::string num = std::to_string(ln);
    size_t bar = std::string::npos;
    for (; k < out.size(); ++k) {
      size_t b = out[k].find(" |");
      if (b == std::string::npos) continue;
      std::string head = out[k].substr(0, b);
      while (!head.empty() && head[0] == ' ') head.erase(0, 1);
      if (head == num) {
        bar = b + 1;
        break;
      }
    }
    if (k >= out.size()) c.Fail("quote", "line " + num + " is not quoted:\n" + msg);
    std::string q = out[k].size() > bar + 2 ? out[k].substr(bar + 2) : "";
    if (NoCr(q) != NoCr(line)) c.Fail("quote", "line " + num + " is quoted as \"" + q + "\", it is \"" + line + "\"\n" + msg);
    ++k;
    if (k >= out.size() || out[k].size() < bar + 1 || out[k][bar] != '|' || out[k].substr(0, bar).find_first_not_of(' ') != std::string::npos) {
      c.Fail("markers", "no markers under line " + num + ":\n" + msg);
    }
    std::string m = out[k].size() > bar + 2 ? out[k].substr(bar + 2) : "";
    size_t f = m.find('^'), e = m.find_last_of('^');
    if (f == std::string::npos || m.find_first_not_of(" \t") != f || m.find_first_not_of('^', f) != std::string::npos) {
      c.Fail("markers", "no proper markers under line " + num + ":\n" + msg);
    }
    size_t body = NoCr(line).size();
    size_t lo = ln == s.bl ? s.bc - 1 : 0, hi = ln == s.el ? s.ec - 1 : line.size();
    // where the construct's own text begins and ends on this line
    size_t first = line.find_first_not_of(" \t\r", lo), last = body;
    if (ln == s.el) last = hi;
    while (last > lo && (line[last - 1] == ' ' || line[last - 1] == '\t' || line[last - 1] == '\r')) --last;
    if (first == std::string::npos || first >= hi) first = lo;
    size_t begin_lo = Visual(line, lo), begin_hi = Visual(line, ln == s.bl ? lo : first);
    size_t got_b = Visual(m, f);
    if (got_b < begin_lo || got_b > begin_hi) {
      c.Fail("markers", "the markers under line " + num + " begin at screen column " + std::to_string(got_b) + ", the construct at " + std::to_string(begin_lo) + ":\n" + msg);
    }
    // the end is judged where no tab stands inside the construct on this line
    if (line.find('\t', lo) == std::string::npos || line.find('\t', lo) >= hi) {
      size_t got_e = got_b + (e - f + 1);
      size_t end_lo = Visual(line, last), end_hi = std::max(Visual(line, hi), begin_lo + 1);
      if (got_e < end_lo || got_e > end_hi) {
        c.Fail("markers", "the markers under line " + num + " end at screen column " + std::to_string(got_e) + ", the construct at " + std::to_string(Visual(line, hi)) + ":\n" + msg);
      }
    }
    c.Count("quoted lines and markers compared with the source");
    ++k;
  }
}
}  // namespace

int main(int argc, char** argv) {
  vr::Plan p;
  p.id = "C21";
  p.quick_cases = 1000000;
  p.thorough_cases = 60000000;
  p.quick_secs = 18;
  p.thorough_secs = 600;
  p.rule = "valid random programs with exactly one error of a known kind put at a known place, printed with random layout (tabs, blank lines, comments, strings, CRLF), the message's line, column, quotation and markers compared with that place; distinct = kind, construct and place";
  return vr::Main(argc, argv, p, [&](Ctx& c) {
    GenOpt o;
    o.floats = true;
    o.lists = true;
    o.dsl = true;
    Gen g(c.rng, o);
    g.MakeInputs(3);
    g.in.push_back(VT::kI32);
    ProgOpt po;
    bool expr = c.rng.P(.15);
    po.stmts = expr ? static_cast<int>(c.rng.Below(4)) : 1 + static_cast<int>(c.rng.Below(10));
    if (expr) {
      po.nest = 0;
      po.stores = false;
    }
    ProgGen pg(g, po);
    P e = pg.Pipeline();
    if (expr) e->body.push_back({"", false, g.Expr(g.AnyT(), 3)});
    for (int round = 0; round < 6; ++round) {
      P m = CloneP(e);
      Positions ps;
      ps.Program(m);
      g.vars.clear();
      Maker mk{g, c.rng};
      Bad b;
      std::string kind;
      uint64_t what = expr ? (c.rng.P(.3) ? 1 : 9) : c.rng.Below(12);
      if (what < 3) {
        Place pl = c.rng.Pick(ps.places);
        if (pl.scope.vars.empty()) continue;
        if (expr && (pl.seq != m || pl.at >= m->body.size())) continue;
        auto x = c.rng.Pick(pl.scope.vars);
        if (x.second == VT::kVoid) continue;
        bool cst = pl.scope.consts.count(x.first) != 0;
        auto put = [&](bool let, P rhs) {
          b.mark = rhs.get();
          pl.seq->body.insert(pl.seq->body.begin() + static_cast<long>(pl.at), {x.first, let, rhs});
        };
        if (what == 0) {
          if (cst) continue;
          VT t;
          do t = g.AnyT();
          while (t == x.second);
          put(false, mk.E(t));
          b.say = "variable '" + x.first + "'";
          b.kind = "assignment of another type";
        } else if (cst) {
          put(c.rng.P(.3), mk.E(x.second));
          b.say = "const variable '" + x.first + "'";
          b.kind = "constant reassigned";
        } else {
          put(true, mk.E(x.second));
          b.say = "cannot redeclare variable '" + x.first + "' with let";
          b.kind = "redeclared with let";
        }
      } else if (what == 3) {  // used outside the block that defines it, or before
        if (ps.assigns.empty()) continue;
        auto a = c.rng.Pick(ps.assigns);
        std::vector<Place> out;
        for (auto& q : ps.places)
          if (!q.scope.Has(a.second->var)) out.push_back(q);
        if (out.empty() || a.second->e->t == VT::kVoid) continue;
        Place q = c.rng.Pick(out);
        P use = RefN(a.second->var, a.second->e->t);
        b.mark = use.get();
        b.say = "variable '" + a.second->var + "' is not defined";
        b.kind = "variable out of scope";
        P rhs = c.rng.P(.5) ? StoreN(300, use) : c.rng.P(.5) ? use : Bin(B::kMul, Const(int32_t(2)), use);
        q.seq->body.insert(q.seq->body.begin() + static_cast<long>(q.at), {c.rng.P(.3) ? "fresh_name" : "", false, rhs});
      } else if (what == 4) {
        std::vector<P*> conds;
        for (auto& pl : ps.places) {
          for (auto& s : pl.seq->body) {
            if (s.e->k != NK::When) continue;
            for (size_t j = 0; j + 1 < s.e->ch.size(); j += 2) conds.push_back(&s.e->ch[j]);
          }
        }
        if (conds.empty()) continue;
        P x = mk.E(mk.NonNum());
        *c.rng.Pick(conds) = x;
        b.mark = x.get();
        b.say = "if block condition must be a numeric type";
        b.kind = "when condition";
      } else {
        b = mk.Make();
        if (expr) {
          P& last = m->body.back().e;
          Positions pe;
          pe.Expr(last, 0);
          P* at = c.rng.Pick(pe.exprs);
          if (c.rng.P(.4)) {  // the error stands in a definition, whose tree is put where the name is used
            bool twice = c.rng.P(.3);
            VT t = g.AnyT();
            *at = RefN(twice ? "held2" : "held", t);
            P def = Seq({{"", false, g.Expr(t, 3)}});
            Positions pd;
            pd.Expr(def->body[0].e, 0);
            P* in = c.rng.Pick(pd.exprs);
            if (in == &def->body[0].e) continue;  // the name itself would be pointed at
            *in = b.root;
            if (twice) m->body.insert(m->body.end() - 1, {"held2", c.rng.P(.3), RefN("held", t)});
            m->body.insert(m->body.begin(), {"held", c.rng.P(.3), def->body[0].e});
            c.Count("errors in definitions of an expression");
          } else {
            *at = b.root;
          }
        } else {
          if (ps.exprs.empty()) continue;
          P* at = c.rng.Pick(ps.exprs);
          if ((*at)->k == NK::Store) (*at)->ch[0] = b.root;
          else *at = b.root;
        }
      }
      PrintOpt pr;
      pr.noise = c.rng.P(.8);
      pr.minimal = c.rng.P(.7);
      pr.r = &c.rng;
      pr.newline_per_stmt = c.rng.P(.6);
      pr.mark = b.mark;
      std::string text = Text(m, pr);
      if (c.rng.P(.2)) text = "\t" + text;
      if (c.rng.P(.1)) text = "\n\n" + text;
      if (c.rng.P(.1)) text = "/* first\n  second */ " + text;
      Spot s;
      if (!Where(&text, &s)) continue;
      if (text.size() > 20000) continue;
      std::string desc = b.kind + "\n" + text;
      c.Desc(desc);
      Status st;
      if (expr) {
        athena::AthenaExpression x(Opt(true));
        st = x.Compile(text, Reg());
      } else {
        std::vector<std::string> all = {text};
        if (c.rng.P(.3)) {  // among other pipelines
          Gen g2(c.rng, o);
          g2.MakeInputs(2);
          g2.in.push_back(VT::kI32);
          ProgOpt p2;
          p2.stmts = 1 + static_cast<int>(c.rng.Below(3));
          p2.prefix = "w";
          ProgGen q(g2, p2);
          PrintOpt pq;
          pq.newline_per_stmt = c.rng.P(.4);
          std::string t2 = Text(q.Pipeline(), pq);
          all.insert(c.rng.P(.5) ? all.begin() : all.end(), t2);
          c.Count("errors in one of several pipelines");
        }
        athena::AthenaPipeline x(Opt(true));
        st = x.Compile(all, Reg());
      }
      if (st.ok()) c.Fail("accepted", "the program is accepted although it has an error (" + b.kind + ")");
      std::string msg = st.ToString();
      if (Contains(msg, "constant zero") && b.say != "constant zero") {
        c.Count("skipped: the random program divides by a literal zero");
        continue;
      }
      CheckMessage(c, msg, text, s, b.say);
      c.Count("errors located: " + b.kind);
      if (s.bl != s.el) c.Count("errors in constructs of several lines");
      if (s.bl > 1) c.Count("errors not on the first line");
      c.Nontrivial(vr::Hash(b.kind) ^ vr::Mix(s.bl * 1000 + s.bc) ^ vr::Hash(text.substr(s.begin, s.end - s.begin)));
      if (text.size() < 200 && s.bl > 1) c.Sample(text + "\n" + msg);
    }
    // trees without text: no location is invented
    if (c.rng.P(.02)) {
      P m = CloneP(e);
      Maker mk{g, c.rng};
      g.vars.clear();
      Bad b = mk.Make();
      m->body.push_back({"", false, b.root});
      ExecEngine x(Opt(true));
      auto node = Build(m);
      Status st = x.Compile(node, Reg());
      if (st.ok()) c.Fail("accepted", "a built tree is accepted although it has an error (" + b.kind + ")");
      if (Contains(st.ToString(), "-->")) c.Fail("location", "a tree without source text, yet the message is\n" + st.ToString());
      c.Count("errors in trees without source text");
    }
  });
}
