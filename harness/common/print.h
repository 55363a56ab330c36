// The model AST as DSL text, with as few or as many parentheses, blanks and comments as asked for.
#pragma once
#include "ast.h"

namespace vj {
struct PrintOpt {
  bool minimal = true;      // only the parentheses precedence requires
  bool noise = false;       // random blanks, comments, operator spellings, redundant parentheses
  Rng* r = nullptr;
  bool newline_per_stmt = false;
  const Node* mark = nullptr;  // this node's text is put between kMarkBegin and kMarkEnd
};

inline const std::string kMarkBegin = "\x01\x02<mark\x02\x01", kMarkEnd = "\x01\x02mark>\x02\x01";

struct Printer {
  PrintOpt o;
  explicit Printer(PrintOpt opt) : o(opt) {}

  // documented precedence, low to high
  static int Prec(B op) {
    switch (op) {
      case B::kOr: return 1;
      case B::kAnd: return 2;
      case B::kBitwiseOr: return 4;
      case B::kBitwiseXor: return 5;
      case B::kBitwiseAnd: return 6;
      case B::kEqual: case B::kNotEqual: return 7;
      case B::kLess: case B::kLessEqual: case B::kLarge: case B::kLargeEqual: return 8;
      case B::kBitwiseShiftLeft: case B::kBitwiseShiftRight: return 9;
      case B::kAdd: case B::kSub: return 10;
      case B::kMul: case B::kDiv: case B::kMod: return 11;
    }
    return 0;
  }
  static constexpr int kIn = 3, kUnary = 12, kPrimary = 13;

  std::string Sp(bool need = false) {
    if (!o.noise) return need ? " " : "";
    std::string s;
    switch (o.r->Below(13)) {
      case 10: s = " /*\n\n*/"; break;
      case 11: s = "\n\n"; break;
      case 12: s = " /* a\nb */ "; break;
      case 0: s = "\n"; break;
      case 1: s = "\t"; break;
      case 2: s = "  "; break;
      case 3: s = " /* c; let x = \"1\" */ "; break;
      case 4: s = " // note ; }\n"; break;
      case 5: s = " /*\n*\n**/"; break;
      case 6: s = "\r\n"; break;
      default: s = ""; break;
    }
    if (need && s.empty()) s = " ";
    return s;
  }
  static std::string FloatText(double d, bool f32) {
    // shortest fixed notation that reads back exactly
    char b[1500];
    for (int p = 1; p < 1200; ++p) {
      snprintf(b, sizeof b, "%.*f", p, d);
      if (f32 ? std::strtof(b, nullptr) == static_cast<float>(d) : std::strtod(b, nullptr) == d) break;
    }
    return b;
  }
  std::string Lit(const RetType& v, bool in_list = false) {
    (void)in_list;
    return std::visit(
        [&](const auto& x) -> std::string {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, std::string>) {
            char q = x.find('"') != std::string::npos ? '\'' : '"';
            if (o.noise && x.find('\'') == std::string::npos && o.r->P(.4)) q = '\'';
            return q + x + q;
          } else if constexpr (std::is_arithmetic_v<T>) {
            std::string n = Name(TypeOfC<T>());
            if constexpr (std::is_same_v<T, double>) {
              std::string s = FloatText(x, false);
              if (o.noise && o.r->P(.3)) {
                if (x == std::floor(x) && std::fabs(x) < 1e15 && o.r->P(.5)) return std::to_string(static_cast<int64_t>(x)) + "f64";
                return s + "f64";
              }
              return s;
            } else if constexpr (std::is_same_v<T, float>) {
              if (o.noise && x == std::floor(x) && std::fabs(x) < 1e6 && o.r->P(.5)) return std::to_string(static_cast<int64_t>(x)) + "f32";
              return FloatText(x, true) + "f32";
            } else {
              std::string s = std::to_string(x);
              if (o.noise && o.r->P(.1)) s = "0" + s;
              if constexpr (std::is_same_v<T, int32_t>)
                if (!o.noise || o.r->P(.7)) return s;
              return s + n;
            }
          } else {
            std::string s = "[";
            size_t i = 0;
            for (const auto& e : x) {
              if (i++) s += Sp() + "," + Sp();
              s += Lit(RetType(e), true);
            }
            return s + "]";
          }
        },
        v);
  }
  std::string Op(B op) {
    std::string s = OpText(op);
    if (o.noise) {
      if (op == B::kAnd && o.r->P(.5)) s = "&&";
      if (op == B::kOr && o.r->P(.5)) s = "||";
      if (op == B::kNotEqual && o.r->P(.5)) s = "<>";
    }
    return s;
  }
  std::string Args(const std::vector<std::string>& a) {
    std::string s = "(";
    for (size_t i = 0; i < a.size(); ++i) s += (i ? std::string(",") + (o.noise ? "" : " ") + Sp() : Sp()) + a[i] + Sp();
    return s + ")";
  }
  std::string Call(const std::string& f, const std::vector<std::string>& a) { return f + Sp() + Args(a); }
  std::string Paren(const std::string& s) { return "(" + Sp() + s + Sp() + ")"; }

  // text of n, to be placed where an expression of precedence >= min is needed
  std::string E(const P& n, int min = 0) {
    int p = kPrimary;
    std::string s;
    switch (n->k) {
      case NK::Const: s = Lit(n->c); break;
      case NK::In: s = Call(std::string("ld_") + Name(n->t), {"entry_arg", std::to_string(n->id)}); break;
      case NK::Un: {
        std::string op = OpText(n->uop);
        if (n->uop == U::kNot && o.noise && o.r->P(.5)) op = "not ";
        p = kUnary;
        s = op + (op == "not " ? Sp(true) : Sp()) + E(n->ch[0], kUnary);
        break;
      }
      case NK::Bin: {
        p = Prec(n->bop);
        s = E(n->ch[0], p) + Sp(true) + Op(n->bop) + Sp(true) + E(n->ch[1], p + 1);
        break;
      }
      case NK::Fn: {
        if (n->infix_in) {
          p = kIn;
          s = E(n->ch[0], p) + Sp(true) + "in" + Sp(true) + E(n->ch[1], p + 1);
          break;
        }
        std::vector<std::string> a;
        for (auto& c : n->ch) a.push_back(E(c));
        s = Call(n->name, a);
        break;
      }
      case NK::If: case NK::Switch: {
        std::vector<std::string> a;
        for (auto& c : n->ch) a.push_back(E(c));
        s = Call(n->k == NK::If ? "if" : "switch", a);
        break;
      }
      case NK::Eff: s = Call("eff", {std::to_string(n->id), E(n->ch[0])}); break;
      case NK::Fail: s = Call("mayfail", {std::to_string(n->id), E(n->ch[0]), "exec_ctx"}); break;
      case NK::Back: s = n->id < -1 ? Call("cnt", {"output"}) : n->id < 0 ? Call("rb", {"output", "-" + std::to_string(-n->id)}) : Call("rb", {"output", std::to_string(n->id)}); break;
      case NK::Store: s = Call(n->t == VT::kVoid ? "st" : "stv", {"output", std::to_string(n->id), E(n->ch[0])}); break;
      case NK::Ref: s = n->name; break;
      default: abort();
    }
    if (o.mark == n.get()) s = kMarkBegin + s + kMarkEnd;
    if (p < min || (!o.minimal && p < kPrimary) || (o.noise && o.r->P(.05))) s = Paren(s);
    return s;
  }
  std::string Eol() {
    if (o.newline_per_stmt) return "\n";
    return o.noise ? Sp() : " ";
  }
  std::string Block(const P& n) {
    std::string s;
    for (auto& b : n->body) s += Stm(b);
    return s;
  }
  std::string Stm(const Stmt& b) {
    if (b.e->k == NK::When) {
      std::string s;
      auto& ch = b.e->ch;
      for (size_t i = 0; i + 1 < ch.size(); i += 2)
        s += std::string(i ? "elif" : "when") + Sp(true) + E(ch[i]) + Sp(true) + "{" + Eol() + Block(ch[i + 1]) + "}" + Eol();
      if (ch.size() % 2) s += "else" + Sp() + "{" + Eol() + Block(ch.back()) + "}" + Eol();
      return s;
    }
    std::string s;
    if (!b.var.empty()) s = std::string(b.let ? "let" + Sp(true) : "") + b.var + Sp(true) + "=" + Sp(true);
    return s + E(b.e) + Sp() + ";" + Eol();
  }
};
inline std::string Text(const P& n, PrintOpt o = {}) {
  Printer p(o);
  if (n->k == NK::Seq) return p.Block(n);
  return p.E(n) + ";";
}
}  // namespace vj
