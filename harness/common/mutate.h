// Positions inside a model program, and copies to edit.
#pragma once
#include <set>
#include "ast.h"

namespace vj {
inline P CloneP(const P& n) {
  auto m = std::make_shared<Node>(*n);
  for (auto& c : m->ch) c = CloneP(c);
  for (auto& s : m->body) s.e = CloneP(s.e);
  return m;
}
struct Scope {
  std::vector<std::pair<std::string, VT>> vars;
  std::set<std::string> consts;
  bool Has(const std::string& n) const {
    for (auto& v : vars)
      if (v.first == n) return true;
    return false;
  }
};
struct Place {  // before body[at] of seq, with these variables visible
  P seq;
  size_t at;
  Scope scope;
  int depth;
};
struct Positions {
  std::vector<P*> exprs;      // every expression position
  std::vector<int> depth;
  std::vector<P*> conds;      // conditions of if, switch and when
  std::vector<Place> places;
  std::vector<std::pair<Place, Stmt*>> assigns;

  void Expr(P& n, int d) {
    exprs.push_back(&n);
    depth.push_back(d);
    if (n->k == NK::If) conds.push_back(&n->ch[0]);
    if (n->k == NK::Switch)
      for (size_t i = 0; i + 1 < n->ch.size(); i += 2) conds.push_back(&n->ch[i]);
    for (auto& c : n->ch) Expr(c, d + 1);
  }
  void Program(P& seq, Scope sc = {}, int d = 0) {
    for (size_t i = 0; i < seq->body.size(); ++i) {
      places.push_back({seq, i, sc, d});
      Stmt& s = seq->body[i];
      if (s.e->k == NK::When) {
        for (size_t j = 0; j < s.e->ch.size(); ++j) {
          if (s.e->ch[j]->k == NK::Seq) Program(s.e->ch[j], sc, d + 1);
          else {
            conds.push_back(&s.e->ch[j]);
            Expr(s.e->ch[j], d);
          }
        }
        continue;
      }
      Expr(s.e, d);
      if (!s.var.empty()) {
        assigns.push_back({places.back(), &s});
        if (!sc.Has(s.var)) {
          sc.vars.emplace_back(s.var, s.e->t);
          if (s.let) sc.consts.insert(s.var);
        }
      }
    }
    places.push_back({seq, seq->body.size(), sc, d});
  }
};
}  // namespace vj
