// Compile + execute helpers shared by the harnesses.
#pragma once
#include "gen.h"
#include "print.h"
#include "vr.h"

namespace vj {
inline ExecEngineOption Opt(bool strict, bool save = false, bool ir = false) {
  ExecEngineOption o;
  o.fp_math_mode = strict ? FPMathMode::kStrict : FPMathMode::kFast;
  o.enable_save_compiled = save;
  o.dump_ir = ir;
  return o;
}
inline RegPtr& Reg() {  // one registry per process
  static RegPtr r = MakeReg();
  return r;
}
inline bool Contains(const std::string& s, const std::string& w) { return s.find(w) != std::string::npos; }
inline std::string Trace(const std::vector<Event>& t) {
  std::string s;
  for (auto& e : t) s += " eff" + std::to_string(e.id) + "(" + Show(e.val) + ")";
  return s.empty() ? " none" : s;
}
inline bool SameTrace(const std::vector<Event>& a, const std::vector<Event>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i].id != b[i].id || !Same(a[i].val, b[i].val)) return false;
  return true;
}
// "Runtime Error: a; b"
inline std::string Joined(const std::vector<std::string>& e) {
  std::string s;
  for (size_t i = 0; i < e.size(); ++i) s += (i ? "; " : "") + e[i];
  return s;
}
}  // namespace vj
