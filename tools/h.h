#include <cstdio>
#include <cstring>
#include <string>
#include <thread>
#include <atomic>
#include <algorithm>
#include <vector>
#include <cmath>
#include <limits>
#include "athena/athena.h"
#include "exec_node.h"
using namespace jitfusion;
#define CHECK(c) do { if (!(c)) { std::printf("demo: %s\n", #c); return 1; } } while (0)
static std::unique_ptr<FunctionRegistry> Reg() {
  std::unique_ptr<FunctionRegistry> r;
  auto st = FunctionRegistryFactory::CreateFunctionRegistry(&r);
  if (!st.ok()) { std::printf("%s\n", st.ToString().c_str()); std::exit(8); }
  return r;
}
static std::unique_ptr<ExecNode> C(ConstantValueType v) { return std::make_unique<ConstantValueNode>(v); }
template <class... A> static std::unique_ptr<ExecNode> F(std::string n, A... a) {
  std::vector<std::unique_ptr<ExecNode>> v; (v.emplace_back(std::move(a)), ...);
  return std::make_unique<FunctionNode>(n, std::move(v));
}
static std::unique_ptr<ExecNode> Bop(BinaryOPType t, std::unique_ptr<ExecNode> a, std::unique_ptr<ExecNode> b) {
  return std::make_unique<BinaryOPNode>(t, std::move(a), std::move(b));
}
// value of one DSL expression; *err, when given, receives the error text ("" when fine)
static RetType Eval(const std::string& code, const std::unique_ptr<FunctionRegistry>& reg, std::string* err = nullptr) {
  athena::AthenaExpression e; RetType r{};
  Status s = e.Compile(code, reg);
  if (s.ok()) s = e.Execute(nullptr, &r);
  if (err) *err = s.ok() ? "" : s.ToString();
  else if (!s.ok()) { std::printf("%s\n", s.ToString().c_str()); std::exit(7); }
  return r;
}
