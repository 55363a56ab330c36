// Values: RetType is both what Execute returns and what the reference models compute.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <variant>
#include <vector>
#include "type.h"
#include "vr.h"

namespace vj {
using jitfusion::BinaryOPType;
using jitfusion::RetType;
using jitfusion::UnaryOPType;
using VT = jitfusion::ValueType;
using B = BinaryOPType;
using U = UnaryOPType;
using vr::Rng;

// type, C type, list struct, name
#define VJ_NUM(X)                                      \
  X(kU8, uint8_t, U8ListStruct, u8)                    \
  X(kU16, uint16_t, U16ListStruct, u16)                \
  X(kU32, uint32_t, U32ListStruct, u32)                \
  X(kU64, uint64_t, U64ListStruct, u64)                \
  X(kI8, int8_t, I8ListStruct, i8)                     \
  X(kI16, int16_t, I16ListStruct, i16)                 \
  X(kI32, int32_t, I32ListStruct, i32)                 \
  X(kI64, int64_t, I64ListStruct, i64)                 \
  X(kF32, float, F32ListStruct, f32)                   \
  X(kF64, double, F64ListStruct, f64)

inline const std::vector<VT> kNums = {VT::kU8, VT::kU16, VT::kU32, VT::kU64, VT::kI8,
                                      VT::kI16, VT::kI32, VT::kI64, VT::kF32, VT::kF64};
inline const std::vector<VT> kInts = {VT::kU8, VT::kU16, VT::kU32, VT::kU64, VT::kI8, VT::kI16, VT::kI32, VT::kI64};
inline const std::vector<VT> kLists = {VT::kU8List,  VT::kU16List, VT::kU32List, VT::kU64List, VT::kI8List,    VT::kI16List,
                                       VT::kI32List, VT::kI64List, VT::kF32List, VT::kF64List, VT::kStringList};

inline bool IsInt(VT t) { return t >= VT::kU8 && t <= VT::kI64; }
inline bool IsFloat(VT t) { return t == VT::kF32 || t == VT::kF64; }
inline bool IsNum(VT t) { return IsInt(t) || IsFloat(t); }
inline bool IsSigned(VT t) { return t >= VT::kI8 && t <= VT::kI64; }
inline bool IsList(VT t) { return t >= VT::kU8List && t <= VT::kStringList; }
inline int Bits(VT t) {
  switch (t) {
    case VT::kU8: case VT::kI8: return 8;
    case VT::kU16: case VT::kI16: return 16;
    case VT::kU32: case VT::kI32: case VT::kF32: return 32;
    default: return 64;
  }
}
inline VT ListOf(VT t) {
  if (t == VT::kString) return VT::kStringList;
  return static_cast<VT>(static_cast<int>(t) - static_cast<int>(VT::kU8) + static_cast<int>(VT::kU8List));
}
inline VT ElemOf(VT t) {
  if (t == VT::kStringList) return VT::kString;
  return static_cast<VT>(static_cast<int>(t) - static_cast<int>(VT::kU8List) + static_cast<int>(VT::kU8));
}
inline const char* Name(VT t) {
  switch (t) {
#define X(K, C, S, N) \
  case VT::K: return #N; \
  case VT::K##List: return #N "list";
    VJ_NUM(X)
#undef X
    case VT::kString: return "string";
    case VT::kStringList: return "stringlist";
    case VT::kVoid: return "void";
    case VT::kPtr: return "ptr";
    default: return "unknown";
  }
}
// the capitalised form used in builtin names: CastU8List, ...
inline std::string CapName(VT t) {
  std::string n = Name(t);
  n[0] = static_cast<char>(toupper(n[0]));
  if (IsList(t)) n[n.size() - 4] = 'L';
  return n;
}
// documented conversion rank: i8 < u8 < i16 < ... < f64
inline int Rank(VT t) {
  static const VT order[] = {VT::kI8,  VT::kU8,  VT::kI16, VT::kU16, VT::kI32,
                             VT::kU32, VT::kI64, VT::kU64, VT::kF32, VT::kF64};
  for (int i = 0; i < 10; ++i)
    if (order[i] == t) return i;
  return -1;
}
inline VT Promote(VT a, VT b) { return Rank(a) >= Rank(b) ? a : b; }

template <class T>
constexpr VT TypeOfC() {
#define X(K, C, S, N) \
  if constexpr (std::is_same_v<T, C>) return VT::K; \
  if constexpr (std::is_same_v<T, std::vector<C>>) return VT::K##List;
  VJ_NUM(X)
#undef X
  if constexpr (std::is_same_v<T, std::string>) return VT::kString;
  if constexpr (std::is_same_v<T, std::vector<std::string>>) return VT::kStringList;
  return VT::kUnknown;
}
inline VT TypeOf(const RetType& v) {
  return std::visit([](const auto& x) { return TypeOfC<std::decay_t<decltype(x)>>(); }, v);
}

template <class F>
auto WithNum(VT t, F&& f) {  // f(C{}) for numeric type t
  switch (t) {
#define X(K, C, S, N) \
  case VT::K: return f(C{});
    VJ_NUM(X)
#undef X
    default: break;
  }
  fprintf(stderr, "WithNum: bad type %d\n", static_cast<int>(t));
  abort();
}

inline std::string ShowF(double d, bool f32) {
  char b[64];
  if (std::isnan(d)) return "nan";
  snprintf(b, sizeof b, f32 ? "%.9g" : "%.17g", d);
  return b;
}
inline std::string Quote(const std::string& s) { return "\"" + vr::Esc(s) + "\""; }
template <class T>
std::string ShowE(const T& x) {
  if constexpr (std::is_same_v<T, std::string>) return Quote(x);
  else if constexpr (std::is_floating_point_v<T>) return ShowF(x, sizeof(T) == 4);
  else return std::to_string(+x);
}
inline std::string Show(const RetType& v) {
  return std::visit(
      [](const auto& x) -> std::string {
        using T = std::decay_t<decltype(x)>;
        std::string n = Name(TypeOfC<T>());
        if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return ShowE(x) + ":" + n;
        else {
          std::string s = "[";
          size_t i = 0;
          for (const auto& e : x) {
            if (i++) s += ",";
            if (i > 200) { s += "..."; break; }
            s += ShowE(e);
          }
          return s + "](" + std::to_string(x.size()) + "):" + n;
        }
      },
      v);
}
template <class T>
bool SameE(const T& a, const T& b) {  // bit equality, all NaNs alike
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return memcmp(&a, &b, sizeof(T)) == 0;
  } else {
    return a == b;
  }
}
inline bool Same(const RetType& a, const RetType& b) {
  if (a.index() != b.index()) return false;
  return std::visit(
      [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        const T& y = std::get<T>(b);
        if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return SameE(x, y);
        else {
          if (x.size() != y.size()) return false;
          for (size_t i = 0; i < x.size(); ++i)
            if (!SameE(x[i], y[i])) return false;
          return true;
        }
      },
      a);
}
// |a-b| <= rel*|b| + tiny, NaN alike, infinities equal
template <class T>
bool NearE(T a, T b, double rel, double abs_ = 0) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(static_cast<double>(a) - static_cast<double>(b)) <=
           rel * std::fabs(static_cast<double>(b)) + abs_ + std::numeric_limits<T>::min();
  } else {
    return a == b;
  }
}

// ---- random values --------------------------------------------------------------------------
template <class T>
T RandNum(Rng& r, bool nan_ok = true) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (r.Below(16)) {
      case 0: return static_cast<T>(0.0);
      case 1: return static_cast<T>(-0.0);
      case 2: return nan_ok ? std::numeric_limits<T>::quiet_NaN() : static_cast<T>(2.5);
      case 3: return std::numeric_limits<T>::infinity();
      case 4: return -std::numeric_limits<T>::infinity();
      case 5: return std::numeric_limits<T>::denorm_min();
      case 6: return r.P(.5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
      case 7: case 8: return static_cast<T>(r.Range(-5, 5));
      case 9: return static_cast<T>(r.Range(-200, 200)) / 2;
      case 10: return static_cast<T>(static_cast<int64_t>(r.Next()));
      case 11: case 12: {  // any finite bit pattern: every exponent, full-length decimal forms
        T v;
        uint64_t b = r.Next();
        std::memcpy(&v, &b, sizeof v);
        return std::isfinite(v) ? v : static_cast<T>(-1.5);
      }
      default: return static_cast<T>((static_cast<double>(r.Next() >> 11) / 9007199254740992.0 - .5) *
                                     std::pow(10.0, static_cast<double>(r.Range(-6, 8))));
    }
  } else {
    using L = std::numeric_limits<T>;
    switch (r.Below(sizeof(T) == 8 ? 13 : 12)) {
      case 12: {  // next to the middle of two floats or of two doubles: rounding twice goes wrong
        int p = r.P(.6) ? 24 : 53;
        int64_t m = ((int64_t(1) << (p - 1)) | static_cast<int64_t>(r.Next() >> (65 - p))) * 2 + 1;
        int k = static_cast<int>(r.Below(static_cast<uint64_t>(63 - p)));
        return static_cast<T>(static_cast<T>(m) << k) + static_cast<T>(r.Range(-1, 1));
      }
      case 0: return 0;
      case 1: return 1;
      case 2: return static_cast<T>(-1);
      case 3: return L::max();
      case 4: return L::min();
      case 5: return static_cast<T>(L::max() - static_cast<T>(r.Below(3)));
      case 6: return static_cast<T>(L::min() + static_cast<T>(r.Below(3)));
      case 7: return static_cast<T>(T(1) << r.Below(sizeof(T) * 8 - 1));
      case 8: case 9: return static_cast<T>(r.Range(-8, 8));
      default: return static_cast<T>(r.Next() >> r.Below(64));
    }
  }
}
template <class T>
T SmallNum(Rng& r) {  // few distinct finite values: ties, zeros
  if constexpr (std::is_floating_point_v<T>) return static_cast<T>(r.Range(-6, 6)) / 2;
  else if constexpr (std::is_signed_v<T>) return static_cast<T>(r.Range(-4, 4));
  else return static_cast<T>(r.Range(0, 7));
}
inline std::string RandStr(Rng& r, size_t maxlen = 12) {
  size_t n = r.P(.15) ? 0 : r.Below(maxlen + 1);
  std::string s;
  bool bin = r.P(.2);
  for (size_t i = 0; i < n; ++i) s += bin ? static_cast<char>(r.Below(256)) : static_cast<char>("abcAB 01"[r.Below(8)]);
  return s;
}
// a string that differs from s in little: one byte, one byte after a NUL, or the length
inline std::string NearStr(Rng& r, std::string s) {
  switch (r.Below(4)) {
    case 0: return s + (r.P(.5) ? std::string(1, '\0') : std::string("a"));
    case 1: if (s.size()) s.pop_back(); return s;
    case 2: if (s.size()) s[r.Below(s.size())] ^= static_cast<char>(1 << r.Below(8)); return s;
    default: if (s.size() > 1) { s[r.Below(s.size() - 1)] = 0; s.back() ^= 1; } return s;
  }
}
inline RetType RandScalar(Rng& r, VT t, bool nan_ok = true) {
  if (t == VT::kString) return RandStr(r);
  return WithNum(t, [&](auto z) -> RetType { return RandNum<decltype(z)>(r, nan_ok); });
}
inline size_t RandLen(Rng& r, size_t maxlen = 80) {
  static const size_t edge[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65};
  if (r.P(.6)) {
    size_t n = edge[r.Below(17)];
    return n <= maxlen ? n : r.Below(maxlen + 1);
  }
  return r.Below(maxlen + 1);
}
// style 0 wild, 1 small (ties), 2 wild without NaN
inline RetType RandList(Rng& r, VT lt, size_t n, int style = 0) {
  if (lt == VT::kStringList) {
    std::vector<std::string> v(n);
    // sometimes strings that differ only after a long common prefix
    std::string pre = n && r.P(.1) ? RandStr(r, n > 1000 ? 20 : 150) : "";
    if (n && r.P(.06)) pre += '\0';  // ... or only after a NUL
    const bool near = r.P(.15);
    for (size_t i = 0; i < n; ++i)
      v[i] = near && i && r.P(.7) ? NearStr(r, v[r.Below(i)]) : pre + RandStr(r, style == 1 ? 1 : 12);
    return v;
  }
  return WithNum(ElemOf(lt), [&](auto z) -> RetType {
    using T = decltype(z);
    std::vector<T> v(n);
    for (auto& x : v) x = style == 1 ? SmallNum<T>(r) : RandNum<T>(r, style == 0);
    return v;
  });
}
inline RetType RandOf(Rng& r, VT t, int style = 0) {
  if (IsList(t)) return RandList(r, t, RandLen(r, 40), style);
  return RandScalar(r, t, style == 0);
}
inline size_t SizeOf(const RetType& v) {
  return std::visit(
      [](const auto& x) -> size_t {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_arithmetic_v<T>) return 1;
        else return x.size();
      },
      v);
}

// ---- reference semantics of scalar operators ---------------------------------------------------
struct Undefined {};  // thrown when the operation is outside the documented domain

template <class To, class From>
To ConvC(From x) {
  if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To>) {
    // defined only when the truncated value fits
    if (std::isnan(x)) throw Undefined();
    long double t = std::trunc(static_cast<long double>(x));
    if (t < static_cast<long double>(std::numeric_limits<To>::min()) ||
        t > static_cast<long double>(std::numeric_limits<To>::max()))
      throw Undefined();
    return static_cast<To>(x);
  } else {
    return static_cast<To>(x);
  }
}
inline RetType Conv(const RetType& v, VT to) {
  if (TypeOf(v) == to) return v;
  return std::visit(
      [&](const auto& x) -> RetType {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_arithmetic_v<T>)
          return WithNum(to, [&](auto z) -> RetType { return ConvC<decltype(z)>(x); });
        else abort();
      },
      v);
}
inline bool Truthy(const RetType& v) {
  return std::visit(
      [](const auto& x) -> bool {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_floating_point_v<T>) {
          if (std::isnan(x)) throw Undefined();  // truth of NaN is not documented
          return x != 0;
        } else if constexpr (std::is_arithmetic_v<T>) return x != 0;
        else abort();
      },
      v);
}
inline bool IsRel(B o) { return o >= B::kLarge && o <= B::kNotEqual; }
inline bool IsLogic(B o) { return o == B::kAnd || o == B::kOr; }
inline bool IsBit(B o) { return o >= B::kBitwiseAnd; }
inline bool IsShift(B o) { return o == B::kBitwiseShiftLeft || o == B::kBitwiseShiftRight; }

template <class T>
RetType ArithC(B op, T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (op) {
      case B::kAdd: return static_cast<T>(a + b);
      case B::kSub: return static_cast<T>(a - b);
      case B::kMul: return static_cast<T>(a * b);
      case B::kDiv: return static_cast<T>(a / b);
      case B::kMod: return static_cast<T>(std::fmod(a, b));
      default: abort();
    }
  } else {
    using Un = std::make_unsigned_t<T>;
    using W = uint64_t;
    W x = static_cast<W>(static_cast<Un>(a)), y = static_cast<W>(static_cast<Un>(b));
    switch (op) {
      case B::kAdd: return static_cast<T>(static_cast<Un>(x + y));
      case B::kSub: return static_cast<T>(static_cast<Un>(x - y));
      case B::kMul: return static_cast<T>(static_cast<Un>(x * y));
      case B::kDiv:
      case B::kMod:
        if (b == 0) throw Undefined();
        if (std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == static_cast<T>(-1)) throw Undefined();
        return op == B::kDiv ? static_cast<T>(a / b) : static_cast<T>(a % b);
      case B::kBitwiseAnd: return static_cast<T>(x & y);
      case B::kBitwiseOr: return static_cast<T>(x | y);
      case B::kBitwiseXor: return static_cast<T>(x ^ y);
      case B::kBitwiseShiftLeft:
      case B::kBitwiseShiftRight: {
        if (std::is_signed_v<T> && b < 0) throw Undefined();
        if (y >= sizeof(T) * 8) throw Undefined();
        if (op == B::kBitwiseShiftLeft) return static_cast<T>(static_cast<Un>(x << y));
        return static_cast<T>(a >> y);
      }
      default: abort();
    }
  }
}
template <class T>
bool RelC(B op, const T& a, const T& b) {
  switch (op) {
    case B::kLarge: return a > b;
    case B::kLargeEqual: return a >= b;
    case B::kEqual: return a == b;
    case B::kLess: return a < b;
    case B::kLessEqual: return a <= b;
    case B::kNotEqual: return a != b;
    default: abort();
  }
}
inline std::string AsUnsignedCmp(const std::string& s) { return s; }  // std::string compares as unsigned char

inline RetType BinOp(B op, const RetType& l, const RetType& r) {
  VT a = TypeOf(l), b = TypeOf(r);
  if (IsLogic(op)) {
    bool v = op == B::kAnd ? (Truthy(l) && Truthy(r)) : (Truthy(l) || Truthy(r));
    return static_cast<uint8_t>(v);
  }
  if (a == VT::kString) {
    if (op == B::kAdd) return std::get<std::string>(l) + std::get<std::string>(r);
    return static_cast<uint8_t>(RelC(op, std::get<std::string>(l), std::get<std::string>(r)));
  }
  if (IsList(a)) {
    return std::visit(
        [&](const auto& x) -> RetType {
          using T = std::decay_t<decltype(x)>;
          if constexpr (!std::is_arithmetic_v<T> && !std::is_same_v<T, std::string>) {
            T o = x;
            const T& y = std::get<T>(r);
            o.insert(o.end(), y.begin(), y.end());
            return o;
          } else abort();
        },
        l);
  }
  VT t = IsShift(op) ? a : Promote(a, b);
  RetType x, y;
  if (IsShift(op)) {  // the amount must be representable: judge it before narrowing
    VT bt = b;
    bool bad = std::visit(
        [&](const auto& v) -> bool {
          using T = std::decay_t<decltype(v)>;
          if constexpr (std::is_integral_v<T>) {
            if (std::is_signed_v<T> && v < 0) return true;
            return static_cast<uint64_t>(v) >= static_cast<uint64_t>(Bits(a));
          } else return true;
        },
        r);
    (void)bt;
    if (bad) throw Undefined();
  }
  x = Conv(l, t);
  y = Conv(r, t);
  return std::visit(
      [&](const auto& p) -> RetType {
        using T = std::decay_t<decltype(p)>;
        if constexpr (std::is_arithmetic_v<T>) {
          const T& q = std::get<T>(y);
          if (IsRel(op)) return static_cast<uint8_t>(RelC(op, p, q));
          return ArithC<T>(op, p, q);
        } else abort();
      },
      x);
}
inline VT BinType(B op, VT a, VT b) {
  if (IsLogic(op) || IsRel(op)) return VT::kU8;
  if (!IsNum(a)) return a;
  if (IsShift(op)) return a;
  return Promote(a, b);
}
inline VT UnType(U op, VT a) {
  if (op == U::kNot) return VT::kU8;
  if (op == U::kMinus && (a == VT::kI8 || a == VT::kU8 || a == VT::kI16 || a == VT::kU16)) return VT::kI32;
  return a;
}
inline RetType UnOp(U op, const RetType& v) {
  VT a = TypeOf(v);
  switch (op) {
    case U::kPlus: return v;
    case U::kNot: return static_cast<uint8_t>(!Truthy(v));
    case U::kMinus: {
      RetType w = Conv(v, UnType(op, a));
      return std::visit(
          [](const auto& x) -> RetType {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_floating_point_v<T>) return static_cast<T>(-x);
            else if constexpr (std::is_integral_v<T>) return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(x));
            else abort();
          },
          w);
    }
    case U::kBitwiseNot:
      return std::visit(
          [](const auto& x) -> RetType {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_integral_v<T>) return static_cast<T>(~x);
            else abort();
          },
          v);
    default: abort();
  }
}
inline const char* OpText(B o) {
  switch (o) {
    case B::kAdd: return "+"; case B::kSub: return "-"; case B::kMul: return "*"; case B::kDiv: return "/";
    case B::kMod: return "%"; case B::kLarge: return ">"; case B::kLargeEqual: return ">="; case B::kEqual: return "==";
    case B::kLess: return "<"; case B::kLessEqual: return "<="; case B::kNotEqual: return "!=";
    case B::kAnd: return "and"; case B::kOr: return "or"; case B::kBitwiseAnd: return "&"; case B::kBitwiseOr: return "|";
    case B::kBitwiseXor: return "^"; case B::kBitwiseShiftLeft: return "<<"; case B::kBitwiseShiftRight: return ">>";
  }
  return "?";
}
inline const char* OpText(U o) {
  switch (o) {
    case U::kPlus: return "+"; case U::kMinus: return "-"; case U::kNot: return "!"; case U::kBitwiseNot: return "~";
  }
  return "?";
}
}  // namespace vj
