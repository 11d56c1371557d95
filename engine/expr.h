// Hash-consed bit-vector / IEEE-754 / array expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <cmath>
#include <stdexcept>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FRound /*val=mode*/, FEq, FLt, FLe, FIsNan,
  FToSI, FToUI, SIToF, UIToF, FToF, UF,
  ArrVar, ArrConst, ArrStore, Select,
};

struct Expr {
  K k; uint16_t w;      // width in bits (arrays: 0)
  uint32_t id;
  u128 val;             // Const value, Var id, Extract low bit, FRound mode, UF name id
  const Expr *a, *b, *c;
  std::vector<const Expr*>* args; // UF
  size_t h;
  // cached variable set (sorted ids), lazily
  mutable const std::vector<uint32_t>* vars = nullptr;
  mutable void* z3 = nullptr; mutable void* z3fp = nullptr;
  mutable uint32_t ev_stamp = 0; mutable u128 ev_val = 0;
  bool isC() const { return k == K::Const; }
  uint64_t u() const { return (uint64_t)val; }
};
typedef const Expr* E;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sgn(u128 v, int w) { if (w >= 128) return (s128)v; return (v >> (w - 1)) & 1 ? (s128)(v | ~maskw(w)) : (s128)v; }

struct VarInfo { std::string name; int w; bool arr; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufnames;

E mkC(int w, u128 v);
E mkVar(int w, const std::string& name);
E mkArrVar(const std::string& name);
E mkBin(K k, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, int lo, int w);
E mkZExt(E a, int w);
E mkSExt(E a, int w);
E mkIte(E c, E t, E f);
E mkNot1(E a);           // width-1 not
E mkNotW(E a);
E mkUn(K k, E a, int w = 0, u128 aux = 0);
E mkUF(const std::string& name, int w, const std::vector<E>& args);
E mkArrStore(E arr, E idx, E byte);
E mkArrConst(E byte);
E mkSelect(E arr, E idx);
inline E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }
inline E mkImpl(E a, E b) { return mkOr1(mkNot1(a), b); }
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
const std::vector<uint32_t>& varsOf(E e);
std::string show(E e, int depth = 6);
bool hasArrOrUF(E e);
// concrete folding
u128 foldBin(K k, int w, u128 a, u128 b, bool& ok);
u128 foldUn(K k, E e, u128 a, int aw);
size_t exprCount();
