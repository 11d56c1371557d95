#include <unordered_map>
#include "expr.h"
#include <algorithm>
#include <sstream>
std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufnames;
static std::unordered_map<std::string, uint32_t> g_ufid;
static std::vector<E> g_all;

struct EqE { bool operator()(E x, E y) const {
  if (x->k != y->k || x->w != y->w || x->val != y->val || x->a != y->a || x->b != y->b || x->c != y->c) return false;
  if (x->args || y->args) { if (!x->args || !y->args) return false; return *x->args == *y->args; }
  return true; } };
// Open addressing; the hash beside the pointer keeps a probe inside one cache line.
struct Slot { size_t h; E e; };
static std::vector<Slot> g_tab(1 << 20, Slot{0, nullptr});
static void insertSlot(size_t h, E e) { size_t m = g_tab.size() - 1, i = h & m; while (g_tab[i].e) i = (i + 1) & m; g_tab[i] = {h, e}; }
size_t exprCount() { return g_all.size(); }

static E intern(Expr t) {
  size_t h = (size_t)t.k * 1000003u + t.w * 97u + (size_t)(uint64_t)t.val * 0x9E3779B97F4A7C15ull + (size_t)(uint64_t)(t.val >> 64) * 31;
  auto mix = [&](E e) { h ^= (e ? e->id * 0x9E3779B1u + 0x7f4a7c15u : 1) + (h << 6) + (h >> 2); };
  mix(t.a); mix(t.b); mix(t.c);
  if (t.args) for (auto x : *t.args) mix(x);
  t.h = h;
  h *= 0xFF51AFD7ED558CCDull; h ^= h >> 32;
  for (size_t m = g_tab.size() - 1, i = h & m; g_tab[i].e; i = (i + 1) & m) if (g_tab[i].h == h && EqE()(g_tab[i].e, &t)) return g_tab[i].e;
  Expr* n = new Expr(t);
  if (t.args) n->args = new std::vector<E>(*t.args);
  n->id = (uint32_t)g_all.size();
  g_all.push_back(n);
  if (g_all.size() * 2 > g_tab.size()) { std::vector<Slot> old(g_tab.size() * 2, Slot{0, nullptr}); old.swap(g_tab); for (auto& x : old) if (x.e) insertSlot(x.h, x.e); }
  insertSlot(h, n);
  return n;
}
static E raw(K k, int w, u128 val = 0, E a = nullptr, E b = nullptr, E c = nullptr, std::vector<E>* args = nullptr) {
  Expr t; t.k = k; t.w = (uint16_t)w; t.val = val; t.a = a; t.b = b; t.c = c; t.args = args; t.id = 0; t.h = 0; t.vars = nullptr;
  return intern(t);
}
E mkC(int w, u128 v) {
  static E cache[1 << 16]; v &= maskw(w);
  E& c = cache[(((uint64_t)v * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)w * 0xC2B2AE3D27D4EB4Full)) >> 48];
  if (c && c->w == w && c->val == v) return c;
  return c = raw(K::Const, w, v);
}
E mkVar(int w, const std::string& name) { g_vars.push_back({name, w, false}); return raw(K::Var, w, g_vars.size() - 1); }
E mkArrVar(const std::string& name) { g_vars.push_back({name, 0, true}); return raw(K::ArrVar, 0, g_vars.size() - 1); }

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 foldBin(K k, int w, u128 a, u128 b, bool& ok) {
  ok = true;
  switch (k) {
    case K::Add: return (a + b) & maskw(w);
    case K::Sub: return (a - b) & maskw(w);
    case K::Mul: return (a * b) & maskw(w);
    case K::UDiv: if (!b) { return maskw(w); } return a / b;
    case K::URem: if (!b) { return a; } return a % b;
    case K::SDiv: { s128 x = sgn(a, w), y = sgn(b, w); if (!y) { return x < 0 ? 1 : maskw(w); } if (y == -1) return (u128)(-x) & maskw(w); return (u128)(x / y) & maskw(w); }
    case K::SRem: { s128 x = sgn(a, w), y = sgn(b, w); if (!y) { return a; } if (y == -1) return 0; return (u128)(x % y) & maskw(w); }
    case K::Shl: return b >= (u128)w ? 0 : (a << (int)b) & maskw(w);
    case K::LShr: return b >= (u128)w ? 0 : a >> (int)b;
    case K::AShr: { s128 x = sgn(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & maskw(w); }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sgn(a, w) < sgn(b, w);
    case K::Sle: return sgn(a, w) <= sgn(b, w);
    case K::FAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case K::FSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case K::FMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case K::FDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case K::FRem: return w == 64 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
    case K::FEq: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case K::FLt: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case K::FLe: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    default: ok = false; return 0;
  }
}
static double rnd(double d, int m) { switch (m) { case 0: return nearbyint(d); case 1: return floor(d); case 2: return ceil(d); case 3: return trunc(d); default: return round(d); } }
u128 foldUn(K k, E e, u128 a, int aw) {
  int w = e->w;
  switch (k) {
    case K::Extract: return (a >> (int)e->val) & maskw(w);
    case K::ZExt: return a;
    case K::SExt: return (u128)sgn(a, aw) & maskw(w);
    case K::FNeg: return a ^ ((u128)1 << (w - 1));
    case K::FAbs: return a & ~((u128)1 << (w - 1));
    case K::FSqrt: return w == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
    case K::FRound: return w == 64 ? fromD(rnd(asD(a), (int)e->val)) : fromF((float)rnd(asF(a), (int)e->val));
    case K::FIsNan: return aw == 64 ? std::isnan(asD(a)) : std::isnan(asF(a));
    case K::FToSI: case K::FToUI: {
      double d = aw == 64 ? asD(a) : asF(a);
      if (std::isnan(d) || fabs(d) >= 1.7e38) return 0;
      s128 v = (s128)d; return (u128)v & maskw(w); }
    case K::SIToF: { s128 v = sgn(a, aw); return w == 64 ? fromD((double)(int64_t)v) : fromF((float)(int64_t)v); }
    case K::UIToF: { return w == 64 ? fromD((double)(uint64_t)a) : fromF((float)(uint64_t)a); }
    case K::FToF: return w == 64 ? (aw == 64 ? a : fromD((double)asF(a))) : (aw == 32 ? a : fromF((float)asD(a)));
    default: throw std::runtime_error("foldUn");
  }
}
static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle || k == K::FEq || k == K::FLt || k == K::FLe; }
static bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq || k == K::FAdd || k == K::FMul || k == K::FEq; }
static E C0() { static E e = mkC(1, 0); return e; }
static E C1() { static E e = mkC(1, 1); return e; }
E mkNot1(E a) { return mkBin(K::Xor, a, C1()); }
E mkNotW(E a) { return mkBin(K::Xor, a, mkC(a->w, maskw(a->w))); }
// upper bound on unsigned value (cheap)
static u128 ubound(E e, int d = 0) {
  if (e->isC()) return e->val;
  u128 m = maskw(e->w);
  if (d > 6) return m;
  switch (e->k) {
    case K::ZExt: return ubound(e->a, d + 1);
    case K::And: return std::min(ubound(e->a, d + 1), ubound(e->b, d + 1));
    case K::LShr: if (e->b->isC() && e->b->val < e->w) return ubound(e->a, d + 1) >> (int)e->b->val; return ubound(e->a, d + 1);
    case K::URem: if (e->b->isC() && e->b->val) return e->b->val - 1; return m;
    case K::UDiv: if (e->b->isC() && e->b->val) return ubound(e->a, d + 1) / e->b->val; return m;
    case K::Ite: return std::max(ubound(e->b, d + 1), ubound(e->c, d + 1));
    case K::Concat: { u128 h = ubound(e->a, d + 1); return (h << e->b->w) | maskw(e->b->w); }
    case K::Add: { u128 x = ubound(e->a, d + 1), y = ubound(e->b, d + 1); if (e->w < 127 && x + y <= m) return x + y; return m; }
    case K::Mul: { u128 x = ubound(e->a, d + 1), y = ubound(e->b, d + 1); if (x < ((u128)1 << 60) && y < ((u128)1 << 60) && x * y <= m) return x * y; return m; }
    case K::Or: case K::Xor: { u128 x = std::max(ubound(e->a, d + 1), ubound(e->b, d + 1)); u128 r = 0; while (r < x) r = r * 2 + 1; return r; }
    case K::Shl: if (e->b->isC() && e->b->val < e->w) { u128 x = ubound(e->a, d + 1); if (x <= (m >> (int)e->b->val)) return x << (int)e->b->val; } return m;
    default: return m;
  }
}
E mkBin(K k, E a, E b) {
  if (a->w != b->w) throw std::runtime_error("width mismatch in mkBin " + std::to_string((int)k) + " " + show(a, 2) + " / " + show(b, 2));
  int w = a->w;
  if (a->isC() && b->isC()) { bool ok; u128 r = foldBin(k, w, a->val, b->val, ok); if (ok) return mkC(isCmp(k) ? 1 : w, r); }
  if (commut(k)) {
    if (a->isC() && !b->isC()) std::swap(a, b);
    else if (!b->isC() && a->id > b->id) std::swap(a, b);
  }
  u128 M = maskw(w);
  switch (k) {
    case K::Add:
      if (b->isC()) {
        if (b->val == 0) return a;
        if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, a->a, mkC(w, a->b->val + b->val));
        if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkC(w, a->b->val + b->val), mkC(w, a->c->val + b->val));
      } else {
        // pull constants up
        if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
        if (b->k == K::Add && b->b->isC()) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
        if (b->k == K::Sub && b->b == a) return b->a;
        if (a->k == K::Sub && a->b == b) return a->a;
      }
      break;
    case K::Sub:
      if (b->isC()) return mkBin(K::Add, a, mkC(w, (~b->val + 1) & M));
      if (a == b) return mkC(w, 0);
      if (a->k == K::Add && a->a == b) return a->b;
      if (a->k == K::Add && a->b == b) return a->a;
      if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
      if (b->k == K::Add && b->b->isC()) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkC(w, (~b->b->val + 1) & M));
      break;
    case K::Mul:
      if (b->isC()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if (!(b->val & (b->val - 1))) { int s = 0; while (((u128)1 << s) != b->val) s++; return mkBin(K::Shl, a, mkC(w, s)); }
        if (a->k == K::Mul && a->b->isC()) return mkBin(K::Mul, a->a, mkC(w, a->b->val * b->val));
        if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, mkBin(K::Mul, a->a, b), mkC(w, a->b->val * b->val));
      }
      break;
    case K::UDiv:
      if (b->isC() && b->val == 1) return a;
      if (b->isC() && b->val && !(b->val & (b->val - 1))) { int s = 0; while (((u128)1 << s) != b->val) s++; return mkBin(K::LShr, a, mkC(w, s)); }
      if (b->isC() && b->val && ubound(a) < b->val) return mkC(w, 0);
      break;
    case K::URem:
      if (b->isC() && b->val && !(b->val & (b->val - 1))) return mkBin(K::And, a, mkC(w, b->val - 1));
      if (b->isC() && b->val && ubound(a) < b->val) return a;
      break;
    case K::SDiv: if (b->isC() && b->val == 1) return a;
      if (b->isC() && sgn(b->val, w) > 0 && ubound(a) <= (M >> 1)) return mkBin(K::UDiv, a, b);
      break;
    case K::SRem:
      if (b->isC() && sgn(b->val, w) > 0 && ubound(a) <= (M >> 1)) return mkBin(K::URem, a, b);
      break;
    case K::Shl:
      if (b->isC()) {
        if (b->val == 0) return a; if (b->val >= (u128)w) return mkC(w, 0);
        int s = (int)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkC(s, 0));
      }
      if (a->isC() && a->val == 0) return a;
      break;
    case K::LShr:
      if (b->isC()) {
        if (b->val == 0) return a; if (b->val >= (u128)w) return mkC(w, 0);
        int s = (int)b->val;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (a->isC() && a->val == 0) return a;
      break;
    case K::AShr:
      if (b->isC()) {
        if (b->val == 0) return a;
        int s = b->val >= (u128)w ? w - 1 : (int)b->val;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K::And:
      if (a == b) return a;
      if (b->isC()) {
        if (b->val == 0) return b;
        if (b->val == M) return a;
        if (a->k == K::And && a->b->isC()) return mkBin(K::And, a->a, mkC(w, a->b->val & b->val));
        if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkC(w, a->b->val & b->val), mkC(w, a->c->val & b->val));
        // contiguous mask -> concat/extract
        u128 v = b->val; int lo = 0; while (!((v >> lo) & 1)) lo++;
        u128 sh = v >> lo; if ((sh & (sh + 1)) == 0) {
          int n = 0; while (((sh >> n) & 1) && n < w) n++;
          E mid = mkExtract(a, lo, n);
          E r = lo ? mkConcat(mid, mkC(lo, 0)) : mid;
          return mkZExt(r, w);
        }
        // zext operand
        if (a->k == K::ZExt) return mkZExt(mkBin(K::And, a->a, mkC(a->a->w, b->val)), w);
        if (a->k == K::Concat) { int lw = a->b->w; return mkConcat(mkBin(K::And, a->a, mkC(a->a->w, b->val >> lw)), mkBin(K::And, a->b, mkC(lw, b->val))); }
      }
      if (w == 1) {
        if (a == mkNot1(b)) return C0();
      }
      if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return mkConcat(mkBin(k, a->a, b->a), mkBin(k, a->b, b->b));
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
      if (a->k == K::ZExt && a->a->w == 1 && !(b->k == K::ZExt && b->a->w == 1)) return mkZExt(mkBin(K::And, a->a, mkExtract(b, 0, 1)), w);
      if (b->k == K::ZExt && b->a->w == 1 && !(a->k == K::ZExt && a->a->w == 1)) return mkZExt(mkBin(K::And, b->a, mkExtract(a, 0, 1)), w);
      break;
    case K::Or: case K::Xor:
      if (a == b) return k == K::Or ? a : mkC(w, 0);
      if (b->isC()) {
        if (b->val == 0) return a;
        if (k == K::Or && b->val == M) return b;
        if (a->k == k && a->b->isC()) return mkBin(k, a->a, mkC(w, k == K::Or ? (a->b->val | b->val) : (a->b->val ^ b->val)));
        if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkC(w, k == K::Or ? (a->b->val | b->val) : (a->b->val ^ b->val)), mkC(w, k == K::Or ? (a->c->val | b->val) : (a->c->val ^ b->val)));
        if (k == K::Xor && w == 1) { // negated comparison normal forms
          if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
          if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
          if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
          if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
        }
        if (a->k == K::Concat) { int lw = a->b->w; return mkConcat(mkBin(k, a->a, mkC(a->a->w, b->val >> lw)), mkBin(k, a->b, mkC(lw, b->val))); }
        if (a->k == K::ZExt && (b->val >> a->a->w) == 0) return mkZExt(mkBin(k, a->a, mkC(a->a->w, b->val)), w);
        if (k == K::Or && w > 1 && a->k != K::Ite) { // or with constant: make constant bits explicit
          u128 v = b->val; int hi = 127; while (!((v >> hi) & 1)) hi--;
          int lo = 0; while (!((v >> lo) & 1)) lo++;
          // only single run
          u128 sh = v >> lo; if ((sh & (sh + 1)) == 0) {
            E mid = mkC(hi - lo + 1, maskw(hi - lo + 1));
            E r = mid; if (lo) r = mkConcat(r, mkExtract(a, 0, lo));
            if (hi + 1 < w) r = mkConcat(mkExtract(a, hi + 1, w - hi - 1), r);
            return r;
          }
        }
      }
      if (w == 1 && k == K::Or && a == mkNot1(b)) return C1();
      if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return mkConcat(mkBin(k, a->a, b->a), mkBin(k, a->b, b->b));
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
      // align disjoint concats: or of (zext x) and concat(y, 0..)
      if (w > 1 && (a->k == K::Concat || a->k == K::ZExt) && (b->k == K::Concat || b->k == K::ZExt)) {
        auto split = [&](E e) { return e->k == K::Concat ? (int)e->b->w : (int)e->a->w; };
        int s = std::min(split(a), split(b));
        if (s > 0 && s < w) return mkConcat(mkBin(k, mkExtract(a, s, w - s), mkExtract(b, s, w - s)), mkBin(k, mkExtract(a, 0, s), mkExtract(b, 0, s)));
      }
      break;
    case K::Eq:
      if (a == b) return C1();
      if (w == 1) { if (b->isC()) return b->val ? a : mkNot1(a); }
      if (b->isC()) {
        if (a->k == K::Add && a->b->isC()) return mkEq(a->a, mkC(w, b->val - a->b->val));
        if (a->k == K::Xor && a->b->isC()) return mkEq(a->a, mkC(w, b->val ^ a->b->val));
        if (a->k == K::ZExt) { if (b->val >> a->a->w) return C0(); return mkEq(a->a, mkC(a->a->w, b->val)); }
        if (a->k == K::SExt) { E in = mkC(a->a->w, b->val); if (((u128)sgn(in->val, in->w) & M) != b->val) return C0(); return mkEq(a->a, in); }
        if (a->k == K::Concat) { int lw = a->b->w; return mkAnd1(mkEq(a->a, mkC(a->a->w, b->val >> lw)), mkEq(a->b, mkC(lw, b->val))); }
        if (a->k == K::Ite) {
          if (a->b->isC() && a->c->isC()) { bool x = a->b->val == b->val, y = a->c->val == b->val; if (x && y) return C1(); if (!x && !y) return C0(); return x ? a->a : mkNot1(a->a); }
          if (a->b->isC()) return a->b->val == b->val ? mkOr1(a->a, mkEq(a->c, b)) : mkAnd1(mkNot1(a->a), mkEq(a->c, b));
          if (a->c->isC()) return a->c->val == b->val ? mkOr1(mkNot1(a->a), mkEq(a->b, b)) : mkAnd1(a->a, mkEq(a->b, b));
        }
        if (ubound(a) < b->val) return C0();
      } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return mkAnd1(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->k == K::Add && b->k == K::Add) { if (a->b == b->b) return mkEq(a->a, b->a); if (a->a == b->a) return mkEq(a->b, b->b); }
      }
      break;
    case K::Ult:
      if (a == b) return C0();
      if (b->isC()) { if (b->val == 0) return C0(); if (b->val == 1) return mkEq(a, mkC(w, 0)); if (ubound(a) < b->val) return C1(); }
      if (a->isC()) { if (ubound(b) <= a->val) return C0(); if (a->val == 0) return mkNot1(mkEq(b, a)); }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      if (a->k == K::ZExt && b->isC() && !(b->val >> a->a->w)) return mkBin(k, a->a, mkC(a->a->w, b->val));
      if (b->k == K::ZExt && a->isC() && !(a->val >> b->a->w)) return mkBin(k, mkC(b->a->w, a->val), b->a);
      break;
    case K::Ule:
      if (a == b) return C1();
      if (b->isC()) { if (ubound(a) <= b->val) return C1(); if (b->val == 0) return mkEq(a, b); }
      if (a->isC()) { if (a->val == 0) return C1(); if (ubound(b) < a->val) return C0(); }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
      if (a->k == K::ZExt && b->isC() && !(b->val >> a->a->w)) return mkBin(k, a->a, mkC(a->a->w, b->val));
      if (b->k == K::ZExt && a->isC() && !(a->val >> b->a->w)) return mkBin(k, mkC(b->a->w, a->val), b->a);
      break;
    case K::Slt: case K::Sle:
      if (a == b) return k == K::Slt ? C0() : C1();
      if (w > 1 && ubound(a) <= (M >> 1) && ubound(b) <= (M >> 1)) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
      if (w > 1 && a->isC() && sgn(a->val, w) < 0 && ubound(b) <= (M >> 1)) return C1();
      if (w > 1 && b->isC() && sgn(b->val, w) < 0 && ubound(a) <= (M >> 1)) return C0();
      break;
    case K::FEq: // a - b == 0 exactly when a == b and finite (gradual underflow)
      for (int t = 0; t < 2; t++) { E z = t ? a : b, d = t ? b : a; if (z->isC() && (z->val & (M >> 1)) == 0 && d->k == K::FSub && (w == 64 || w == 32)) return mkBin(K::And, mkBin(K::FEq, d->a, d->b), mkBin(K::FLt, mkUn(K::FAbs, d->a), mkC(w, w == 64 ? 0x7FF0000000000000ull : 0x7F800000ull))); }
      break;
    case K::FLt: case K::FLe: case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FRem: break;
    default: break;
  }
  return raw(k, isCmp(k) ? 1 : w, 0, a, b);
}
E mkConcat(E hi, E lo) {
  int w = hi->w + lo->w;
  if (hi->isC() && lo->isC()) return mkC(w, (hi->val << lo->w) | lo->val);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(lo->a, (int)lo->val, w);
  // concat(extract(a,..), concat(extract(a,..), rest))
  if (lo->k == K::Concat) {
    E m = lo->a;
    if (hi->k == K::Extract && m->k == K::Extract && hi->a == m->a && hi->val == m->val + m->w) return mkConcat(mkExtract(m->a, (int)m->val, hi->w + m->w), lo->b);
    if (hi->isC() && m->isC()) return mkConcat(mkC(hi->w + m->w, (hi->val << m->w) | m->val), lo->b);
  }
  // hi covers full upper part of lo's base:  concat(extract(a,k,..), a?) no
  if (lo->k == K::Extract && lo->val + lo->w < lo->a->w) { /* nothing */ }
  if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-assoc
  if (hi->isC() && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == K::ZExt) { int zw = hi->w - hi->a->w; return mkZExt(mkConcat(hi->a, lo), hi->a->w + lo->w + zw); }
  return raw(K::Concat, w, 0, hi, lo);
}
static E mkExtract1(E a, int lo, int w);
struct XK { E a; int lo, w; bool operator==(const XK& o) const { return a == o.a && lo == o.lo && w == o.w; } };
struct XH { size_t operator()(const XK& k) const { return (size_t)k.a * 0x9E3779B97F4A7C15ull ^ ((size_t)k.lo << 20) ^ ((size_t)k.w << 40); } };
static std::unordered_map<XK, E, XH> g_xmemo;  // memo: extraction pushes through shared DAGs
E mkExtract(E a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  bool memo = false;
  switch (a->k) { case K::And: case K::Or: case K::Xor: case K::Add: case K::Sub: case K::Mul: case K::Ite: case K::Concat: memo = true; break; default: break; }
  if (!memo) return mkExtract1(a, lo, w);
  XK k{a, lo, w}; auto it = g_xmemo.find(k); if (it != g_xmemo.end()) return it->second;
  E r = mkExtract1(a, lo, w); g_xmemo.emplace(k, r); return r;
}
static E mkExtract1(E a, int lo, int w) {
  if (lo + w > a->w || w <= 0) throw std::runtime_error("bad extract");
  if (a->isC()) return mkC(w, a->val >> lo);
  switch (a->k) {
    case K::Extract: return mkExtract(a->a, lo + (int)a->val, w);
    case K::Concat: {
      int lw = a->b->w;
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K::ZExt:
      if (lo >= a->a->w) return mkC(w, 0);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSExt(a->a, w);
      if (lo >= a->a->w) return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
      return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K::And: case K::Or: case K::Xor:
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Add: case K::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case K::Sub:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case K::Ite:
      if (a->b->isC() || a->c->isC()) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    default: break;
  }
  return raw(K::Extract, w, lo, a);
}
E mkZExt(E a, int w) {
  if (w == a->w) return a;
  if (w < a->w) throw std::runtime_error("bad zext");
  if (a->isC()) return mkC(w, a->val);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Concat && a->a->isC() && a->a->val == 0) return mkZExt(a->b, w);
  if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(K::ZExt, w, 0, a);
}
E mkSExt(E a, int w) {
  if (w == a->w) return a;
  if (w < a->w) throw std::runtime_error("bad sext");
  if (a->isC()) return mkC(w, (u128)sgn(a->val, a->w));
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::ZExt && a->a->w < a->w) return mkZExt(a->a, w);
  if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return raw(K::SExt, w, 0, a);
}
E mkIte(E c, E t, E f) {
  if (t->w != f->w) throw std::runtime_error("ite width");
  if (c->isC()) return c->val ? t : f;
  if (t == f) return t;
  if (c->k == K::Xor && c->b->isC() && c->w == 1) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (t->isC() && f->isC()) return t->val ? c : mkNot1(c);
    if (t->isC()) return t->val ? mkOr1(c, f) : mkAnd1(mkNot1(c), f);
    if (f->isC()) return f->val ? mkOr1(mkNot1(c), t) : mkAnd1(c, t);
  }
  if (t->k == K::Ite && t->a == c) t = t->b;
  if (f->k == K::Ite && f->a == c) f = f->c;
  if (t == f) return t;
  if (t->k == K::Ite && t->c == f) return mkIte(mkAnd1(c, t->a), t->b, f);
  if (f->k == K::Ite && f->b == t) return mkIte(mkOr1(c, f->a), t, f->c);
  return raw(K::Ite, t->w, 0, c, t, f);
}
// Upper bound on the number of significant low bits of an unsigned value.
static int uBits(E e, int depth = 0) {
  if (e->isC()) { int n = 0; u128 v = e->val; while (v) { n++; v >>= 1; } return n; }
  if (depth > 12) return e->w;
  switch (e->k) {
    case K::ZExt: return uBits(e->a, depth + 1);
    case K::Concat: { int h = uBits(e->a, depth + 1); return h ? h + e->b->w : uBits(e->b, depth + 1); }
    case K::And: return std::min(uBits(e->a, depth + 1), uBits(e->b, depth + 1));
    case K::Or: case K::Xor: return std::max(uBits(e->a, depth + 1), uBits(e->b, depth + 1));
    case K::Ite: return std::max(uBits(e->b, depth + 1), uBits(e->c, depth + 1));
    case K::LShr: if (e->b->isC()) { int n = uBits(e->a, depth + 1) - (int)std::min<u128>(e->b->val, 1024); return n < 0 ? 0 : n; } return uBits(e->a, depth + 1);
    case K::Add: { int n = std::max(uBits(e->a, depth + 1), uBits(e->b, depth + 1)) + 1; return std::min(n, (int)e->w); }
    default: return e->w;
  }
}
E mkUn(K k, E a, int w, u128 aux) {
  if (w == 0) w = a->w;
  if ((k == K::UIToF || k == K::SIToF) && !a->isC()) {
    int n = uBits(a);
    if (n == 0) n = 1;
    if (n < a->w) { k = K::UIToF; a = mkExtract(a, 0, n); }
  }
  if (k == K::FIsNan) w = 1;
  if (a->isC()) { Expr t; t.w = (uint16_t)w; t.val = aux; t.k = k; return mkC(w, foldUn(k, &t, a->val, a->w)); }
  if (k == K::FNeg) return mkBin(K::Xor, a, mkC(w, (u128)1 << (w - 1)));
  if (k == K::FAbs) return mkBin(K::And, a, mkC(w, maskw(w - 1)));
  if (k == K::FToF && w == a->w) return a;
  if (k == K::FIsNan) {
    // integer->float never NaN
    if (a->k == K::SIToF || a->k == K::UIToF) return C0();
    if (a->k == K::FToF) return mkUn(K::FIsNan, a->a);
    int mb = a->w == 64 ? 52 : 23;
    return mkAnd1(mkEq(mkExtract(a, mb, a->w - mb - 1), mkC(a->w - mb - 1, maskw(a->w))), mkNot1(mkEq(mkExtract(a, 0, mb), mkC(mb, 0))));
  }
  if (k == K::FToF && a->k == K::FToF && a->a->w == w && a->w > w) { /* f32->f64->f32: identity except NaN payload quieting */ return a->a; }
  if ((k == K::FToSI || k == K::FToUI) && (a->k == K::SIToF || a->k == K::UIToF)) {
    int mant = a->w == 64 ? 53 : 24; int sw = a->a->w; bool sg = a->k == K::SIToF;
    int need = sg ? sw : sw; // value bits
    if (need <= mant && w >= sw) {
      if (!sg) return mkZExt(a->a, w);
      if (k == K::FToSI) return mkSExt(a->a, w);
    }
  }
  return raw(k, w, aux, a);
}
E mkUF(const std::string& name, int w, const std::vector<E>& args) {
  auto it = g_ufid.find(name); uint32_t id;
  if (it == g_ufid.end()) { id = (uint32_t)g_ufnames.size(); g_ufnames.push_back(name); g_ufid[name] = id; } else id = it->second;
  std::vector<E> tmp = args;
  return raw(K::UF, w, id, nullptr, nullptr, nullptr, &tmp);
}
E mkArrConst(E byte) { return raw(K::ArrConst, 0, 0, byte); }
E mkArrStore(E arr, E idx, E byte) {
  if (arr->k == K::ArrStore && arr->b == idx) arr = arr->a;
  return raw(K::ArrStore, 0, 0, arr, idx, byte);
}
E mkSelect(E arr, E idx) {
  E a = arr;
  int n = 0;
  while (a->k == K::ArrStore && n++ < 4096) {
    if (a->b == idx) return a->c;
    E d = mkBin(K::Sub, a->b, idx);
    if (d->isC()) { if (d->val == 0) return a->c; a = a->a; continue; }
    break;
  }
  if (a->k == K::ArrConst) return a->a;
  return raw(K::Select, 8, 0, a, idx);
}
const std::vector<uint32_t>& varsOf(E e) {
  if (e->vars) return *e->vars;
  std::vector<uint32_t> r;
  if (e->k == K::Var || e->k == K::ArrVar) r.push_back((uint32_t)e->val);
  auto add = [&](E x) { if (!x) return; auto& v = varsOf(x); if (v.empty()) return; if (r.empty()) { r = v; return; } std::vector<uint32_t> m; m.reserve(r.size() + v.size()); std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(m)); r.swap(m); };
  add(e->a); add(e->b); add(e->c); if (e->args) for (auto x : *e->args) add(x);
  if (e->k == K::UF) { std::vector<uint32_t> u{0x80000000u + (uint32_t)e->val}; std::vector<uint32_t> m; std::set_union(r.begin(), r.end(), u.begin(), u.end(), std::back_inserter(m)); r.swap(m); }
  // share identical vectors with children
  for (E x : {e->a, e->b, e->c}) if (x && x->vars && x->vars->size() == r.size()) { e->vars = x->vars; return *e->vars; }
  e->vars = new std::vector<uint32_t>(std::move(r));
  return *e->vars;
}
bool hasArrOrUF(E e) {
  for (auto v : varsOf(e)) { if (v & 0x80000000u) return true; if (g_vars[v].arr) return true; }
  return false;
}
static const char* kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fround","feq","flt","fle","fisnan","ftosi","ftoui","sitof","uitof","ftof","uf","arrvar","arrconst","arrstore","select"};
std::string show(E e, int depth) {
  if (!e) return "<null>";
  std::ostringstream s;
  if (e->k == K::Const) { s << "0x" << std::hex << (uint64_t)e->val << std::dec << ":" << e->w; return s.str(); }
  if (e->k == K::Var || e->k == K::ArrVar) { s << g_vars[(size_t)e->val].name << "#" << (uint64_t)e->val << ":" << e->w; return s.str(); }
  if (depth <= 0) return "...";
  s << "(" << kn[(int)e->k]; if (e->k == K::UF) s << " " << g_ufnames[(size_t)e->val];
  if (e->k == K::Extract) s << "[" << (int)(e->val) << "+" << e->w << "]"; else s << ":" << e->w;
  for (E x : {e->a, e->b, e->c}) if (x) s << " " << show(x, depth - 1);
  if (e->args) for (auto x : *e->args) s << " " << show(x, depth - 1);
  s << ")"; return s.str();
}
