// Symbolic executor for contracts over LLVM IR.
#include "ir.h"
#include "solver.h"
#include <array>
#include <chrono>
#include <cstdio>
#include <set>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <pthread.h>
#include <sys/resource.h>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct StopNow {};
struct PathEnd {};      // path finished (assume false, violation without continuation, ...)
struct Switched {};     // control transferred inside builtin (throw)

struct Obj { uint64_t size = 0; E symSize = nullptr; std::vector<E> b; E arr = nullptr; bool ro = false, alive = true; uint8_t kind = 0; uint32_t tag = 0; };
typedef std::shared_ptr<Obj> ObjP;
typedef std::array<ObjP, 32> Chunk;
struct Frame { Function* f; int blk = 0, ip = 0, prev = -1; std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<Val> va; };
struct Nd { std::string name; int w; E e; };
struct LoopSt { int phase; };
struct State {
  std::vector<std::shared_ptr<Chunk>> mem; uint64_t nextId = 0;
  std::vector<std::shared_ptr<Frame>> st; std::vector<E> cons; Model model; std::vector<Nd> nds;
  uint64_t excObj = 0, excTi = 0; std::string excName; std::vector<std::string> notes; uint64_t steps = 0; int forks = 0;
  std::vector<std::pair<uint64_t,uint64_t>> wset; bool wsetOn = false; uint64_t wsetFirstId = 0;
  std::map<std::string, uint64_t> ghost;
};
typedef std::unique_ptr<State> StP;

// ---- configuration & results
static std::vector<StP> work;
struct Obl { uint64_t n = 0, trivial = 0, proved = 0, failed = 0, unknown = 0; std::string kind; };
static std::map<std::string, Obl> obls;
struct Failure { std::string label, kind, where, trace; std::vector<std::pair<std::string, std::pair<int, u128>>> nds; std::vector<std::string> notes; bool havocDependent = false; };
static std::vector<Failure> failures; static std::set<std::string> reached, errors, externals, stubsUsed, assumptions; static std::set<Function*> executed;
static uint64_t nPaths = 0, nInst = 0, nForks = 0, nMerged = 0; static std::set<std::string> incompleteReasons;
static uint64_t maxSteps = 50000000; static bool hotOn = false; static std::map<std::string, uint64_t> hot; static double timeLimit = 800; static std::chrono::steady_clock::time_point T0;
static bool mergeOn = true; static uint64_t nMergeRefused = 0; static bool trace = false; static bool stopFirst = false; static int64_t splitN = 1, splitI = 0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static std::unordered_map<uint64_t, ObjP> globalObjs;
static ObjP globalObj(uint64_t id) {
  auto it = globalObjs.find(id); if (it != globalObjs.end()) return it->second;
  auto g = M.globalById.find(id); if (g == M.globalById.end()) return nullptr;
  auto o = std::make_shared<Obj>(); o->kind = 0; o->size = g->second->size; o->ro = g->second->cst;
  if (g->second->def) globalInit(g->second, o->b); else { o->b.assign(o->size, nullptr); o->tag = 77; }
  globalObjs[id] = o; return o;
}
static Obj* getObj(State& s, uint64_t id) {
  size_t c = id / 32; if (c < s.mem.size() && s.mem[c]) { auto& o = (*s.mem[c])[id % 32]; if (o) return o.get(); }
  if (id < M.nextId) { auto o = globalObj(id); return o.get(); }
  return nullptr;
}
static ObjP& slot(State& s, uint64_t id) {
  size_t c = id / 32; if (c >= s.mem.size()) s.mem.resize(c + 1);
  if (!s.mem[c]) s.mem[c] = std::make_shared<Chunk>(); else if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
  return (*s.mem[c])[id % 32];
}
static Obj* getObjW(State& s, uint64_t id) {
  ObjP& o = slot(s, id); if (!o) { if (id < M.nextId) { auto g = globalObj(id); if (!g) return nullptr; o = std::make_shared<Obj>(*g); } else return nullptr; }
  else if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
  return o.get();
}
static uint64_t allocObj(State& s, uint64_t size, uint8_t kind) {
  uint64_t id = s.nextId++; auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; if (size > (1u << 28)) throw Unsupported("allocation too large"); o->b.assign(size, nullptr); slot(s, id) = o; return objBase(id);
}
static Frame& top(State& s) { return *s.st.back(); }
static Frame& topW(State& s) { auto& f = s.st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }

static std::string where(State& s) { Frame& f = top(s); auto& b = f.f->blocks[f.blk]; int d = f.ip < (int)b.ins.size() ? b.ins[f.ip].dbg : -1; return f.f->name + " @ " + dbgStr(d); }
static std::string stackTrace(State& s) { std::string r; for (size_t i = s.st.size(); i-- > 0;) { Frame& f = *s.st[i]; auto& b = f.f->blocks[f.blk]; int d = f.ip < (int)b.ins.size() ? b.ins[f.ip].dbg : -1; r += "  " + f.f->name + " at " + dbgStr(d) + "\n"; } return r; }

// ---- constraints
static void splitAnd(E c, std::vector<E>& out) { if (c->k == K::And && c->w == 1) { splitAnd(c->a, out); splitAnd(c->b, out); } else out.push_back(c); }
static void mergeModel(Model& m, const Model& n) { for (auto& kv : n.v) m.v[kv.first] = kv.second; for (auto& kv : n.arr) for (auto& x : kv.second) m.arr[kv.first][x.first] = x.second; for (auto& kv : n.uf) m.uf[kv.first] = kv.second; }
static std::unordered_map<E, E> absMemo; static std::unordered_map<E, bool> hardMemo;
static bool hasHardFp(E e) {
  if (!e || e->isC() || e->k == K::Var || e->k == K::ArrVar) return false;
  auto it = hardMemo.find(e); if (it != hardMemo.end()) return it->second;
  bool r = e->k == K::FAdd || e->k == K::FSub || e->k == K::FMul || e->k == K::FDiv || e->k == K::FSqrt;
  if (!r) r = hasHardFp(e->a) || hasHardFp(e->b) || hasHardFp(e->c);
  if (!r && e->args) for (auto x : *e->args) if (hasHardFp(x)) { r = true; break; }
  return hardMemo[e] = r;
}
static E abstractFp(E e) {
  if (!e || !hasHardFp(e)) return e;
  auto it = absMemo.find(e); if (it != absMemo.end()) return it->second;
  E a = abstractFp(e->a), b = abstractFp(e->b), c = abstractFp(e->c), r;
  switch (e->k) {
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: r = mkUF("abs_f" + std::to_string((int)e->k) + "_" + std::to_string(e->w), e->w, {a, b}); break;
    case K::FSqrt: r = mkUF("abs_fsqrt_" + std::to_string(e->w), e->w, {a}); break;
    case K::UF: { std::vector<E> x; for (auto y : *e->args) x.push_back(abstractFp(y)); r = mkUF(g_ufnames[(size_t)e->val], e->w, x); break; }
    case K::Concat: r = mkConcat(a, b); break;
    case K::Extract: r = mkExtract(a, (int)e->val, e->w); break;
    case K::ZExt: r = mkZExt(a, e->w); break;
    case K::SExt: r = mkSExt(a, e->w); break;
    case K::Ite: r = mkIte(a, b, c); break;
    case K::ArrStore: r = mkArrStore(a, b, c); break;
    case K::ArrConst: r = mkArrConst(a); break;
    case K::Select: r = mkSelect(a, b); break;
    case K::FNeg: case K::FAbs: case K::FRound: case K::FIsNan: case K::FToSI: case K::FToUI: case K::SIToF: case K::UIToF: case K::FToF: r = mkUn(e->k, a, e->w, e->val); break;
    default: r = mkBin(e->k, a, b); break;
  }
  return absMemo[e] = r;
}
// is (cons && q) satisfiable? on sat, mo is s.model updated
static Res query(State& s, E q, Model& mo) {
  if (q->isC()) { mo = s.model; return q->val ? Res::Sat : Res::Unsat; }
  if (evalE(q, s.model)) { mo = s.model; return Res::Sat; }
  auto sl = sliceFor(s.cons, q); Model n; Res r;
  // floating point arithmetic: first with the operations uninterpreted (sound for unsat), then a search for a concrete model, then bit-precise
  bool hard = false; for (E c : sl) if (hasHardFp(c)) { hard = true; break; }
  if (hard) {
    std::vector<E> ab; for (E c : sl) ab.push_back(abstractFp(c));
    r = checkSat(ab, &n); if (r == Res::Unsat) return r;
    std::vector<uint32_t> vs; { std::unordered_set<uint32_t> u; for (E c : sl) for (auto v : varsOf(c)) if (!(v & 0x80000000u) && !g_vars[v].arr && u.insert(v).second) vs.push_back(v); }
    auto good = [&](const Model& m) { for (size_t i = sl.size(); i-- > 0;) if (!evalE(sl[i], m)) return false; return true; };
    static uint64_t rng = 88172645463325252ull; auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    Model base = s.model; bool haveAbs = r == Res::Sat; if (haveAbs) { mergeModel(base, n); if (good(base)) { mo = base; return Res::Sat; } }
    static const double pick[] = {0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 4.0, -2.0, 10.0, 1.5, 0.25, 100.0};
    for (int t = 0; t < 4000 && !vs.empty(); t++) {
      Model c = (haveAbs && (t & 1)) ? base : s.model; int k = 1 + (int)(rnd() % (vs.size() < 8 ? vs.size() : 8));
      for (int i = 0; i < k; i++) { uint32_t v = vs[rnd() % vs.size()]; u128 x; uint64_t sel = rnd() % 8; int w = g_vars[v].w;
        if (sel < 5) { double d = sel < 4 ? pick[rnd() % 12] : (double)(int64_t)(rnd() % 2001) - 1000; if (w == 32 && (rnd() & 1)) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); x = b; } else if (w == 64 && (rnd() % 4)) { uint64_t b; memcpy(&b, &d, 8); x = b; } else x = (uint64_t)(int64_t)d; }
        else if (sel == 5) { uint32_t o = vs[rnd() % vs.size()]; auto it = c.v.find(o); x = it == c.v.end() ? 0 : it->second; }
        else if (sel == 6) { auto it = c.v.find(v); x = (it == c.v.end() ? 0 : it->second) + (rnd() % 3) - 1; }
        else x = rnd();
        c.v[v] = x & maskw(w); }
      if (good(c)) { mo = c; return Res::Sat; }
    }
    n = Model();
  }
  r = checkSat(sl, &n);
  if (r == Res::Sat) { mo = s.model; if (!n.arr.empty() || !n.uf.empty()) { /* keep */ } mergeModel(mo, n);
    for (E c : sl) if (!evalE(c, mo)) { // evaluator disagreement (FP NaN payload / unspecified): re-solve whole set without trusting merge
      Model n2 = n; bool ok = true; for (E d : sl) if (!evalE(d, n2)) { ok = false; break; } if (!ok) { incompleteReasons.insert("model-eval-mismatch"); if (getenv("VP_DEBUG")) fprintf(stderr, "model mismatch on %s\n", show(c, 5).c_str()); } break; } }
  return r;
}
static void addCons(State& s, E c) {
  std::vector<E> cs; splitAnd(c, cs);
  for (E x : cs) { if (x->isC()) { if (!x->val) throw PathEnd(); continue; } if (std::find(s.cons.begin(), s.cons.end(), x) == s.cons.end()) s.cons.push_back(x); }
}
static bool assumeC(State& s, E c) { // returns false if infeasible
  Model m; Res r = query(s, c, m); if (r == Res::Unsat) return false; if (r == Res::Unknown) throw Unsupported("solver: unknown (assume)");
  s.model = m; addCons(s, c); return true;
}
static std::unordered_map<E, bool> negCache;
// true if c holds on the continuing state; forks if both are possible
static bool forkOn(State& s, E c) {
  if (c->isC()) return c->val != 0;
  bool v = evalE(c, s.model) != 0; E other = v ? mkNot1(c) : c;
  // syntactic: already in path condition?
  for (E x : s.cons) { if (x == c) return true; }
  { E n = mkNot1(c); for (E x : s.cons) if (x == n) return false; }
  Model m; Res r = query(s, other, m); if (r == Res::Unknown) throw Unsupported("solver: unknown (branch) at " + where(s));
  if (r == Res::Unsat) { return v; }
  auto n = std::make_unique<State>(s); n->model = m; addCons(*n, other); n->forks++; s.forks++; nForks++; work.push_back(std::move(n));
  addCons(s, v ? c : mkNot1(c)); return v;
}
static uint64_t concretize(State& s, E e) {
  if (e->isC()) return e->u();
  uint64_t v = (uint64_t)evalE(e, s.model); E c = mkEq(e, mkC(e->w, v));
  if (!forkOn(s, c)) throw Unsupported("concretize"); // model satisfies c, so forkOn returns true
  return v;
}
static void recordFailure(State& s, const std::string& label, const std::string& kind, const Model& m) {
  for (auto& f : failures) if (f.label == label && failures.size() > 0) { int c = 0; for (auto& g : failures) if (g.label == label) c++; if (c >= 3) return; }
  Failure f; f.label = label; f.kind = kind; f.where = where(s); f.trace = stackTrace(s); f.notes = s.notes;
  for (auto& n : s.nds) f.nds.push_back({n.name, {n.w, evalE(n.e, m)}});
  failures.push_back(f);
  if (trace || getenv("VP_DEBUG")) fprintf(stderr, "FAIL %s [%s] at %s\n%s", label.c_str(), kind.c_str(), f.where.c_str(), f.trace.c_str());
}
// obligation: cond must hold on every state reaching here
static void oblige(State& s, E c, const std::string& label, const std::string& kind) {
  Obl& o = obls[label]; o.kind = kind; o.n++;
  if (c->isC() && c->val) { o.trivial++; o.proved++; return; }
  E nc = mkNot1(c); Model m; 
  for (E x : s.cons) if (x == c) { o.proved++; return; }
  Res r = query(s, nc, m);
  if (r == Res::Unsat) { o.proved++; return; }
  if (r == Res::Unknown) { o.unknown++; incompleteReasons.insert("solver unknown on obligation " + label); }
  else { o.failed++; recordFailure(s, label, kind, m); if (stopFirst) throw StopNow(); }
  if (!assumeC(s, c)) throw PathEnd();
}
[[noreturn]] static void violated(State& s, const std::string& label, const std::string& kind) {
  Obl& o = obls[label]; o.kind = kind; o.n++; o.failed++; recordFailure(s, label, kind, s.model); if (stopFirst) throw StopNow(); throw PathEnd();
}
static std::string curFn(State& s) { // innermost function from user code
  return top(s).f->name; }

// ---- memory access
static int tz(E e, int d = 0) { // known trailing zero bits
  if (e->isC()) { if (!e->val) return e->w; int n = 0; while (!((e->val >> n) & 1)) n++; return n; }
  if (d > 8) return 0;
  switch (e->k) {
    case K::Concat: { int l = tz(e->b, d + 1); return l < e->b->w ? l : e->b->w + tz(e->a, d + 1); }
    case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min(tz(e->a, d + 1), tz(e->b, d + 1));
    case K::Mul: return std::min<int>(e->w, tz(e->a, d + 1) + tz(e->b, d + 1));
    case K::ZExt: case K::SExt: { int l = tz(e->a, d + 1); return l < e->a->w ? l : (e->k == K::ZExt ? e->w : l); }
    case K::Ite: return std::min(tz(e->b, d + 1), tz(e->c, d + 1));
    case K::Shl: return tz(e->a, d + 1);
    default: return 0;
  }
}
struct Loc { uint64_t id; E off; };
static E C64(uint64_t v) { return mkC(64, v); }
static std::unordered_map<Function*, Obl*> memObl; static Function* memF = nullptr; static Obl* memO = nullptr; // valid while obls is not cleared
static Loc resolve(State& s, E addr, uint64_t n, bool write) {
  if (addr->isC()) { // the usual case: a constant address inside a live object
    uint64_t id = objId(addr->u()); Obj* o = id ? getObj(s, id) : nullptr;
    if (o && o->alive && !o->symSize && !(write && o->ro) && !(o->tag == 77) && !(write && s.wsetOn)) {
      uint64_t off = addr->u() - objBase(id);
      if (off + n >= off && off + n <= o->size) {
        Function* f = top(s).f;
        if (f != memF) { Obl*& p = memObl[f]; if (!p) { p = &obls["memory-safety: " + f->name]; if (p->kind.empty()) p->kind = "memory"; } memF = f; memO = p; }
        memO->n++; memO->trivial++; memO->proved++;
        return {id, C64(off)};
      }
    }
  }
  std::string lab = "memory-safety: " + curFn(s);
  uint64_t id = 0;
  if (addr->isC()) id = objId(addr->u());
  else {
    E c = nullptr; if (addr->k == K::Add && addr->b->isC()) c = addr->b;
    if (c && objId(c->u()) && getObj(s, objId(c->u()))) id = objId(c->u());
    else {
      E x = addr; std::vector<E> wl{addr}; E it = nullptr;
      while (!wl.empty()) { x = wl.back(); wl.pop_back(); if (x->k == K::Ite) { it = x; break; } if (x->k == K::Add) { wl.push_back(x->a); wl.push_back(x->b); } }
      if (it) { // simplify address under the chosen side by substitution
        bool v = forkOn(s, it->a); E pick = v ? it->b : it->c;
        std::function<E(E)> sub = [&](E e) -> E { if (e == it) return pick; if (e->k == K::Add) return mkBin(K::Add, sub(e->a), sub(e->b)); return e; };
        return resolve(s, sub(addr), n, write);
      }
      uint64_t v = (uint64_t)evalE(addr, s.model); id = objId(v); Obj* o = getObj(s, id);
      if (!o) violated(s, lab, "memory");
      E in = mkBin(K::Ult, mkBin(K::Sub, addr, C64(objBase(id))), C64(o->size ? o->size : 1));
      if (!forkOn(s, in)) throw PathEnd();
    }
  }
  Obj* o = id ? getObj(s, id) : nullptr;
  if (!o || !o->alive) violated(s, lab, "memory");
  if (write && o->ro) violated(s, lab, "memory");
  if (id < M.nextId && o->tag == 77 && !write) { auto g = M.globalById.find(id); throw Unsupported("read of external global " + (g != M.globalById.end() ? g->second->name : "?")); }
  E off = mkBin(K::Sub, addr, C64(objBase(id)));
  if (off->isC() && !o->symSize) { Obl& ob = obls[lab]; if (ob.kind.empty()) ob.kind = "memory"; if (off->u() + n < off->u() || off->u() + n > o->size) violated(s, lab, "memory"); ob.n++; ob.trivial++; ob.proved++; }
  else {
    E sz = o->symSize ? o->symSize : C64(o->size);
    E ok = mkAnd1(mkBin(K::Ule, C64(n), sz), mkBin(K::Ule, off, mkBin(K::Sub, sz, C64(n))));
    oblige(s, ok, lab, "memory");
  }
  if (write && s.wsetOn && id < s.wsetFirstId) {
    // loop frame: must be inside the declared assigns set
    E ok = mkC(1, 0); E a = addr;
    for (auto& w : s.wset) { E rel = mkBin(K::Sub, a, C64(w.first)); if (w.second >= n) ok = mkOr1(ok, mkBin(K::Ule, rel, C64(w.second - n))); }
    oblige(s, ok, "loop-frame: " + curFn(s), "frame");
  }
  return {id, off};
}
static E byteAt(Obj* o, uint64_t i) { return o->b[i]; }
static E freshByte() { return mkVar(8, "undef"); }
static E rdByte(State& s, uint64_t id, uint64_t i) { Obj* o = getObj(s, id); E e = byteAt(o, i); if (!e) { Obj* w = getObjW(s, id); e = w->b[i] = freshByte(); } return e; }
static void toArr(State& s, uint64_t id) { // switch object to array mode
  Obj* o = getObjW(s, id); if (o->arr) return; E a = nullptr;
  a = mkArrConst(mkC(8, 0)); bool any = false; for (auto x : o->b) if (!x) any = true; if (any) a = mkArrVar("undefmem");
  for (uint64_t i = 0; i < o->size; i++) if (o->b[i]) a = mkArrStore(a, C64(i), o->b[i]);
  o->arr = a; o->b.clear();
}
static const uint64_t MAXCAND = 1200;
static E readLoc(State& s, Loc l, uint64_t n) {
  Obj* o = getObj(s, l.id);
  if (!o->arr && l.off->isC()) {
    uint64_t of = l.off->u(); E r = nullptr;
    if (n <= 16) { u128 v = 0; uint64_t i = 0; for (; i < n; i++) { E b = o->b[of + i]; if (!b || !b->isC()) break; v |= b->val << (8 * i); } if (i == n) return mkC((int)n * 8, v); }
    for (uint64_t i = 0; i < n; i++) { E b = rdByte(s, l.id, of + i); r = r ? mkConcat(b, r) : b; }
    return r;
  }
  if (!o->arr) {
    int t = tz(l.off); uint64_t step = t >= 12 ? 4096 : (1ull << t); uint64_t cnt = o->size < n ? 0 : (o->size - n) / step + 1;
    if (cnt * n <= MAXCAND * 8 && cnt <= MAXCAND) {
      E r = nullptr; 
      for (uint64_t k = cnt; k-- > 0;) { uint64_t c = k * step; E v = nullptr; for (uint64_t i = 0; i < n; i++) { E b = rdByte(s, l.id, c + i); v = v ? mkConcat(b, v) : b; } r = r ? mkIte(mkEq(l.off, C64(c)), v, r) : v; }
      if (r) return r;
    }
    toArr(s, l.id); o = getObj(s, l.id);
  }
  E r = nullptr; for (uint64_t i = 0; i < n; i++) { E b = mkSelect(o->arr, mkBin(K::Add, l.off, C64(i))); r = r ? mkConcat(b, r) : b; }
  return r;
}
static void writeLoc(State& s, Loc l, E v, uint64_t n) {
  Obj* o = getObjW(s, l.id);
  if (!o->arr && l.off->isC()) { uint64_t of = l.off->u(); if (v->isC() && n <= 16) { for (uint64_t i = 0; i < n; i++) o->b[of + i] = mkC(8, v->val >> (8 * i)); return; } for (uint64_t i = 0; i < n; i++) o->b[of + i] = mkExtract(v, (int)i * 8, 8); return; }
  if (!o->arr) {
    int t = tz(l.off); uint64_t step = t >= 12 ? 4096 : (1ull << t); uint64_t cnt = o->size < n ? 0 : (o->size - n) / step + 1;
    if (cnt * n <= MAXCAND * 4 && cnt <= MAXCAND) {
      for (uint64_t k = 0; k < cnt; k++) { uint64_t c = k * step; E hit = mkEq(l.off, C64(c)); for (uint64_t i = 0; i < n; i++) { if (!o->b[c + i]) o->b[c + i] = freshByte(); o->b[c + i] = mkIte(hit, mkExtract(v, (int)i * 8, 8), o->b[c + i]); } }
      return;
    }
    toArr(s, l.id); o = getObjW(s, l.id);
  }
  for (uint64_t i = 0; i < n; i++) o->arr = mkArrStore(o->arr, mkBin(K::Add, l.off, C64(i)), mkExtract(v, (int)i * 8, 8));
}
static E fresh(int w) { return mkVar(w, "undef"); }
static Val undefTy(Ty* t) { Val v; if (t->scalar()) { v.e = fresh(tyBits(t)); return v; } v.agg = std::make_shared<std::vector<Val>>(); if (t->k == Ty::Struct) for (auto f : t->f) v.agg->push_back(undefTy(f)); else if (t->k == Ty::Arr || t->k == Ty::Vec) for (uint64_t i = 0; i < t->n; i++) v.agg->push_back(undefTy(t->el)); return v; }
static Val loadTy(State& s, E addr, Ty* t) {
  Val v;
  if (t->scalar()) {
    int bits = tyBits(t); uint64_t n = (bits + 7) / 8; if (t->k == Ty::F80) n = 10; Loc l = resolve(s, addr, n, false); E e = readLoc(s, l, n); if (bits % 8) e = mkExtract(e, 0, bits); v.e = e; return v;
  }
  v.agg = std::make_shared<std::vector<Val>>(); tySize(t);
  if (t->k == Ty::Struct) for (size_t i = 0; i < t->f.size(); i++) v.agg->push_back(loadTy(s, mkBin(K::Add, addr, C64(t->off[i])), t->f[i]));
  else { uint64_t z = tySize(t->el); for (uint64_t i = 0; i < t->n; i++) v.agg->push_back(loadTy(s, mkBin(K::Add, addr, C64(i * z)), t->el)); }
  return v;
}
static void storeTy(State& s, E addr, const Val& v, Ty* t) {
  if (t->scalar()) { E e = v.e; int bits = tyBits(t); if (!e) e = fresh(bits); uint64_t n = (bits + 7) / 8; if (bits % 8) e = mkZExt(e, (int)n * 8); Loc l = resolve(s, addr, n, true); writeLoc(s, l, e, n); return; }
  tySize(t);
  if (t->k == Ty::Struct) for (size_t i = 0; i < t->f.size(); i++) storeTy(s, mkBin(K::Add, addr, C64(t->off[i])), (*v.agg)[i], t->f[i]);
  else { uint64_t z = tySize(t->el); for (uint64_t i = 0; i < t->n; i++) storeTy(s, mkBin(K::Add, addr, C64(i * z)), (*v.agg)[i], t->el); }
}
static E rd64(State& s, uint64_t addr) { return readLoc(s, resolve(s, C64(addr), 8, false), 8); }
static uint64_t rdc64(State& s, uint64_t addr) { E e = rd64(s, addr); if (!e->isC()) throw Unsupported("non-constant pointer word"); return e->u(); }
static std::string rdStr(State& s, E a) { std::string r; if (!a->isC()) return "?"; for (uint64_t p = a->u();; p++) { E b = readLoc(s, resolve(s, C64(p), 1, false), 1); if (!b->isC()) { r += '?'; continue; } if (!b->val) break; r += (char)b->u(); if (r.size() > 4000) break; } return r; }
static void copyBytes(State& s, E d, E src, uint64_t n) {
  if (!n) return; Loc ls = resolve(s, src, n, false); std::vector<E> tmp(n);
  { Obj* o = getObj(s, ls.id); if (!o->arr && ls.off->isC()) { for (uint64_t i = 0; i < n; i++) tmp[i] = o->b[ls.off->u() + i]; } else for (uint64_t i = 0; i < n; i++) tmp[i] = readLoc(s, {ls.id, mkBin(K::Add, ls.off, C64(i))}, 1); }
  Loc ld = resolve(s, d, n, true); Obj* o = getObjW(s, ld.id);
  if (!o->arr && ld.off->isC()) { for (uint64_t i = 0; i < n; i++) o->b[ld.off->u() + i] = tmp[i]; }
  else for (uint64_t i = 0; i < n; i++) writeLoc(s, {ld.id, mkBin(K::Add, ld.off, C64(i))}, tmp[i] ? tmp[i] : freshByte(), 1);
}
static void setBytes(State& s, E d, E v, uint64_t n) { if (!n) return; Loc ld = resolve(s, d, n, true); Obj* o = getObjW(s, ld.id); if (!o->arr && ld.off->isC()) for (uint64_t i = 0; i < n; i++) o->b[ld.off->u() + i] = v; else for (uint64_t i = 0; i < n; i++) writeLoc(s, {ld.id, mkBin(K::Add, ld.off, C64(i))}, v, 1); }

// ---- RTTI
static std::string globalName(uint64_t addr) { auto g = M.globalById.find(objId(addr)); return g == M.globalById.end() ? "" : g->second->name; }
static const std::map<std::string, std::string> stdBase = {{"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}};
static void tiBases(State& s, uint64_t ti, std::vector<std::pair<uint64_t, int64_t>>& out) { // direct bases
  Global* g = nullptr; auto it = M.globalById.find(objId(ti)); if (it == M.globalById.end()) return; g = it->second; if (!g->def) return;
  std::string k = globalName(rdc64(s, ti));
  if (k.find("__si_class_type_info") != std::string::npos) out.push_back({rdc64(s, ti + 16), 0});
  else if (k.find("__vmi_class_type_info") != std::string::npos) {
    uint64_t fc = rdc64(s, ti + 16); uint64_t n = fc >> 32; for (uint64_t i = 0; i < n; i++) { uint64_t b = rdc64(s, ti + 24 + i * 16); int64_t of = (int64_t)rdc64(s, ti + 32 + i * 16); if (of & 1) throw Unsupported("virtual base RTTI"); out.push_back({b, of >> 8}); }
  }
}
static void subobjects(State& s, uint64_t ti, int64_t off, std::vector<std::pair<std::string, int64_t>>& out) { out.push_back({globalName(ti), off}); std::vector<std::pair<uint64_t, int64_t>> b; tiBases(s, ti, b); for (auto& x : b) subobjects(s, x.first, off + x.second, out); }
static bool excMatches(State& s, const std::string& thrown, uint64_t tiAddr, const std::string& want, int64_t& adj) {
  adj = 0; if (thrown == want) return true;
  if (tiAddr) { std::vector<std::pair<std::string, int64_t>> so; subobjects(s, tiAddr, 0, so); for (auto& x : so) { if (x.first == want) { adj = x.second; return true; } std::string t = x.first; while (stdBase.count(t)) { t = stdBase.at(t); if (t == want) { adj = x.second; return true; } } } }
  std::string t = thrown; while (stdBase.count(t)) { t = stdBase.at(t); if (t == want) return true; }
  return false;
}
static std::map<std::string, int> typeIds; static int typeId(const std::string& n) { auto& r = typeIds[n]; if (!r) r = (int)typeIds.size(); return r; }

// ---- frames
static Val getOp(State& s, Frame& f, const Op& o) { if (o.reg >= 0) { Val& v = f.regs[o.reg]; if (!v.e && !v.agg) { v = undefTy(o.ty); } return v; } if (o.undef) return undefTy(o.ty); return o.c; }
static E opE(State& s, Frame& f, const Op& o) { Val v = getOp(s, f, o); if (!v.e) { if (v.agg) throw Unsupported("aggregate as scalar"); return fresh(tyBits(o.ty)); } return v.e; }
static void killFrame(State& s) { Frame& f = top(s); for (auto a : f.allocas) { slot(s, objId(a)) = nullptr; } s.st.pop_back(); }
static void jump(State& s, int tgt) {
  Frame& f = topW(s); int from = f.blk; auto& b = f.f->blocks[tgt]; 
  std::vector<Val> vals; size_t i = 0; for (; i < b.ins.size() && b.ins[i].o == O::Phi; i++) { bool hit = false; for (auto& p : b.ins[i].phi) if (p.second == from) { vals.push_back(getOp(s, f, p.first)); hit = true; break; } if (!hit) throw Unsupported("phi without edge"); }
  for (size_t j = 0; j < i; j++) { f.regs[b.ins[j].res] = vals[j]; }
  f.prev = from; f.blk = tgt; f.ip = (int)i;
}
static void setRes(State& s, const Inst& in, Val v) { if (in.res >= 0) { Frame& f = topW(s); f.regs[in.res] = std::move(v); } }
static void advanceCall(State& s, const Inst& in) { if (in.o == O::Invoke) jump(s, in.tgt[0]); else topW(s).ip++; }
static void unwind(State& s) { // top frame is the one that threw/resumed (its current instruction is the call/resume)
  for (;;) {
    if (s.st.empty()) throw PathEnd();
    if (s.st.size() == 1) { Frame& f = top(s); (void)f; violated(s, "no-uncaught-exception (" + s.excName + ")", "exception"); }
    killFrame(s); Frame& f = top(s); auto& in = f.f->blocks[f.blk].ins[f.ip];
    if (in.o == O::Invoke) { jump(s, in.tgt[1]); return; }
  }
}
static void throwNow(State& s) { // exception raised by instruction at top frame (a call/invoke inst)
  Frame& f = top(s); auto& in = f.f->blocks[f.blk].ins[f.ip]; if (in.o == O::Invoke) { jump(s, in.tgt[1]); return; } unwind(s);
}
static Function* lastExec = nullptr;
static void pushFrame(State& s, Function* f, const std::vector<Val>& args) {
  if (s.st.size() > 4000) throw Unsupported("recursion depth"); parseBody(f); if (f != lastExec) { executed.insert(f); lastExec = f; } auto fr = std::make_shared<Frame>(); fr->f = f; fr->regs.resize(f->nregs);
  if (args.size() < f->params.size()) throw Unsupported("arity " + f->name);
  for (size_t i = 0; i < f->params.size(); i++) {
    Val v = args[i];
    if (i < f->byvalSize.size() && f->byvalSize[i]) { uint64_t a = allocObj(s, f->byvalSize[i], 2); fr->allocas.push_back(a); copyBytes(s, C64(a), v.e, f->byvalSize[i]); v.e = C64(a); }
    fr->regs[f->paramRegs[i]] = v;
  }
  for (size_t i = f->params.size(); i < args.size(); i++) fr->va.push_back(args[i]);
  s.st.push_back(fr);
}
// ---- builtins
typedef std::function<void(State&, const Inst&, std::vector<Val>&, Val&)> BF;
static std::unordered_map<std::string, BF> builtins; static std::vector<BF> builtinVec;
static Val V(E e) { Val v; v.e = e; return v; }
static std::map<std::string, uint64_t> fixedChoice;  // --fix name=value: shard of a case split
static void doThrow(State& s, const std::string& ti) { s.excObj = allocObj(s, 64, 1); setBytes(s, C64(s.excObj), mkC(8, 0), 64); { auto g = M.globals.find("vp_exc_vtable"); if (g != M.globals.end() && g->second->def) writeLoc(s, resolve(s, C64(s.excObj), 8, true), C64(g->second->addr + 16), 8); } s.excTi = 0; s.excName = ti; throwNow(s); throw Switched(); }
static E fpC(int w, double d) { if (w == 64) { uint64_t b; memcpy(&b, &d, 8); return mkC(64, b); } float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return mkC(32, b); }
static E ftoi(E a, int w, bool sg) {
  E r = mkUn(sg ? K::FToSI : K::FToUI, a, w); if (r->isC() && a->isC()) { }
  if (r->k != K::FToSI && r->k != K::FToUI) return r;
  double lo = sg ? -ldexp(1.0, w - 1) : 0, hi = sg ? ldexp(1.0, w - 1) : ldexp(1.0, w);
  E inr;
  if (sg) { // lo-1 < a < hi ; for w>=53(24) lo exactly representable: a >= lo
    bool exact = a->w == 64 ? w > 53 : w > 24; inr = mkAnd1(exact ? mkBin(K::FLe, fpC(a->w, lo), a) : mkBin(K::FLt, fpC(a->w, lo - 1), a), mkBin(K::FLt, a, fpC(a->w, hi)));
  } else inr = mkAnd1(mkBin(K::FLt, fpC(a->w, -1.0), a), mkBin(K::FLt, a, fpC(a->w, hi)));
  // UIToF / SIToF sources of width <= w can still round up to hi: keep guard
  return mkIte(inr, r, mkUF(std::string("fp_conv_oob_") + (sg ? "s" : "u") + std::to_string(w) + "_" + std::to_string(a->w), w, {a}));
}
static bool starts(const std::string& a, const char* b) { return a.rfind(b, 0) == 0; }
static std::string fnLabel(State& s, E p) { return rdStr(s, p); }
static void regBuiltins();
static BF findBuiltin(const std::string& n) {
  auto it = builtins.find(n); if (it != builtins.end()) return it->second;
  auto mk = [](BF f) { return f; };
  if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) return mk([](State& s, const Inst&, std::vector<Val>& a, Val&) { uint64_t k = concretize(s, a[2].e); copyBytes(s, a[0].e, a[1].e, k); });
  if (starts(n, "llvm.memset")) return mk([](State& s, const Inst&, std::vector<Val>& a, Val&) { uint64_t k = concretize(s, a[2].e); setBytes(s, a[0].e, a[1].e, k); });
  auto mm = [&](K k, bool sw) { return mk([k, sw](State&, const Inst&, std::vector<Val>& a, Val& r) { E c = mkBin(k, a[0].e, a[1].e); r = V(sw ? mkIte(c, a[1].e, a[0].e) : mkIte(c, a[0].e, a[1].e)); }); };
  if (starts(n, "llvm.umin.")) return mm(K::Ult, false); if (starts(n, "llvm.umax.")) return mm(K::Ult, true);
  if (starts(n, "llvm.smin.")) return mm(K::Slt, false); if (starts(n, "llvm.smax.")) return mm(K::Slt, true);
  if (starts(n, "llvm.abs.")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; r = V(mkIte(mkBin(K::Slt, x, mkC(x->w, 0)), mkBin(K::Sub, mkC(x->w, 0), x), x)); });
  if (starts(n, "llvm.bswap.")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; E o = nullptr; for (int i = 0; i < x->w; i += 8) { E b = mkExtract(x, i, 8); o = o ? mkConcat(o, b) : b; } r = V(o); });
  if (starts(n, "llvm.fshl.") || starts(n, "llvm.fshr.")) { bool l = n[8] == 'l'; return mk([l](State&, const Inst&, std::vector<Val>& a, Val& r) { int w = a[0].e->w; E c = mkConcat(a[0].e, a[1].e); E sh = mkZExt(mkBin(K::URem, a[2].e, mkC(w, w)), 2 * w); if (l) r = V(mkExtract(mkBin(K::Shl, c, sh), w, w)); else r = V(mkExtract(mkBin(K::LShr, c, sh), 0, w)); }); }
  if (starts(n, "llvm.ctpop.")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; E o = mkC(x->w, 0); for (int i = 0; i < x->w; i++) o = mkBin(K::Add, o, mkZExt(mkExtract(x, i, 1), x->w)); r = V(o); });
  if (starts(n, "llvm.ctlz.") || starts(n, "llvm.cttz.")) { bool l = n[7] == 'l'; return mk([l](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; E o = mkC(x->w, x->w); if (l) for (int i = 0; i < x->w; i++) o = mkIte(mkExtract(x, i, 1), mkC(x->w, x->w - 1 - i), o); else for (int i = x->w - 1; i >= 0; i--) o = mkIte(mkExtract(x, i, 1), mkC(x->w, i), o); r = V(o); }); }
  if (n.find(".with.overflow.") != std::string::npos) { bool sg = n[5] == 's'; K k = n.find("add") != std::string::npos ? K::Add : n.find("sub") != std::string::npos ? K::Sub : K::Mul; return mk([sg, k](State&, const Inst&, std::vector<Val>& a, Val& r) { int w = a[0].e->w; auto ex = [&](E e) { return sg ? mkSExt(e, 2 * w) : mkZExt(e, 2 * w); }; E v = mkBin(k, a[0].e, a[1].e); E full = mkBin(k, ex(a[0].e), ex(a[1].e)); E ov = mkNot1(mkEq(full, ex(v))); r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(V(v)); r.agg->push_back(V(ov)); }); }
  if (starts(n, "llvm.usub.sat")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkIte(mkBin(K::Ult, a[0].e, a[1].e), mkC(a[0].e->w, 0), mkBin(K::Sub, a[0].e, a[1].e))); });
  if (starts(n, "llvm.uadd.sat")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { E v = mkBin(K::Add, a[0].e, a[1].e); r = V(mkIte(mkBin(K::Ult, v, a[0].e), mkC(v->w, ~(u128)0), v)); });
  if (starts(n, "llvm.expect.") || starts(n, "llvm.launder") || starts(n, "llvm.strip") || starts(n, "llvm.threadlocal") || starts(n, "llvm.ssa.copy")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { r = a[0]; });
  if (starts(n, "llvm.is.constant")) return mk([](State&, const Inst&, std::vector<Val>&, Val& r) { r = V(mkC(1, 0)); });
  if (starts(n, "llvm.objectsize")) return mk([](State&, const Inst& in, std::vector<Val>&, Val& r) { r = V(mkC(tyBits(in.ty), ~(u128)0)); });
  if (starts(n, "llvm.eh.typeid.for")) return mk([](State& s, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkC(32, typeId(globalName(a[0].e->u())))); });
  if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) return mk([](State& s, const Inst&, std::vector<Val>&, Val&) { violated(s, "no-trap: " + curFn(s), "trap"); });
  if (starts(n, "llvm.stacksave")) return mk([](State&, const Inst&, std::vector<Val>&, Val& r) { r = V(C64(0)); });
  if (starts(n, "llvm.stackrestore") || starts(n, "llvm.prefetch") || starts(n, "llvm.va_end")) return mk([](State&, const Inst&, std::vector<Val>&, Val&) {});
  auto un = [&](K k, int aux) { return mk([k, aux](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkUn(k, a[0].e, 0, aux)); }); };
  if (starts(n, "llvm.fabs")) return un(K::FAbs, 0); if (starts(n, "llvm.sqrt")) return un(K::FSqrt, 0); if (starts(n, "llvm.floor")) return un(K::FRound, 1); if (starts(n, "llvm.ceil")) return un(K::FRound, 2); if (starts(n, "llvm.trunc.f")) return un(K::FRound, 3); if (starts(n, "llvm.round.")) return un(K::FRound, 4); if (starts(n, "llvm.rint") || starts(n, "llvm.nearbyint") || starts(n, "llvm.roundeven")) return un(K::FRound, 0);
  if (starts(n, "llvm.fmuladd")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkBin(K::FAdd, mkBin(K::FMul, a[0].e, a[1].e), a[2].e)); });
  if (starts(n, "llvm.copysign")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { int w = a[0].e->w; r = V(mkConcat(mkExtract(a[1].e, w - 1, 1), mkExtract(a[0].e, 0, w - 1))); });
  if (starts(n, "llvm.is.fpclass")) return mk([](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; int m = (int)a[1].e->u(); int w = x->w, mb = w == 64 ? 52 : 23; E ex = mkExtract(x, mb, w - mb - 1), ma = mkExtract(x, 0, mb), sg = mkExtract(x, w - 1, 1); E exo = mkEq(ex, mkC(ex->w, maskw(ex->w))), exz = mkEq(ex, mkC(ex->w, 0)), mz = mkEq(ma, mkC(mb, 0)); E q = mkExtract(x, mb - 1, 1); E o = mkC(1, 0); E nan = mkAnd1(exo, mkNot1(mz)); if (m & 1) o = mkOr1(o, mkAnd1(nan, mkNot1(q))); if (m & 2) o = mkOr1(o, mkAnd1(nan, q)); E inf = mkAnd1(exo, mz), zero = mkAnd1(exz, mz), sub = mkAnd1(exz, mkNot1(mz)), nor = mkAnd1(mkNot1(exo), mkNot1(exz)), ps = mkNot1(sg); if (m & 4) o = mkOr1(o, mkAnd1(inf, sg)); if (m & 8) o = mkOr1(o, mkAnd1(nor, sg)); if (m & 16) o = mkOr1(o, mkAnd1(sub, sg)); if (m & 32) o = mkOr1(o, mkAnd1(zero, sg)); if (m & 64) o = mkOr1(o, mkAnd1(zero, ps)); if (m & 128) o = mkOr1(o, mkAnd1(sub, ps)); if (m & 256) o = mkOr1(o, mkAnd1(nor, ps)); if (m & 512) o = mkOr1(o, mkAnd1(inf, ps)); r = V(o); });
  if (starts(n, "llvm.minnum") || starts(n, "llvm.maxnum")) { bool mn = n[6] == 'i'; return mk([mn](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e, y = a[1].e; E c = mn ? mkBin(K::FLt, y, x) : mkBin(K::FLt, x, y); r = V(mkIte(mkUn(K::FIsNan, x), y, mkIte(mkUn(K::FIsNan, y), x, mkIte(c, y, x)))); }); }
  if (starts(n, "llvm.pow.") || starts(n, "llvm.log.") || starts(n, "llvm.exp.") || starts(n, "llvm.log10.") || starts(n, "llvm.exp2.") || starts(n, "llvm.log2.") || starts(n, "llvm.sin.") || starts(n, "llvm.cos.") || starts(n, "llvm.powi.")) { std::string u = n.substr(5); u = u.substr(0, u.find('.')); return mk([u](State&, const Inst& in, std::vector<Val>& a, Val& r) { std::vector<E> x; for (auto& v : a) x.push_back(v.e); r = V(mkUF(u, tyBits(in.ty), x)); externals.insert(u + " (uninterpreted)"); }); }
  return nullptr;
}
static void regBuiltins() {
  auto& B = builtins;
  auto nop = [](State&, const Inst& in, std::vector<Val>&, Val& r) { if (in.ty && in.ty->scalar()) r = V(mkC(tyBits(in.ty), 0)); };
  auto alloc = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t n = 0; E e = a[0].e;
    if (!e->isC()) { // huge requests: std::bad_alloc is legal behaviour
      E big = mkBin(K::Ult, C64(1ull << 40), e); if (forkOn(s, big)) { doThrow(s, "_ZTISt9bad_alloc"); }
    } n = concretize(s, e); if (n > (1ull << 40)) doThrow(s, "_ZTISt9bad_alloc"); r = V(C64(allocObj(s, n, 1))); };
  B["_Znwm"] = B["_Znam"] = alloc; B["_ZnwmSt11align_val_t"] = alloc; B["malloc"] = alloc; B["_ZnwmRKSt9nothrow_t"] = alloc;
  B["calloc"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, mkBin(K::Mul, a[0].e, a[1].e)); uint64_t p = allocObj(s, n, 1); setBytes(s, C64(p), mkC(8, 0), n); r = V(C64(p)); };
  auto del = [](State& s, const Inst&, std::vector<Val>& a, Val&) { E p = a[0].e; if (!p->isC()) { while (p->k == K::Ite) { p = forkOn(s, p->a) ? p->b : p->c; } uint64_t v = concretize(s, p); p = C64(v); } if (!p->u()) return; Obj* o = getObj(s, objId(p->u())); if (!o || !o->alive || o->kind != 1 || p->u() != objBase(objId(p->u()))) violated(s, "memory-safety: free of valid allocation in " + curFn(s), "memory"); auto n = std::make_shared<Obj>(); n->alive = false; n->size = o->size; n->kind = 1; slot(s, objId(p->u())) = n; };
  B["_ZdlPv"] = B["_ZdlPvm"] = B["_ZdaPv"] = B["_ZdaPvm"] = B["free"] = B["_ZdlPvSt11align_val_t"] = B["_ZdlPvmSt11align_val_t"] = B["_ZdlPvRKSt9nothrow_t"] = del;
  auto cpy = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); copyBytes(s, a[0].e, a[1].e, k); r = a[0]; };
  B["memcpy"] = B["memmove"] = cpy; B["wmemcpy"] = B["wmemmove"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); copyBytes(s, a[0].e, a[1].e, 4 * k); r = a[0]; };
  B["memset"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); setBytes(s, a[0].e, mkExtract(a[1].e, 0, 8), k); r = a[0]; };
  B["wmemset"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); for (uint64_t i = 0; i < k; i++) { E p = mkBin(K::Add, a[0].e, C64(4 * i)); writeLoc(s, resolve(s, p, 4, true), a[1].e, 4); } r = a[0]; };
  B["memcmp"] = B["bcmp"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); E res = mkC(32, 0); if (!k) { r = V(res); return; } Loc x = resolve(s, a[0].e, k, false), y = resolve(s, a[1].e, k, false); for (uint64_t i = k; i-- > 0;) { E p = readLoc(s, {x.id, mkBin(K::Add, x.off, C64(i))}, 1), q = readLoc(s, {y.id, mkBin(K::Add, y.off, C64(i))}, 1); res = mkIte(mkEq(p, q), res, mkBin(K::Sub, mkZExt(p, 32), mkZExt(q, 32))); } r = V(res); };
  B["wmemcmp"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); E res = mkC(32, 0); for (uint64_t i = k; i-- > 0;) { E p = readLoc(s, resolve(s, mkBin(K::Add, a[0].e, C64(4 * i)), 4, false), 4), q = readLoc(s, resolve(s, mkBin(K::Add, a[1].e, C64(4 * i)), 4, false), 4); res = mkIte(mkEq(p, q), res, mkIte(mkBin(K::Slt, p, q), mkC(32, ~0u), mkC(32, 1))); } r = V(res); };
  B["memchr"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t k = concretize(s, a[2].e); E res = C64(0); E c = mkExtract(a[1].e, 0, 8); for (uint64_t i = k; i-- > 0;) { E p = mkBin(K::Add, a[0].e, C64(i)); E b = readLoc(s, resolve(s, p, 1, false), 1); res = mkIte(mkEq(b, c), p, res); } r = V(res); };
  B["strlen"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = 0; for (;; i++) { E b = readLoc(s, resolve(s, mkBin(K::Add, a[0].e, C64(i)), 1, false), 1); if (forkOn(s, mkEq(b, mkC(8, 0)))) break; } r = V(C64(i)); };
  B["wcslen"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = 0; for (;; i++) { E b = readLoc(s, resolve(s, mkBin(K::Add, a[0].e, C64(4 * i)), 4, false), 4); if (forkOn(s, mkEq(b, mkC(32, 0)))) break; } r = V(C64(i)); };
  B["strcmp"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { for (uint64_t i = 0;; i++) { E p = readLoc(s, resolve(s, mkBin(K::Add, a[0].e, C64(i)), 1, false), 1), q = readLoc(s, resolve(s, mkBin(K::Add, a[1].e, C64(i)), 1, false), 1); if (!forkOn(s, mkEq(p, q))) { r = V(mkBin(K::Sub, mkZExt(p, 32), mkZExt(q, 32))); return; } if (forkOn(s, mkEq(p, mkC(8, 0)))) { r = V(mkC(32, 0)); return; } } };
  for (const char* n : {"__cxa_atexit", "__cxa_end_catch", "__cxa_free_exception", "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_mutex_destroy", "pthread_cond_destroy", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv", "__cxa_guard_abort", "_ZSt21ios_base_library_initv", "pthread_mutex_init", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "_ZSt28_Rb_tree_rebalance_for_eraseXX"}) B[n] = nop;
  B["__cxa_begin_catch"] = [](State&, const Inst&, std::vector<Val>& a, Val& r) { r = a[0]; };
  B["__cxa_get_exception_ptr"] = B["__cxa_begin_catch"];
  B["__cxa_guard_acquire"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { E b = readLoc(s, resolve(s, a[0].e, 1, false), 1); r = V(mkZExt(mkEq(b, mkC(8, 0)), 32)); };
  B["__cxa_guard_release"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { writeLoc(s, resolve(s, a[0].e, 1, true), mkC(8, 1), 1); };
  B["__cxa_allocate_exception"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t p = allocObj(s, concretize(s, a[0].e), 1); r = V(C64(p)); };
  B["__cxa_throw"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { s.excObj = a[0].e->u(); s.excTi = a[1].e->u(); s.excName = globalName(s.excTi); throwNow(s); throw Switched(); };
  B["__cxa_rethrow"] = [](State& s, const Inst&, std::vector<Val>&, Val&) { throwNow(s); throw Switched(); };
  auto thr = [&](const char* fn, const char* ti) { std::string t = ti; B[fn] = [t](State& s, const Inst&, std::vector<Val>&, Val&) { doThrow(s, t); }; };
  thr("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"); thr("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"); thr("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"); thr("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"); thr("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"); thr("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"); thr("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"); thr("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"); thr("__cxa_bad_cast", "_ZTISt8bad_cast"); thr("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"); thr("_ZSt20__throw_system_errori", "_ZTISt12system_error"); thr("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
  auto die = [&](const char* fn) { std::string t = fn; B[fn] = [t](State& s, const Inst&, std::vector<Val>&, Val&) { violated(s, "no-abort: " + t + " in " + curFn(s), "abort"); }; };
  for (auto x : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "exit", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__clang_call_terminate", "__cxa_throw_bad_array_new_length"}) die(x);
  B["__dynamic_cast"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    E p = a[0].e; while (p->k == K::Ite) p = forkOn(s, p->a) ? p->b : p->c; if (!p->isC()) p = C64(concretize(s, p));
    if (!p->u()) { r = V(C64(0)); return; } uint64_t vt = rdc64(s, p->u()); int64_t ott = (int64_t)rdc64(s, vt - 16); uint64_t ti = rdc64(s, vt - 8); uint64_t most = p->u() + ott; std::string want = globalName(a[2].e->u());
    std::vector<std::pair<std::string, int64_t>> so; subobjects(s, ti, 0, so); for (auto& x : so) if (x.first == want) { r = V(C64(most + x.second)); return; } r = V(C64(0)); };
  // ---- verification primitives
  auto nd = [](State& s, const Inst& in, std::vector<Val>& a, Val& r) { int w = tyBits(in.ty); std::string n = fnLabel(s, a[0].e); E v = mkVar(w == 1 ? 1 : w, n); s.nds.push_back({n, w, v}); r = V(v); };
  for (const char* n : {"vp_nd_u8", "vp_nd_u16", "vp_nd_u32", "vp_nd_u64", "vp_nd_double", "vp_nd_float"}) B[n] = nd;
  B["vp_nd_bool"] = [](State& s, const Inst& in, std::vector<Val>& a, Val& r) { std::string n = fnLabel(s, a[0].e); E v = mkVar(1, n); s.nds.push_back({n, 8, mkZExt(v, 8)}); r = V(mkZExt(v, tyBits(in.ty))); };
  B["vp_nd_bytes"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { uint64_t k = concretize(s, a[1].e); std::string n = fnLabel(s, a[2].e); for (uint64_t i = 0; i < k; i++) { E v = mkVar(8, n + "[" + std::to_string(i) + "]"); s.nds.push_back({n, 8, v}); writeLoc(s, resolve(s, mkBin(K::Add, a[0].e, C64(i)), 1, true), v, 1); } };
  B["vp_assume"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { if (!assumeC(s, mkExtract(a[0].e, 0, 1))) throw PathEnd(); };
  B["vp_assert"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { oblige(s, mkExtract(a[0].e, 0, 1), fnLabel(s, a[1].e), "contract"); };
  B["vp_reach"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { reached.insert(fnLabel(s, a[0].e)); };
  B["vp_choose"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { // concrete value in [0,n), every one explored
    uint64_t n = concretize(s, a[0].e); std::string nm = fnLabel(s, a[1].e);
    if (n == 0) throw PathEnd();
    if (auto fx = fixedChoice.find(nm); fx != fixedChoice.end()) { if (fx->second >= n) throw PathEnd(); s.nds.push_back({nm, 64, C64(fx->second)}); r = V(C64(fx->second)); return; }
    Frame& f0 = top(s); auto& in = f0.f->blocks[f0.blk].ins[f0.ip];
    for (uint64_t i = n; i-- > 1;) { auto t = std::make_unique<State>(s); t->nds.push_back({nm, 64, C64(i)}); setRes(*t, in, V(C64(i))); advanceCall(*t, in); work.push_back(std::move(t)); }
    s.nds.push_back({nm, 64, C64(0)}); r = V(C64(0)); };
  B["vp_havoc_u64"] = [](State&, const Inst&, std::vector<Val>&, Val& r) { r = V(fresh(64)); };  // unconstrained environment value
  B["vp_concrete_u64"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { r = V(C64(concretize(s, a[0].e))); };
  B["vp_ghost_set"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { s.ghost[fnLabel(s, a[0].e)] = concretize(s, a[1].e); };
  B["vp_ghost_get"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { auto it = s.ghost.find(fnLabel(s, a[0].e)); r = V(C64(it == s.ghost.end() ? 0 : it->second)); };
  B["vp_merge"] = [](State&, const Inst&, std::vector<Val>& a, Val&) { mergeOn = a[0].e->isC() && a[0].e->val; };
  B["vp_unsupported"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { throw Unsupported("model: " + fnLabel(s, a[0].e)); };
  B["vp_is_const"] = [](State&, const Inst& in, std::vector<Val>& a, Val& r) { r = V(mkC(tyBits(in.ty), a[0].e->isC() ? 1 : 0)); };
  B["vp_note"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { s.notes.push_back(fnLabel(s, a[0].e)); };
  B["vp_is_symbolic"] = [](State&, const Inst& in, std::vector<Val>&, Val& r) { r = V(mkC(tyBits(in.ty), 1)); };
  B["vp_incomplete"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { assumptions.insert("bounded: " + fnLabel(s, a[0].e)); };
  B["vp_assumption"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { assumptions.insert(fnLabel(s, a[0].e)); };
  B["vp_uf1"] = B["vp_uf2"] = B["vp_uf3"] = [](State& s, const Inst& in, std::vector<Val>& a, Val& r) { std::vector<E> x; for (size_t i = 1; i < a.size(); i++) x.push_back(a[i].e); r = V(mkUF(fnLabel(s, a[0].e), tyBits(in.ty), x)); };
  B["vp_path_end"] = [](State&, const Inst&, std::vector<Val>&, Val&) { throw PathEnd(); };
  B["vp_print"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { fprintf(stderr, "vp_print %s = %s\n", fnLabel(s, a[0].e).c_str(), show(a[1].e, 12).c_str()); };
  // unbounded objects: symbolic size, contents as an SMT array
  B["vp_sym_alloc"] = [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t id = s.nextId++; auto o = std::make_shared<Obj>(); o->kind = 1; o->size = 1ull << 31; o->symSize = a[0].e; o->arr = mkArrVar(fnLabel(s, a[1].e)); slot(s, id) = o; r = V(C64(objBase(id))); };
  B["vp_sym_havoc"] = [](State& s, const Inst&, std::vector<Val>& a, Val&) { uint64_t id = objId(concretize(s, a[0].e)); toArr(s, id); Obj* o = getObjW(s, id); o->arr = mkArrVar(fnLabel(s, a[1].e)); };
  // math
  for (const char* n : {"pow", "log", "log10", "exp", "sin", "cos", "tan", "fmod", "exp2", "log2", "atan", "asin", "acos", "powf", "logf", "expf", "log10f", "sinh", "cosh", "tanh", "cbrt"}) { std::string u = n; B[n] = [u](State&, const Inst& in, std::vector<Val>& a, Val& r) { std::vector<E> x; bool allc = true; for (auto& v : a) { x.push_back(v.e); if (!v.e->isC()) allc = false; } if (u == "pow" && x[1]->isC() && x[1]->u() == 0x4000000000000000ull && !x[0]->isC()) { r = V(mkBin(K::FMul, x[0], x[0])); externals.insert("pow(x, 2) taken as x * x, as the compilers do"); return; } if (allc && tyBits(in.ty) == 64) { double d0, d1 = 0; uint64_t b = x[0]->u(); memcpy(&d0, &b, 8); if (x.size() > 1) { b = x[1]->u(); memcpy(&d1, &b, 8); } double o = 0; bool ok = true; if (u == "pow") o = pow(d0, d1); else if (u == "log") o = log(d0); else if (u == "log10") o = log10(d0); else if (u == "exp") o = exp(d0); else if (u == "fmod") o = fmod(d0, d1); else ok = false; if (ok) { r = V(fpC(64, o)); return; } } r = V(mkUF(u, tyBits(in.ty), x)); externals.insert(u + " (uninterpreted)"); }; }
  auto fr = [&](const char* n, int m) { B[n] = [m](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkUn(K::FRound, a[0].e, 0, m)); }; };
  fr("floor", 1); fr("ceil", 2); fr("trunc", 3); fr("round", 4); fr("nearbyint", 0); fr("rint", 0);
  B["fabs"] = [](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkUn(K::FAbs, a[0].e)); }; B["sqrt"] = [](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(mkUn(K::FSqrt, a[0].e)); };
  B["lround"] = B["llround"] = [](State&, const Inst&, std::vector<Val>& a, Val& r) { r = V(ftoi(mkUn(K::FRound, a[0].e, 0, 4), 64, true)); };
}
// ---- instruction semantics
static E binE(State& s, K k, E a, E b) {
  switch (k) {
    case K::UDiv: case K::SDiv: case K::URem: case K::SRem: oblige(s, mkNot1(mkEq(b, mkC(b->w, 0))), "no-division-by-zero: " + curFn(s), "arith"); return mkBin(k, a, b);
    case K::Shl: case K::LShr: case K::AShr: { if (b->isC()) { if (b->val >= (u128)a->w) return fresh(a->w); return mkBin(k, a, b); } E r = mkBin(k, a, b); E ok = mkBin(K::Ult, b, mkC(b->w, a->w)); if (ok->isC() && ok->val) return r; return mkIte(ok, r, mkUF("poison_shift" + std::to_string((int)k) + "_" + std::to_string(a->w), a->w, {a, b})); }
    default: return mkBin(k, a, b);
  }
}
static E icmpE(int p, E a, E b) {
  switch (p) { case 0: return mkEq(a, b); case 1: return mkNot1(mkEq(a, b)); case 2: return mkBin(K::Ult, b, a); case 3: return mkBin(K::Ule, b, a); case 4: return mkBin(K::Ult, a, b); case 5: return mkBin(K::Ule, a, b); case 6: return mkBin(K::Slt, b, a); case 7: return mkBin(K::Sle, b, a); case 8: return mkBin(K::Slt, a, b); default: return mkBin(K::Sle, a, b); }
}
static E fcmpE(int p, E a, E b) {
  auto nan = [&] { return mkOr1(mkUn(K::FIsNan, a), mkUn(K::FIsNan, b)); };
  switch (p) {
    case 0: return mkC(1, 0); case 1: return mkBin(K::FEq, a, b); case 2: return mkBin(K::FLt, b, a); case 3: return mkBin(K::FLe, b, a); case 4: return mkBin(K::FLt, a, b); case 5: return mkBin(K::FLe, a, b);
    case 6: return mkAnd1(mkNot1(nan()), mkNot1(mkBin(K::FEq, a, b))); case 7: return mkNot1(nan()); case 8: return mkOr1(nan(), mkBin(K::FEq, a, b)); case 9: return mkNot1(mkBin(K::FLe, a, b)); case 10: return mkNot1(mkBin(K::FLt, a, b)); case 11: return mkNot1(mkBin(K::FLe, b, a)); case 12: return mkNot1(mkBin(K::FLt, b, a)); case 13: return mkNot1(mkBin(K::FEq, a, b)); case 14: return nan(); default: return mkC(1, 1);
  }
}
static Val mapVec(const Val& a, const std::function<E(E, size_t)>& f) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(V(f((*a.agg)[i].e, i))); return r; }
// ---- state merging: two states that reach the join point of a branch (its immediate post-dominator,
// same stack) are combined with if-then-else values; purely an optimisation of the path enumeration.
static const std::vector<int>& ipdom(Function* f) {
  static std::unordered_map<Function*, std::vector<int>> cache; auto it = cache.find(f); if (it != cache.end()) return it->second;
  int n = (int)f->blocks.size(), X = n; std::vector<std::vector<int>> succ(n + 1), pred(n + 1);
  for (int b = 0; b < n; b++) { auto& t = f->blocks[b].ins.back(); if (t.o == O::Ret) succ[b].push_back(X); else if (t.o == O::Invoke) succ[b].push_back(t.tgt[0]); else for (int x : t.tgt) succ[b].push_back(x); }
  for (int b = 0; b <= n; b++) for (int x : succ[b]) pred[x].push_back(b);
  std::vector<int> order, num(n + 1, -1), idom(n + 1, -1); std::vector<std::pair<int, size_t>> stk; std::vector<char> seen(n + 1, 0);
  stk.push_back({X, 0}); seen[X] = 1; while (!stk.empty()) { auto& [b, i] = stk.back(); if (i < pred[b].size()) { int p = pred[b][i++]; if (!seen[p]) { seen[p] = 1; stk.push_back({p, 0}); } } else { num[b] = (int)order.size(); order.push_back(b); stk.pop_back(); } }
  idom[X] = X; bool ch = true;
  while (ch) { ch = false; for (size_t k = order.size(); k-- > 0;) { int b = order[k]; if (b == X) continue; int d = -1; for (int x : succ[b]) { if (num[x] < 0 || idom[x] < 0) continue; if (d < 0) d = x; else { int u = x, v = d; while (u != v) { while (num[u] < num[v]) u = idom[u]; while (num[v] < num[u]) v = idom[v]; } d = u; } } if (d >= 0 && idom[b] != d) { idom[b] = d; ch = true; } } }
  std::vector<int> r(n, -1); for (int b = 0; b < n; b++) if (idom[b] >= 0 && idom[b] != X) r[b] = idom[b];
  return cache[f] = r;
}
struct Pending { bool on = false; size_t depth = 0; int blk = -1; Function* f = nullptr; } pend;
static E conj(const std::vector<E>& v, size_t from) { E r = mkC(1, 1); for (size_t i = v.size(); i-- > from;) r = mkAnd1(v[i], r); return r; }
static bool isPtr(E e) { return e && e->isC() && e->w == 64 && (e->u() >> 32) != 0 && (e->u() >> 32) < (1u << 24) && (e->u() & 0xF0000000u) == OBJ_OFF; }
static bool mergeVal(E g, const Val& a, const Val& b, Val& o) {
  if (a.agg || b.agg) { if (a.agg == b.agg) { o = a; return true; } if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) { o = Val(); return true; } o = Val(); o.agg = std::make_shared<std::vector<Val>>(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) if (!mergeVal(g, (*a.agg)[i], (*b.agg)[i], (*o.agg)[i])) return false; return true; }
  if (a.e == b.e) { o = a; return true; } if (!a.e) { o = b; return true; } if (!b.e) { o = a; return true; }
  if (a.e->w != b.e->w) return false; o = Val(); o.e = mkIte(g, a.e, b.e); return true;
}
// merges b into a; false if not mergeable
static bool mergeStates(State& a, State& b) {
  if (a.st.size() != b.st.size() || a.nds.size() != b.nds.size() || a.ghost != b.ghost || a.notes != b.notes || a.excObj != b.excObj || a.excName != b.excName || a.wsetOn != b.wsetOn || a.wset != b.wset) return false;
  for (size_t i = a.nds.size(); i-- > 0;) if (a.nds[i].e != b.nds[i].e) return false;
  for (size_t i = 0; i + 1 < a.st.size(); i++) if (a.st[i] != b.st[i]) return false;
  Frame& fa = top(a); Frame& fb = top(b); if (fa.f != fb.f || fa.blk != fb.blk || fa.ip != fb.ip || fa.allocas != fb.allocas || fa.va.size() != fb.va.size()) return false;
  size_t p = 0; while (p < a.cons.size() && p < b.cons.size() && a.cons[p] == b.cons[p]) p++;
  E ca = conj(a.cons, p), cb = conj(b.cons, p); E g = (a.cons.size() <= b.cons.size()) ? ca : mkNot1(cb);
  // memory
  size_t nc = std::max(a.mem.size(), b.mem.size()); static const std::shared_ptr<Chunk> none;
  std::vector<std::pair<uint64_t, ObjP>> upd;
  for (size_t c = 0; c < nc; c++) {
    const auto& x = c < a.mem.size() ? a.mem[c] : none; const auto& y = c < b.mem.size() ? b.mem[c] : none; if (x == y) continue;
    for (int k = 0; k < 32; k++) {
      ObjP ox = x ? (*x)[k] : nullptr, oy = y ? (*y)[k] : nullptr; if (ox == oy) continue; uint64_t id = c * 32 + k;
      if (id < M.nextId) { if (!ox) ox = globalObj(id); if (!oy) oy = globalObj(id); if (ox == oy) continue; }
      if (!ox) { upd.push_back({id, oy}); continue; } if (!oy) continue;
      if (ox->size != oy->size || ox->alive != oy->alive || ox->symSize != oy->symSize || ox->kind != oy->kind) return false;
      if (!ox->alive) continue;
      if (ox->arr || oy->arr) { if (ox->arr == oy->arr) continue; return false; }
      auto n = std::make_shared<Obj>(*ox);
      for (uint64_t i = 0; i < n->b.size(); i++) { E u = ox->b[i], v = oy->b[i]; if (u == v) continue; if (!u) { n->b[i] = v; continue; } if (!v) continue; n->b[i] = mkIte(g, u, v); }
      // pointer words must agree (differing concrete pointers are left to path enumeration)
      for (uint64_t i = 0; i + 8 <= n->b.size(); i += 8) { if (ox->b[i + 4] == oy->b[i + 4] && ox->b[i + 5] == oy->b[i + 5] && ox->b[i + 6] == oy->b[i + 6]) continue; auto word = [&](const Obj& o) -> E { E r = nullptr; for (int j = 0; j < 8; j++) { E z = o.b[i + j]; if (!z || !z->isC()) return nullptr; r = r ? mkConcat(z, r) : z; } return r; }; if (isPtr(word(*ox)) || isPtr(word(*oy))) return false; }
      upd.push_back({id, n});
    }
  }
  auto fr = std::make_shared<Frame>(fa);
  for (size_t i = 0; i < fr->regs.size(); i++) { Val o; if (!mergeVal(g, fa.regs[i], fb.regs[i], o)) return false; fr->regs[i] = o; }
  fr->prev = -1; a.st.back() = fr;
  for (auto& u : upd) slot(a, u.first) = u.second;
  E d = mkOr1(ca, cb); if (ca == mkNot1(cb)) d = mkC(1, 1);
  a.cons.resize(p); if (!d->isC()) a.cons.push_back(d);
  a.nextId = std::max(a.nextId, b.nextId); a.steps = std::max(a.steps, b.steps); nMerged++; return true;
}
static void step(State& s);
static bool runState(StP& s, const Pending* stop, uint64_t* maxId);
// explores the states of `work` (a private list) up to the join point; results go to `out`
static void runRegion(std::vector<StP> init, Pending where_, std::vector<StP>& out) {
  std::vector<StP> saved; saved.swap(work); work = std::move(init); std::vector<StP> arrived; uint64_t maxId = 0; uint64_t steps0 = nInst; bool give = false;
  while (!work.empty()) {
    if (give || arrived.size() > 40 || nInst - steps0 > 3000000) { give = true; break; }
    StP s = std::move(work.back()); work.pop_back(); if (s->nextId < maxId) s->nextId = maxId; 
    bool at = runState(s, &where_, &maxId);
    if (!s) continue;
    if (maxId < s->nextId) maxId = s->nextId;
    if (!at) { out.push_back(std::move(s)); continue; }
    // merge with an earlier arrival, longest common prefix first
    bool done = false;
    for (;;) {
      size_t best = SIZE_MAX, bl = 0; for (size_t i = 0; i < arrived.size(); i++) { size_t p = 0; while (p < s->cons.size() && p < arrived[i]->cons.size() && s->cons[p] == arrived[i]->cons[p]) p++; if (best == SIZE_MAX || p > bl) { best = i; bl = p; } }
      if (best == SIZE_MAX) break;
      if (!mergeStates(*arrived[best], *s)) { nMergeRefused++; break; }
      s = std::move(arrived[best]); arrived.erase(arrived.begin() + best); done = false; (void)done;
    }
    arrived.push_back(std::move(s));
  }
  for (auto& x : work) out.push_back(std::move(x)); for (auto& x : arrived) out.push_back(std::move(x));
  work = std::move(saved);
}
static double lastTimeCheck = 0;
struct TimeUp {};
// runs one state; returns true when it stands at the stop point; s becomes null when the path ended
static bool runState(StP& s, const Pending* stop, uint64_t* maxId) {
  try {
    for (;;) {
      if (stop) { if (s->st.size() < stop->depth) return false; if (s->st.size() == stop->depth) { Frame& f = top(*s); if (f.f != stop->f) return false; if (f.blk == stop->blk && (f.ip == 0 || f.f->blocks[f.blk].ins[f.ip - 1].o == O::Phi)) return true; } }
      if (trace) { Frame& f = top(*s); fprintf(stderr, "%zu %s b%d i%d\n", s->st.size(), where(*s).c_str(), f.blk, f.ip); }
      size_t w0 = work.size(); pend.on = false; step(*s);
      if ((nInst & 1023) == 0) { if (hotOn) hot[where(*s)]++; if (elapsed() > timeLimit) throw TimeUp(); if (s->steps > maxSteps) throw Unsupported("step limit (possible unbounded loop) in " + where(*s)); }
      if (pend.on && work.size() > w0) {
        Pending p = pend; pend.on = false; std::vector<StP> init; for (size_t i = w0; i < work.size(); i++) init.push_back(std::move(work[i])); work.resize(w0); init.push_back(std::move(s));
        std::vector<StP> out; runRegion(std::move(init), p, out);
        if (out.empty()) { s.reset(); return false; }
        s = std::move(out.back()); out.pop_back(); for (auto& x : out) { if (maxId) *maxId = std::max(*maxId, x->nextId); work.push_back(std::move(x)); }
      }
    }
  } catch (PathEnd&) { nPaths++; }
  catch (Unsupported& u) { std::string w; try { w = stackTrace(*s); } catch (...) {} incompleteReasons.insert(std::string("unsupported: ") + u.what()); bool nu = errors.insert(std::string(u.what()) + "\n" + w).second; nPaths++; if (nu && getenv("VP_DEBUG")) fprintf(stderr, "UNSUPPORTED %s\n%s", u.what(), w.c_str()); if (incompleteReasons.size() > 5) throw TimeUp(); }
  catch (std::runtime_error& u) { std::string w; try { w = stackTrace(*s); } catch (...) {} incompleteReasons.insert(std::string("engine: ") + u.what()); bool nu = errors.insert(std::string(u.what()) + "\n" + w).second; nPaths++; if (nu && getenv("VP_DEBUG")) fprintf(stderr, "ENGINE %s\n%s", u.what(), w.c_str()); }
  s.reset(); return false;
}
static void branchMerge(State& s) { if (!mergeOn) return; Frame& f = top(s); auto& ip = ipdom(f.f); if (ip[f.blk] >= 0) { pend.on = true; pend.depth = s.st.size(); pend.f = f.f; pend.blk = ip[f.blk]; } }
static std::set<std::string> unmodelled;
static void doCall(State& s, const Inst& in) {
  Frame& f = top(s); Function* fn = in.callee;
  if (!fn) {
    if (in.ops[0].undef) { // inline asm
      // only empty-bodied barriers are expected
      advanceCall(s, in); return; }
    E p = opE(s, f, in.ops[0]); while (p->k == K::Ite) p = forkOn(s, p->a) ? p->b : p->c; if (!p->isC()) p = C64(concretize(s, p));
    auto it = M.funcByAddr.find(p->u()); if (it == M.funcByAddr.end()) violated(s, "memory-safety: indirect call target in " + curFn(s), "memory"); fn = it->second;
  }
  std::vector<Val> args; for (size_t i = 1; i < in.ops.size(); i++) { Val v = getOp(s, f, in.ops[i]); if (!v.e && !v.agg && in.ops[i].ty->scalar()) v.e = fresh(tyBits(in.ops[i].ty)); args.push_back(v); }
  if (fn->stub && fn != top(s).f) { stubsUsed.insert(fn->name); fn = fn->stub; }
  if (fn->builtin == -1) { BF b = findBuiltin(fn->name); if (b) { builtinVec.push_back(b); fn->builtin = (int)builtinVec.size() - 1; } else fn->builtin = -2; }
  if (fn->builtin >= 0) {
    Val r; try { builtinVec[fn->builtin](s, in, args, r); } catch (Switched&) { return; }
    if (r.e || r.agg) setRes(s, in, r); advanceCall(s, in); return;
  }
  if (!fn->def) { throw Unsupported("call to unmodelled external function " + fn->name); }
  pushFrame(s, fn, args);
}
static void step(State& s) {
  Frame& f = topW(s); const Inst& in = f.f->blocks[f.blk].ins[f.ip]; nInst++; s.steps++;
  switch (in.o) {
    case O::Bin: { if (in.ty->k == Ty::Vec) { Val a = getOp(s, f, in.ops[0]), b = getOp(s, f, in.ops[1]); setRes(s, in, mapVec(a, [&](E x, size_t i) { return binE(s, (K)in.sub, x, (*b.agg)[i].e); })); } else { E a = opE(s, f, in.ops[0]), b = opE(s, f, in.ops[1]); f.regs[in.res] = V(binE(s, (K)in.sub, a, b)); } f.ip++; break; }
    case O::ICmp: { if (in.ops[0].ty->k == Ty::Vec) throw Unsupported("vector icmp"); f.regs[in.res] = V(icmpE(in.sub, opE(s, f, in.ops[0]), opE(s, f, in.ops[1]))); f.ip++; break; }
    case O::FCmp: f.regs[in.res] = V(fcmpE(in.sub, opE(s, f, in.ops[0]), opE(s, f, in.ops[1]))); f.ip++; break;
    case O::FNeg: f.regs[in.res] = V(mkUn(K::FNeg, opE(s, f, in.ops[0]))); f.ip++; break;
    case O::Freeze: f.regs[in.res] = getOp(s, f, in.ops[0]); f.ip++; break;
    case O::Select: { E c = opE(s, f, in.ops[0]); Val a = getOp(s, f, in.ops[1]), b = getOp(s, f, in.ops[2]);
      if (a.agg || b.agg) { bool v = forkOn(s, c); Frame& g = topW(s); g.regs[in.res] = v ? a : b; g.ip++; break; }
      if (!a.e) a.e = fresh(tyBits(in.ty)); if (!b.e) b.e = fresh(tyBits(in.ty)); f.regs[in.res] = V(mkIte(c, a.e, b.e)); f.ip++; break; }
    case O::Br: jump(s, in.tgt[0]); break;
    case O::CondBr: { E c = opE(s, f, in.ops[0]); branchMerge(s); bool v = forkOn(s, c); jump(s, in.tgt[v ? 0 : 1]); break; }
    case O::Switch: { E c = opE(s, f, in.ops[0]); branchMerge(s); int t = in.tgt[0]; for (size_t i = 0; i < in.cases.size(); i++) if (forkOn(s, mkEq(c, mkC(c->w, in.cases[i])))) { t = in.tgt[i + 1]; break; } jump(s, t); break; }
    case O::Ret: {
      Val v; bool has = !in.ops.empty(); if (has) { v = getOp(s, f, in.ops[0]); } killFrame(s); if (s.st.empty()) throw PathEnd();
      Frame& c = top(s); const Inst& ci = c.f->blocks[c.blk].ins[c.ip]; if (has) setRes(s, ci, v); advanceCall(s, ci); break; }
    case O::Unreachable: violated(s, "no-unreachable: " + f.f->name, "unreachable");
    case O::Call: case O::Invoke: doCall(s, in); break;
    case O::LandingPad: {
      int sel = 0; bool hit = false; int64_t adj = 0; for (auto& o : in.ops) { uint64_t t = o.c.e->u(); std::string n = t ? globalName(t) : ""; if (!t || excMatches(s, s.excName, s.excTi, n, adj)) { sel = typeId(n); hit = true; break; } }
      if (!hit && !in.cleanup) { unwind(s); break; }
      Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(V(C64(s.excObj + adj))); r.agg->push_back(V(mkC(32, sel))); f.regs[in.res] = r; f.ip++; break; }
    case O::Resume: unwind(s); break;
    case O::Alloca: { uint64_t n = 1; if (!in.ops.empty()) n = concretize(s, opE(s, f, in.ops[0])); uint64_t a = allocObj(s, n * tySize(in.ety), 2); Frame& g = topW(s); g.allocas.push_back(a); g.regs[in.res] = V(C64(a)); g.ip++; break; }
    case O::Load: { Val v = loadTy(s, opE(s, f, in.ops[0]), in.ty); Frame& g = topW(s); g.regs[in.res] = v; g.ip++; break; }
    case O::Store: { Val v = getOp(s, f, in.ops[0]); storeTy(s, opE(s, f, in.ops[1]), v, in.ops[0].ty); topW(s).ip++; break; }
    case O::Gep: { E a = opE(s, f, in.ops[0]); E off = C64(in.gepOff); for (auto& g : in.gep) { E i = opE(s, f, in.ops[g.first]); if (i->w < 64) i = mkSExt(i, 64); else if (i->w > 64) i = mkExtract(i, 0, 64); off = mkBin(K::Add, off, mkBin(K::Mul, i, C64(g.second))); } f.regs[in.res] = V(mkBin(K::Add, a, off)); f.ip++; break; }
    case O::Trunc: f.regs[in.res] = V(mkExtract(opE(s, f, in.ops[0]), 0, tyBits(in.ty))); f.ip++; break;
    case O::ZExt: f.regs[in.res] = V(mkZExt(opE(s, f, in.ops[0]), tyBits(in.ty))); f.ip++; break;
    case O::SExt: f.regs[in.res] = V(mkSExt(opE(s, f, in.ops[0]), tyBits(in.ty))); f.ip++; break;
    case O::FPToSI: case O::FPToUI: { if (in.ops[0].ty->k == Ty::F80) throw Unsupported("x86_fp80"); f.regs[in.res] = V(ftoi(opE(s, f, in.ops[0]), tyBits(in.ty), in.o == O::FPToSI)); f.ip++; break; }
    case O::SIToFP: case O::UIToFP: { if (in.ty->k == Ty::F80) throw Unsupported("x86_fp80"); f.regs[in.res] = V(mkUn(in.o == O::SIToFP ? K::SIToF : K::UIToF, opE(s, f, in.ops[0]), tyBits(in.ty))); f.ip++; break; }
    case O::FPTrunc: case O::FPExt: { if (in.ty->k == Ty::F80 || in.ops[0].ty->k == Ty::F80) throw Unsupported("x86_fp80"); f.regs[in.res] = V(mkUn(K::FToF, opE(s, f, in.ops[0]), tyBits(in.ty))); f.ip++; break; }
    case O::PtrToInt: case O::IntToPtr: { E e = opE(s, f, in.ops[0]); int w = tyBits(in.ty); if (w > e->w) e = mkZExt(e, w); else if (w < e->w) e = mkExtract(e, 0, w); f.regs[in.res] = V(e); f.ip++; break; }
    case O::BitCast: { Val v = getOp(s, f, in.ops[0]); if (in.ops[0].ty->k == Ty::Vec || in.ty->k == Ty::Vec) { E all = nullptr; if (v.agg) for (auto& x : *v.agg) all = all ? mkConcat(x.e, all) : x.e; else all = v.e; if (in.ty->k == Ty::Vec) { Val r; r.agg = std::make_shared<std::vector<Val>>(); int w = tyBits(in.ty->el); for (uint64_t i = 0; i < in.ty->n; i++) r.agg->push_back(V(mkExtract(all, (int)i * w, w))); v = r; } else v = V(all); } f.regs[in.res] = v; f.ip++; break; }
    case O::ExtractValue: { Val v = getOp(s, f, in.ops[0]); Ty* t = in.ops[0].ty; for (auto i : in.idx) { Val n = (*v.agg)[i]; v = n; t = t->k == Ty::Struct ? t->f[i] : t->el; } if (!v.e && !v.agg) v = undefTy(t); f.regs[in.res] = v; f.ip++; break; }
    case O::InsertValue: { Val a = getOp(s, f, in.ops[0]), b = getOp(s, f, in.ops[1]); std::function<Val(const Val&, size_t)> ins = [&](const Val& x, size_t d) -> Val { if (d == in.idx.size()) return b; Val r; r.agg = std::make_shared<std::vector<Val>>(*x.agg); (*r.agg)[in.idx[d]] = ins((*x.agg)[in.idx[d]], d + 1); return r; }; f.regs[in.res] = ins(a, 0); f.ip++; break; }
    case O::AtomicRMW: { E p = opE(s, f, in.ops[0]), v = opE(s, f, in.ops[1]); E old = loadTy(s, p, in.ty).e; E n = in.sub == 0 ? mkBin(K::Add, old, v) : in.sub == 1 ? mkBin(K::Sub, old, v) : in.sub == 2 ? v : in.sub == 3 ? mkBin(K::Or, old, v) : in.sub == 4 ? mkBin(K::And, old, v) : nullptr; if (!n) throw Unsupported("atomicrmw"); storeTy(s, p, V(n), in.ty); Frame& g = topW(s); if (in.res >= 0) g.regs[in.res] = V(old); g.ip++; break; }
    case O::CmpXchg: { E p = opE(s, f, in.ops[0]), c = opE(s, f, in.ops[1]), n = opE(s, f, in.ops[2]); Ty* t = in.ops[1].ty; E old = loadTy(s, p, t).e; E eq = mkEq(old, c); storeTy(s, p, V(mkIte(eq, n, old)), t); Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(V(old)); r.agg->push_back(V(eq)); Frame& g = topW(s); g.regs[in.res] = r; g.ip++; break; }
    case O::ExtractElement: { Val v = getOp(s, f, in.ops[0]); uint64_t i = concretize(s, opE(s, f, in.ops[1])); Val r = (*v.agg)[i]; if (!r.e) r.e = fresh(tyBits(in.ty)); f.regs[in.res] = r; f.ip++; break; }
    case O::InsertElement: { Val v = getOp(s, f, in.ops[0]); E x = opE(s, f, in.ops[1]); uint64_t i = concretize(s, opE(s, f, in.ops[2])); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i] = V(x); f.regs[in.res] = r; f.ip++; break; }
    case O::ShuffleVector: { Val a = getOp(s, f, in.ops[0]), b = getOp(s, f, in.ops[1]), m = getOp(s, f, in.ops[2]); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto& x : *m.agg) { if (!x.e) { r.agg->push_back(V(fresh(tyBits(in.ty->el)))); continue; } uint64_t i = x.e->u(); r.agg->push_back(i < a.agg->size() ? (*a.agg)[i] : (*b.agg)[i - a.agg->size()]); } f.regs[in.res] = r; f.ip++; break; }
    default: throw Unsupported("instruction");
  }
  (void)f;
}
static void runAll() {
  try { while (!work.empty()) { StP s = std::move(work.back()); work.pop_back(); runState(s, nullptr, nullptr); } }
  catch (StopNow&) { work.clear(); }
  catch (TimeUp&) { incompleteReasons.insert(elapsed() > timeLimit ? "time limit" : "too many errors"); work.clear(); }
}
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
static std::string entry, outFile; static bool runCtors = true;
static int realMain(int argc, char** argv) {
  std::string file; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nxt(); else if (a == "--fix") { std::string t = nxt(); auto q = t.find('='); fixedChoice[t.substr(0, q)] = strtoull(t.c_str() + q + 1, nullptr, 10); } else if (a == "--out") outFile = nxt(); else if (a == "--trace") trace = true; else if (a == "--time") timeLimit = atof(nxt().c_str()); else if (a == "--query-ms") g_query_timeout_ms = atoi(nxt().c_str()); else if (a == "--no-ctors") runCtors = false; else if (a == "--no-merge") mergeOn = false; else if (a == "--stop-first") stopFirst = true; else if (a == "--cross") g_cross_check = nxt(); else if (a == "--hot") hotOn = true; else if (a == "--max-steps") maxSteps = strtoull(nxt().c_str(), 0, 10); else file = a; }
  T0 = std::chrono::steady_clock::now(); solverInit(); regBuiltins(); loadModule(file);
  if (entry == "--list") { for (auto& f : M.funcs) if (f.second->def && starts(f.first, "vp_contract_")) printf("%s\n", f.first.c_str()); return 0; }
  auto it = M.funcs.find(entry); if (it == M.funcs.end() || !it->second->def) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  StP init = std::make_unique<State>(); init->nextId = M.nextId;
  // static initialisation, executed concretely
  if (runCtors) for (auto& c : M.ctors) {
    auto fn = M.funcs.find(c); if (fn == M.funcs.end()) continue; StP snap = std::make_unique<State>(*init);
    try { pushFrame(*init, fn->second, {}); size_t w0 = work.size(); for (;;) { step(*init); if (work.size() != w0) throw Unsupported("fork in static init"); } }
    catch (PathEnd&) { if (!failures.empty()) { errors.insert("static init " + c + ": " + failures[0].label); failures.clear(); init = std::move(snap); } }
    catch (std::runtime_error& u) { errors.insert("static init " + c + ": " + u.what()); init = std::move(snap); work.clear(); }
    init->st.clear();
  }
  std::set<std::string> ctorErrors = errors; errors.clear(); executed.clear(); lastExec = nullptr; memObl.clear(); memF = nullptr; obls.clear(); nInst = 0;
  init->steps = 0; pushFrame(*init, it->second, {}); work.push_back(std::move(init));
  try { runAll(); } catch (std::exception& e) { incompleteReasons.insert(std::string("engine: ") + e.what()); }
  if (hotOn) for (auto& h : hot) fprintf(stderr, "HOT %llu %s\n", (unsigned long long)h.second, h.first.c_str());
  uint64_t nob = 0, npr = 0, nfail = 0; for (auto& o : obls) { nob += o.second.n; npr += o.second.proved; nfail += o.second.failed; }
  std::string status = !failures.empty() ? "violated" : incompleteReasons.empty() ? "verified" : "inconclusive";
  std::ostringstream o; o << "{\n \"entry\": " << js(entry) << ",\n \"status\": " << js(status) << ",\n \"paths\": " << nPaths << ", \"instructions\": " << nInst << ", \"forks\": " << nForks << ", \"merged\": " << nMerged << ", \"merge_refused\": " << nMergeRefused << ",\n \"vcs\": " << nob << ", \"vcs_proved\": " << npr << ", \"vcs_failed\": " << nfail << ",\n \"wall_s\": " << elapsed() << ", \"solver_s\": " << g_ss.secs << ", \"solver_max_s\": " << g_ss.maxSecs << ", \"queries\": " << g_ss.queries << ", \"cache_hits\": " << g_ss.cacheHits << ", \"unknown\": " << g_ss.unknown << ",\n \"cross_ok\": " << g_cross_ok << ", \"cross_unknown\": " << g_cross_unknown << ", \"cross_bad\": " << g_cross_bad << ",\n";
  auto lst = [&](const char* n, const std::set<std::string>& v) { o << " \"" << n << "\": ["; bool f = true; for (auto& x : v) { o << (f ? "" : ", ") << js(x); f = false; } o << "],\n"; };
  lst("reached", reached); lst("incomplete", incompleteReasons); lst("errors", errors); lst("ctor_errors", ctorErrors); lst("externals", externals); lst("stubs", stubsUsed); lst("assumptions", assumptions);
  std::set<std::string> ex; for (auto f : executed) ex.insert(f->name); lst("functions", ex);
  o << " \"obligations\": {"; bool first = true; for (auto& x : obls) { o << (first ? "\n" : ",\n") << "  " << js(x.first) << ": {\"kind\": " << js(x.second.kind) << ", \"n\": " << x.second.n << ", \"proved\": " << x.second.proved << ", \"trivial\": " << x.second.trivial << ", \"failed\": " << x.second.failed << ", \"unknown\": " << x.second.unknown << "}"; first = false; } o << "},\n";
  o << " \"failures\": ["; first = true; for (auto& x : failures) { o << (first ? "\n" : ",\n") << "  {\"label\": " << js(x.label) << ", \"kind\": " << js(x.kind) << ", \"where\": " << js(x.where) << ", \"trace\": " << js(x.trace) << ", \"nondet\": ["; bool g = true; for (auto& n : x.nds) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)(uint64_t)n.second.second); o << (g ? "" : ", ") << "[" << js(n.first) << ", " << n.second.first << ", \"" << b << "\"]"; g = false; } o << "]}"; first = false; } o << "]\n}\n";
  if (outFile.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream(outFile) << o.str(); }
  fflush(stdout); fflush(stderr);
  return status == "verified" ? 0 : status == "violated" ? 1 : 2;
}
struct MA { int c; char** v; int r; };
int main(int argc, char** argv) {
  MA ma{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30); pthread_t t;
  auto run = [](void* p) -> void* { MA* m = (MA*)p; try { m->r = realMain(m->c, m->v); } catch (std::exception& e) { fprintf(stderr, "irv: %s\n", e.what()); m->r = 3; } return nullptr; };
  if (pthread_create(&t, &at, run, &ma)) { fprintf(stderr, "thread\n"); return 3; } pthread_join(t, nullptr); _Exit(ma.r);
}
