#include "ir.h"
#include <fstream>
#include <sstream>
#include <algorithm>
#include <cstdio>
Module M;
static Ty tVoid{Ty::Void}, tF32{Ty::F32, 32}, tF64{Ty::F64, 64}, tF80{Ty::F80, 80}, tPtr{Ty::Ptr, 64}, tLabel{Ty::Label}, tMeta{Ty::Meta}, tOpaque{Ty::Opaque};
static Ty* intTy(int b) { static std::map<int, Ty*> m; auto& r = m[b]; if (!r) { r = new Ty{Ty::Int, b}; } return r; }
int tyBits(Ty* t) { return t->k == Ty::Ptr ? 64 : t->bits; }
static void layout(Ty* t) {
  if (t->laid) return; t->laid = true;
  switch (t->k) {
    case Ty::Int: { uint64_t b = (t->bits + 7) / 8, a = 1; while (a < b) a *= 2; if (a > 16) a = 16; t->al = a; t->sz = (b + a - 1) / a * a; if (t->bits <= 64) t->sz = a; break; }
    case Ty::F32: t->sz = t->al = 4; break;
    case Ty::F64: case Ty::Ptr: t->sz = t->al = 8; break;
    case Ty::F80: t->sz = t->al = 16; break;
    case Ty::Arr: layout(t->el); t->sz = t->el->sz * t->n; t->al = t->el->al; break;
    case Ty::Vec: layout(t->el); { uint64_t s = t->el->k == Ty::Int && t->el->bits == 1 ? (t->n + 7) / 8 : t->el->sz * t->n; uint64_t a = 1; while (a < s) a *= 2; t->sz = a; t->al = a; } break;
    case Ty::Struct: { uint64_t o = 0, a = 1; for (auto f : t->f) { layout(f); uint64_t fa = t->packed ? 1 : f->al; o = (o + fa - 1) / fa * fa; t->off.push_back(o); o += f->sz; a = std::max(a, fa); } t->al = a; t->sz = (o + a - 1) / a * a; break; }
    case Ty::Func: t->sz = 1; break;
    default: t->sz = 0; t->al = 1;
  }
}
uint64_t tySize(Ty* t) { layout(t); return t->sz; }
uint64_t tyAlign(Ty* t) { layout(t); return t->al; }

struct P { // cursor
  const char* p; const char* e;
  [[noreturn]] void err(const std::string& m) { std::string ctx(p, std::min<size_t>(e - p, 160)); throw std::runtime_error("IR parse: " + m + " near: " + ctx); }
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; if (p < e && *p == ';') { while (p < e && *p != '\n') p++; ws(); } }
  bool eat(char c) { ws(); if (p < e && *p == c) { p++; return true; } return false; }
  void need(char c) { if (!eat(c)) err(std::string("expected ") + c); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  bool peekWord(const char* w) { ws(); size_t n = strlen(w); return (size_t)(e - p) >= n && !strncmp(p, w, n) && (p + n == e || !idc(p[n])); }
  bool eatWord(const char* w) { if (peekWord(w)) { p += strlen(w); return true; } return false; }
  std::string word() { ws(); const char* s = p; while (p < e && idc(*p)) p++; return std::string(s, p); }
  std::string name() { // after sigil
    if (*p == '"') { const char* s = ++p; while (*p != '"') p++; std::string r(s, p); p++; return r; }
    const char* s = p; while (p < e && idc(*p)) p++; return std::string(s, p);
  }
  void skipBalanced(char o, char c) { need(o); int d = 1; while (p < e && d) { if (*p == '"') { p++; while (*p != '"') p++; } else if (*p == o) d++; else if (*p == c) d--; p++; } }
};
static Ty* parseTy(P& q);
static Ty* namedTy(const std::string& n) {
  auto& t = M.types[n]; if (t) return t;
  auto it = M.typeDefs.find(n);
  t = new Ty{Ty::Opaque}; t->name = n; Ty* res = t;
  if (it != M.typeDefs.end()) {
    P q{it->second, M.text.data() + M.text.size()};
    if (q.eatWord("opaque")) return res;
    Ty* d = parseTy(q); *res = *d; res->name = n; res->laid = false; res->off.clear();
  }
  return res;
}
static bool isTyStart(P& q) {
  q.ws(); char c = *q.p;
  if (c == '%' || c == '{' || c == '[' || c == '<') return true;
  if (c == 'i' && isdigit((unsigned char)q.p[1])) return true;
  for (const char* w : {"ptr", "void", "float", "double", "x86_fp80", "half", "label", "metadata", "token", "opaque", "fp128"}) if (q.peekWord(w)) return true;
  return false;
}
static Ty* parseTy(P& q) {
  q.ws(); Ty* t = nullptr;
  if (*q.p == '%') { q.p++; t = namedTy(q.name()); }
  else if (*q.p == '{') { q.p++; t = new Ty{Ty::Struct}; if (!q.eat('}')) { do t->f.push_back(parseTy(q)); while (q.eat(',')); q.need('}'); } }
  else if (*q.p == '[') { q.p++; t = new Ty{Ty::Arr}; t->n = strtoull(q.word().c_str(), 0, 10); if (!q.eatWord("x")) q.err("x"); t->el = parseTy(q); q.need(']'); }
  else if (*q.p == '<') { q.p++; q.ws(); if (*q.p == '{') { t = parseTy(q); t->packed = true; q.need('>'); } else { t = new Ty{Ty::Vec}; t->n = strtoull(q.word().c_str(), 0, 10); if (!q.eatWord("x")) q.err("x"); t->el = parseTy(q); q.need('>'); } }
  else {
    std::string w = q.word();
    if (w == "void") t = &tVoid; else if (w == "float") t = &tF32; else if (w == "double") t = &tF64; else if (w == "x86_fp80") t = &tF80; else if (w == "ptr") t = &tPtr;
    else if (w == "label") t = &tLabel; else if (w == "metadata" || w == "token") t = &tMeta; else if (w == "opaque") t = &tOpaque;
    else if (w.size() > 1 && w[0] == 'i') t = intTy(atoi(w.c_str() + 1)); else q.err("type " + w);
  }
  // function type suffix
  q.ws();
  if (*q.p == '(') { Ty* f = new Ty{Ty::Func}; f->el = t; q.p++; if (!q.eat(')')) { do { if (q.eatWord("...")) { f->vararg = true; break; } q.ws(); if (!strncmp(q.p, "...", 3)) { q.p += 3; f->vararg = true; break; } f->f.push_back(parseTy(q)); } while (q.eat(',')); q.need(')'); } return f; }
  return t;
}
uint64_t symAddr(const std::string& n0) {
  std::string n = n0; for (int i = 0; i < 5; i++) { auto a = M.aliases.find(n); if (a == M.aliases.end()) break; n = a->second; }
  auto f = M.funcs.find(n); if (f != M.funcs.end()) return f->second->addr;
  auto g = M.globals.find(n); if (g != M.globals.end()) return g->second->addr;
  throw std::runtime_error("unknown symbol @" + n);
}
struct FnCtx { std::unordered_map<std::string, int> regs, blocks; int n = 0; int reg(const std::string& s) { auto it = regs.find(s); if (it != regs.end()) return it->second; return regs[s] = n++; } int blk(const std::string& s) { auto it = blocks.find(s); if (it != blocks.end()) return it->second; int k = (int)blocks.size(); return blocks[s] = k; } };
static Op parseVal(P& q, Ty* t, FnCtx* fc);
static uint64_t gepConst(Ty* src, std::vector<std::pair<Ty*, E>>& idx) {
  uint64_t off = 0; Ty* t = src;
  for (size_t i = 0; i < idx.size(); i++) {
    int64_t v = (int64_t)sgn(idx[i].second->val, idx[i].second->w);
    if (i == 0) off += (uint64_t)v * tySize(src);
    else if (t->k == Ty::Struct) { layout(t); off += t->off[(size_t)v]; t = t->f[(size_t)v]; }
    else { t = t->el; off += (uint64_t)v * tySize(t); }
  }
  return off;
}
static Val zeroVal(Ty* t) {
  Val v; if (t->scalar()) { v.e = mkC(tyBits(t), 0); return v; }
  v.agg = std::make_shared<std::vector<Val>>();
  if (t->k == Ty::Struct) for (auto f : t->f) v.agg->push_back(zeroVal(f)); else if (t->k == Ty::Arr || t->k == Ty::Vec) { Val z = zeroVal(t->el); for (uint64_t i = 0; i < t->n; i++) v.agg->push_back(z); }
  return v;
}
static Val undefVal(Ty* t) {
  Val v; if (t->scalar()) { v.e = nullptr; return v; }
  v.agg = std::make_shared<std::vector<Val>>();
  if (t->k == Ty::Struct) for (auto f : t->f) v.agg->push_back(undefVal(f)); else if (t->k == Ty::Arr || t->k == Ty::Vec) { Val z = undefVal(t->el); for (uint64_t i = 0; i < t->n; i++) v.agg->push_back(z); }
  return v;
}
static Op parseTyped(P& q, FnCtx* fc) { Ty* t = parseTy(q); return parseVal(q, t, fc); }
static E bin2(const std::string& w, E a, E b) {
  K k = w == "add" ? K::Add : w == "sub" ? K::Sub : w == "mul" ? K::Mul : w == "shl" ? K::Shl : w == "lshr" ? K::LShr : w == "ashr" ? K::AShr : w == "and" ? K::And : w == "or" ? K::Or : K::Xor;
  return mkBin(k, a, b);
}
static Op parseVal(P& q, Ty* t, FnCtx* fc) {
  q.ws(); Op o; o.ty = t;
  char c = *q.p;
  if (c == '%') { q.p++; if (!fc) q.err("reg in const"); if (t->k == Ty::Label) { o.reg = fc->blk(q.name()); return o; } o.reg = fc->reg(q.name()); return o; }
  if (c == '@') { q.p++; std::string n = q.name(); o.c.e = mkC(64, symAddr(n)); return o; }
  if (c == 'c' && q.p[1] == '"') { q.p += 2; o.c.agg = std::make_shared<std::vector<Val>>(); while (*q.p != '"') { int ch; if (*q.p == '\\') { if (q.p[1] == '\\') { ch = '\\'; q.p += 2; } else { ch = (int)strtol(std::string(q.p + 1, 2).c_str(), 0, 16); q.p += 3; } } else ch = (unsigned char)*q.p++; Val v; v.e = mkC(8, ch); o.c.agg->push_back(v); } q.p++; return o; }
  if (c == '[' || c == '{' || c == '<') {
    bool packed = false; char close = c == '[' ? ']' : c == '{' ? '}' : '>'; q.p++;
    if (c == '<' ) { q.ws(); if (*q.p == '{') { q.p++; packed = true; close = '}'; } }
    o.c.agg = std::make_shared<std::vector<Val>>();
    q.ws(); if (!q.eat(close)) { do { Op x = parseTyped(q, fc); Val v = x.c; if (x.undef) v = undefVal(x.ty); o.c.agg->push_back(v); } while (q.eat(',')); q.need(close); }
    if (packed) q.need('>');
    return o;
  }
  if (c == '-' || isdigit((unsigned char)c)) {
    const char* s = q.p;
    if (t->k == Ty::F64 || t->k == Ty::F32) {
      if (c == '0' && q.p[1] == 'x') { q.p += 2; const char* h = q.p; while (isxdigit((unsigned char)*q.p)) q.p++; uint64_t bits = strtoull(std::string(h, q.p).c_str(), 0, 16); if (t->k == Ty::F64) o.c.e = mkC(64, bits); else { double d; memcpy(&d, &bits, 8); float f = (float)d; uint32_t b; memcpy(&b, &f, 4); if (d != d) b = (uint32_t)(((bits >> 63) << 31) | 0x7f800000u | ((bits >> 29) & 0x7fffff)); o.c.e = mkC(32, b); } return o; }
      char* end; double d = strtod(s, &end); q.p = end; if (t->k == Ty::F64) { uint64_t b; memcpy(&b, &d, 8); o.c.e = mkC(64, b); } else { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); o.c.e = mkC(32, b); } return o;
    }
    bool neg = c == '-'; if (neg) q.p++; u128 v = 0; while (isdigit((unsigned char)*q.p)) v = v * 10 + (*q.p++ - '0'); if (neg) v = (u128)0 - v; o.c.e = mkC(tyBits(t), v); return o;
  }
  const char* save = q.p; std::string w = q.word();
  if (t->k == Ty::F80) { // x86_fp80 0xK...
    o.undef = true; return o; }
  if (w == "true") { o.c.e = mkC(1, 1); return o; }
  if (w == "false") { o.c.e = mkC(1, 0); return o; }
  if (w == "null") { o.c.e = mkC(64, 0); return o; }
  if (w == "none") { return o; }
  if (w == "undef" || w == "poison") { o.undef = true; if (!t->scalar()) { o.undef = false; o.c = undefVal(t); } return o; }
  if (w == "zeroinitializer") { o.c = zeroVal(t); return o; }
  if (w == "getelementptr") {
    while (q.eatWord("inbounds") || q.eatWord("nuw") || q.eatWord("nusw")) {} if (q.eatWord("inrange")) q.skipBalanced('(', ')');
    q.need('('); Ty* src = parseTy(q); q.need(','); Op b = parseTyped(q, fc); std::vector<std::pair<Ty*, E>> ix; while (q.eat(',')) { q.eatWord("inrange"); Op x = parseTyped(q, fc); ix.push_back({x.ty, x.c.e}); } q.need(')');
    uint64_t off = gepConst(src, ix); o.c.e = mkBin(K::Add, b.c.e, mkC(64, off)); return o;
  }
  if (w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "trunc" || w == "zext" || w == "sext" || w == "addrspacecast") {
    q.need('('); Op a = parseTyped(q, fc); if (!q.eatWord("to")) q.err("to"); Ty* d = parseTy(q); q.need(')'); int dw = tyBits(d); E x = a.c.e;
    if (w == "sext") x = mkSExt(x, dw); else if (dw > x->w) x = mkZExt(x, dw); else if (dw < x->w) x = mkExtract(x, 0, dw); o.c.e = x; return o;
  }
  if (w == "add" || w == "sub" || w == "mul" || w == "shl" || w == "lshr" || w == "ashr" || w == "and" || w == "or" || w == "xor") {
    while (q.eatWord("nuw") || q.eatWord("nsw") || q.eatWord("exact")) {} q.need('('); Op a = parseTyped(q, fc); q.need(','); Op b = parseTyped(q, fc); q.need(')'); o.c.e = bin2(w, a.c.e, b.c.e); return o;
  }
  if (w == "icmp") { std::string pr = q.word(); q.need('('); Op a = parseTyped(q, fc); q.need(','); Op b = parseTyped(q, fc); q.need(')'); E r = mkEq(a.c.e, b.c.e); if (pr == "ne") r = mkNot1(r); else if (pr != "eq") q.err("const icmp " + pr); o.c.e = r; return o; }
  if (w == "select") { q.need('('); Op c0 = parseTyped(q, fc); q.need(','); Op a = parseTyped(q, fc); q.need(','); Op b = parseTyped(q, fc); q.need(')'); o.c.e = mkIte(c0.c.e, a.c.e, b.c.e); return o; }
  q.p = save; q.err("constant '" + w + "'");
}
static void emitBytes(const Val& v, Ty* t, std::vector<E>& out, uint64_t at) {
  if (t->scalar()) {
    uint64_t n = tySize(t); int bits = tyBits(t);
    if (!v.e) return; // undef
    E x = v.e; if (bits % 8) x = mkZExt(x, (bits + 7) / 8 * 8);
    for (uint64_t i = 0; i < n && i * 8 < x->w; i++) out[at + i] = mkExtract(x, (int)i * 8, 8);
    return;
  }
  layout(t);
  if (t->k == Ty::Struct) { for (size_t i = 0; i < t->f.size(); i++) emitBytes((*v.agg)[i], t->f[i], out, at + t->off[i]); }
  else if (t->k == Ty::Arr || t->k == Ty::Vec) { uint64_t s = tySize(t->el); for (uint64_t i = 0; i < t->n; i++) emitBytes((*v.agg)[i], t->el, out, at + i * s); }
}
void globalInit(Global* g, std::vector<E>& bytes) {
  bytes.assign(g->size, mkC(8, 0));
  if (!g->init) return;
  P q{g->init, M.text.data() + M.text.size()};
  if (q.peekWord("zeroinitializer")) return;
  Op o = parseVal(q, g->ty, nullptr);
  if (o.undef) return;
  emitBytes(o.c, g->ty, bytes, 0);
}
static const char* lineEnd(const char* p, const char* e) { const char* x = (const char*)memchr(p, '\n', e - p); return x ? x : e; }
static void skipAttrsToType(P& q) { // linkage, cconv, ret attrs
  for (;;) { q.ws(); if (isTyStart(q)) return; const char* s = q.p; std::string w = q.word(); if (w.empty()) q.err("attrs"); q.ws(); if (*q.p == '(') q.skipBalanced('(', ')'); if (w == "align") { q.word(); } if (q.p == s) q.err("attrs2"); }
}
static void parseFnHeader(const char* ls, const char* le, bool isdef) {
  P q{ls, le}; q.word(); // define/declare
  q.ws(); if (*q.p == '!') {} 
  while (q.eat('!')) { q.word(); q.ws(); if (*q.p == '!') { q.p++; q.word(); } }
  skipAttrsToType(q); Ty* rt = parseTy(q); q.ws(); if (*q.p != '@') q.err("fn name"); q.p++; std::string n = q.name();
  auto& f = M.funcs[n]; if (!f) { f = new Function; f->name = n; f->addr = objBase(M.nextId++); M.funcByAddr[f->addr] = f; }
  f->ret = rt; f->params.clear(); f->pnames.clear(); f->byvalSize.clear(); q.need('(');
  int un = 0;
  if (!q.eat(')')) {
    do { q.ws(); if (!strncmp(q.p, "...", 3)) { q.p += 3; f->vararg = true; break; }
      Ty* t = parseTy(q); uint64_t bv = 0; std::string pn;
      for (;;) { q.ws(); if (*q.p == ',' || *q.p == ')') break; if (*q.p == '%') { q.p++; pn = q.name(); break; } std::string w = q.word(); if (w.empty()) q.err("param"); if (w == "byval") { q.need('('); Ty* bt = parseTy(q); bv = tySize(bt); q.need(')'); } else { q.ws(); if (*q.p == '(') q.skipBalanced('(', ')'); else if (w == "align") q.word(); } }
      if (pn.empty()) pn = std::to_string(un); if (isdigit((unsigned char)pn[0])) un++;
      f->params.push_back(t); f->pnames.push_back(pn); f->byvalSize.push_back(bv);
    } while (q.eat(',')); q.need(')');
  }
  if (isdef) f->def = true;
}
void loadModule(const std::string& file) {
  std::ifstream in(file, std::ios::binary); if (!in) throw std::runtime_error("cannot open " + file); std::stringstream ss; ss << in.rdbuf(); M.text = ss.str();
  const char *p = M.text.data(), *e = p + M.text.size();
  std::vector<std::pair<const char*, const char*>> fnLines; std::vector<std::pair<const char*, const char*>> glLines;
  while (p < e) {
    const char* le = lineEnd(p, e);
    if (*p == '%') { // type def
      P q{p + 1, le}; std::string n = q.name(); q.need('='); q.eatWord("type"); q.ws(); M.typeDefs[n] = q.p;
    } else if (*p == '@') glLines.push_back({p, le});
    else if (!strncmp(p, "define ", 7)) { const char* hs = p; const char* hl = le; fnLines.push_back({hs, hl}); const char* b = le + 1; const char* x = b; for (;;) { const char* l2 = lineEnd(x, e); if (*x == '}') break; x = l2 + 1; } fnLines.back().second = hl; le = lineEnd(x, e);
      // stash body start: store via pointer map below
    } else if (!strncmp(p, "declare ", 8)) fnLines.push_back({p, le});
    else if (*p == '!' && isdigit((unsigned char)p[1])) {
      int id = atoi(p + 1); const char* eq = strchr(p, '='); 
      std::string s(eq + 1, le);
      auto num = [&](const char* key) -> int { size_t i = s.find(key); if (i == std::string::npos) return -1; return atoi(s.c_str() + i + strlen(key)); };
      if (s.find("!DILocation(") != std::string::npos) { M.dbgLoc[id] = {num("line: "), num("scope: !")}; }
      else if (s.find("!DISubprogram(") != std::string::npos) { M.scopeFile[id] = num("file: !"); size_t i = s.find("name: \""); if (i != std::string::npos) { size_t j = s.find('"', i + 7); M.scopeName[id] = s.substr(i + 7, j - i - 7); } }
      else if (s.find("!DILexicalBlock") != std::string::npos) { M.scopeFile[id] = num("file: !"); M.scopeParent[id] = num("scope: !"); }
      else if (s.find("!DIFile(") != std::string::npos) { size_t i = s.find("filename: \""); size_t j = s.find('"', i + 11); M.dbgFile[id] = s.substr(i + 11, j - i - 11); }
    }
    p = le + 1;
  }
  // first: names/addresses of globals
  std::vector<std::pair<Global*, P>> gl; std::vector<P> ctorInit;
  for (auto& l : glLines) {
    P q{l.first + 1, l.second}; std::string n = q.name(); q.need('='); bool isAlias = false, cst = false; bool ext = false;
    for (;;) { std::string w = q.word(); if (w == "global") break; if (w == "constant") { cst = true; break; } if (w == "alias") { isAlias = true; break; } if (w == "external" || w == "extern_weak") ext = true; if (w.empty()) q.err("global"); q.ws(); if (*q.p == '(') q.skipBalanced('(', ')'); }
    if (isAlias) { const char* at = nullptr; for (const char* x = q.p; x < l.second; x++) if (*x == '@') at = x; P r{at + 1, l.second}; M.aliases[n] = r.name(); continue; }
    if (n == "llvm.global_ctors") { std::string s(q.p, l.second); size_t i = 0; std::vector<std::pair<long, std::string>> v; while ((i = s.find("i32 ", i)) != std::string::npos) { if (s[i-2] != '{') { i++; continue; } long pr = atol(s.c_str() + i + 4); size_t a = s.find('@', i); size_t b = a + 1; while (b < s.size() && P::idc(s[b])) b++; v.push_back({pr, s.substr(a + 1, b - a - 1)}); i = b; } std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; }); for (auto& x : v) M.ctors.push_back(x.second); continue; }
    if (n.rfind("llvm.", 0) == 0) continue;
    Global* g = new Global; g->name = n; g->cst = cst; g->def = !ext; g->addr = objBase(M.nextId++); M.globals[n] = g; M.globalById[objId(g->addr)] = g; gl.push_back({g, q});
  }
  for (auto& l : fnLines) { bool d = *l.first == 'd' && l.first[2] == 'f'; parseFnHeader(l.first, l.second, d); if (d) { P q{l.first, l.second}; const char* at = (const char*)memchr(l.first, '@', l.second - l.first); P r{at + 1, l.second}; Function* f = M.funcs[r.name()]; f->body = l.second + 1; const char* x = f->body; while (*x != '}') x = lineEnd(x, e) + 1; f->bodyEnd = x; } }
  for (auto& [g, q] : gl) { P r = q; g->ty = parseTy(r); r.ws(); g->size = tySize(g->ty); if (g->def) g->init = r.p; else if (g->size == 0) g->size = 1; }
  for (auto& kv : M.funcs) { auto it = M.funcs.find("vp_stub." + kv.first); if (it != M.funcs.end() && it->second->def) kv.second->stub = it->second; }
}
std::string dbgStr(int id) {
  auto it = M.dbgLoc.find(id); if (it == M.dbgLoc.end()) return "?"; int sc = it->second.second; std::string file = "?", fn;
  for (int i = 0; i < 50 && sc >= 0; i++) { if (file == "?") { auto f = M.scopeFile.find(sc); if (f != M.scopeFile.end() && M.dbgFile.count(f->second)) file = M.dbgFile[f->second]; } if (M.scopeName.count(sc)) { fn = M.scopeName[sc]; break; } auto pp = M.scopeParent.find(sc); if (pp == M.scopeParent.end()) break; sc = pp->second; }
  size_t sl = file.rfind('/'); if (sl != std::string::npos) file = file.substr(sl + 1);
  return file + ":" + std::to_string(it->second.first) + (fn.empty() ? "" : " (" + fn + ")");
}
static const std::unordered_map<std::string, K> binops = {{"add", K::Add}, {"sub", K::Sub}, {"mul", K::Mul}, {"udiv", K::UDiv}, {"sdiv", K::SDiv}, {"urem", K::URem}, {"srem", K::SRem}, {"shl", K::Shl}, {"lshr", K::LShr}, {"ashr", K::AShr}, {"and", K::And}, {"or", K::Or}, {"xor", K::Xor}, {"fadd", K::FAdd}, {"fsub", K::FSub}, {"fmul", K::FMul}, {"fdiv", K::FDiv}, {"frem", K::FRem}};
static const std::unordered_map<std::string, O> casts = {{"trunc", O::Trunc}, {"zext", O::ZExt}, {"sext", O::SExt}, {"fptoui", O::FPToUI}, {"fptosi", O::FPToSI}, {"uitofp", O::UIToFP}, {"sitofp", O::SIToFP}, {"fptrunc", O::FPTrunc}, {"fpext", O::FPExt}, {"ptrtoint", O::PtrToInt}, {"inttoptr", O::IntToPtr}, {"bitcast", O::BitCast}, {"addrspacecast", O::BitCast}};
static const char* icmpn[] = {"eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"};
static const char* fcmpn[] = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"};
static void parseCall(P& q, Inst& in, FnCtx& fc, bool invoke) {
  skipAttrsToType(q); Ty* t = parseTy(q); if (t->k == Ty::Func) t = t->el; in.ty = t; q.ws();
  Op cal; cal.ty = &tPtr;
  if (*q.p == '@') { q.p++; std::string n = q.name(); for (int i = 0; i < 5; i++) { auto a = M.aliases.find(n); if (a == M.aliases.end()) break; n = a->second; } auto it = M.funcs.find(n); if (it == M.funcs.end()) q.err("call to unknown " + n); in.callee = it->second; }
  else if (q.peekWord("asm")) { cal.undef = true; q.word(); while (*q.p != '(') { if (*q.p == '"') { q.p++; while (*q.p != '"') q.p++; } q.p++; } }
  else cal = parseVal(q, &tPtr, &fc);
  in.ops.push_back(cal); q.need('(');
  if (!q.eat(')')) {
    do {
      Ty* at = parseTy(q);
      if (at->k == Ty::Meta) { int d = 0; for (;;) { if (*q.p == '(') d++; if (*q.p == ')') { if (!d) break; d--; } if (*q.p == ',' && !d) break; q.p++; } Op o; o.ty = at; in.ops.push_back(o); continue; }
      for (;;) { q.ws(); char c = *q.p; if (c == '%' || c == '@' || c == '-' || isdigit((unsigned char)c) || c == '[' || c == '{' || c == '<' || (c == 'c' && q.p[1] == '"')) break;
        const char* s = q.p; std::string w = q.word();
        if (w == "true" || w == "false" || w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "getelementptr" || w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "add" || w == "sub" || w == "trunc" || w == "select" || w == "icmp" || w == "none" || (w == "zext" && at->k == Ty::Int && false)) { q.p = s; break; }
        q.ws(); if (*q.p == '(') q.skipBalanced('(', ')'); else if (w == "align") q.word(); if (w.empty()) q.err("call arg"); }
      in.ops.push_back(parseVal(q, at, &fc));
    } while (q.eat(',')); q.need(')');
  }
  if (invoke) { const char* x = q.p; for (;;) { q.ws(); if (q.eatWord("to")) break; if (*q.p == '#') { q.p++; q.word(); continue; } if (*q.p == '[') { q.skipBalanced('[', ']'); continue; } if (q.word().empty()) { q.p = x; q.err("invoke"); } } q.eatWord("label"); q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); if (!q.eatWord("unwind")) q.err("unwind"); q.eatWord("label"); q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); }
}
void parseBody(Function* f) {
  if (f->parsed) return; f->parsed = true; FnCtx fc;
  int un = 0; for (auto& n : f->pnames) { f->paramRegs.push_back(fc.reg(n)); if (isdigit((unsigned char)n[0])) un++; }
  const char* p = f->body; const char* e = f->bodyEnd;
  // first line: label or entry
  bool first = true; int cur = -1; std::vector<std::pair<int, Block>> blks;
  std::vector<Block> blocks;
  auto startBlock = [&](const std::string& n) { cur = fc.blk(n); if ((int)blocks.size() <= cur) blocks.resize(cur + 1); blocks[cur].name = n; };
  while (p < e) {
    const char* le = lineEnd(p, M.text.data() + M.text.size());
    P q{p, le}; q.ws();
    if (q.p >= le) { p = le + 1; continue; }
    if (*p != ' ' && *p != '\t') { // label
      std::string n = q.name(); if (*q.p != ':') q.err("label"); startBlock(n); first = false; p = le + 1; continue;
    }
    if (first) { startBlock(std::to_string(un)); first = false; }
    // multi-line: switch and landingpad clauses, invoke continuation
    std::string joined; const char* ls = p;
    { const char* t = q.p; std::string l(t, le);
      bool sw = l.rfind("switch ", 0) == 0; bool lp = l.find(" = landingpad ") != std::string::npos; bool iv = l.find("invoke ") != std::string::npos && l.find("unwind label") == std::string::npos;
      if (sw && l.find(']') == std::string::npos) { const char* x = le; while (*x != ']') x++; le = lineEnd(x, M.text.data() + M.text.size()); }
      if (lp) { for (;;) { const char* n2 = le + 1; const char* l2 = lineEnd(n2, M.text.data() + M.text.size()); P r{n2, l2}; if (r.peekWord("cleanup") || r.peekWord("catch") || r.peekWord("filter")) le = l2; else break; } }
      if (iv) le = lineEnd(le + 1, M.text.data() + M.text.size());
      (void)ls;
      q.e = le; }
    Inst in; in.o = O::Unreachable;
    // debug location
    { std::string l(q.p, le); size_t d = l.rfind("!dbg !"); if (d != std::string::npos) in.dbg = atoi(l.c_str() + d + 6); }
    std::string resName; bool hasRes = false;
    if (*q.p == '%') { q.p++; resName = q.name(); q.need('='); hasRes = true; }
    std::string op = q.word(); bool skip = false;
    if (op == "tail" || op == "musttail" || op == "notail") op = q.word();
    auto bi = binops.find(op);
    if (bi != binops.end()) { in.o = O::Bin; in.sub = (int)bi->second; while (!isTyStart(q)) q.word(); Op a = parseTyped(q, &fc); q.need(','); Op b = parseVal(q, a.ty, &fc); in.ty = a.ty; in.ops = {a, b}; }
    else if (casts.count(op)) { in.o = casts.at(op); while (!isTyStart(q)) q.word(); Op a = parseTyped(q, &fc); if (!q.eatWord("to")) q.err("to"); in.ty = parseTy(q); in.ops = {a}; }
    else if (op == "icmp") { in.o = O::ICmp; std::string pr = q.word(); for (int i = 0; i < 10; i++) if (pr == icmpn[i]) in.sub = i; Op a = parseTyped(q, &fc); q.need(','); Op b = parseVal(q, a.ty, &fc); in.ty = a.ty->k == Ty::Vec ? a.ty : intTy(1); in.ops = {a, b}; }
    else if (op == "fcmp") { in.o = O::FCmp; std::string pr; for (;;) { pr = q.word(); bool hit = false; for (int i = 0; i < 16; i++) if (pr == fcmpn[i]) { in.sub = i; hit = true; } if (hit) break; } Op a = parseTyped(q, &fc); q.need(','); Op b = parseVal(q, a.ty, &fc); in.ty = intTy(1); in.ops = {a, b}; }
    else if (op == "fneg") { in.o = O::FNeg; while (!isTyStart(q)) q.word(); Op a = parseTyped(q, &fc); in.ty = a.ty; in.ops = {a}; }
    else if (op == "freeze") { in.o = O::Freeze; Op a = parseTyped(q, &fc); in.ty = a.ty; in.ops = {a}; }
    else if (op == "select") { in.o = O::Select; while (!isTyStart(q)) q.word(); Op c = parseTyped(q, &fc); q.need(','); Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); in.ty = a.ty; in.ops = {c, a, b}; }
    else if (op == "phi") { in.o = O::Phi; while (!isTyStart(q)) q.word(); in.ty = parseTy(q); do { q.need('['); Op v = parseVal(q, in.ty, &fc); q.need(','); q.ws(); q.p++; int b = fc.blk(q.name()); q.need(']'); in.phi.push_back({v, b}); q.ws(); if (*q.p == ',' ) { P r = q; r.p++; r.ws(); if (*r.p != '[') break; } } while (q.eat(',')); }
    else if (op == "br") { if (q.eatWord("label")) { in.o = O::Br; q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); } else { in.o = O::CondBr; Op c = parseTyped(q, &fc); in.ops = {c}; q.need(','); q.eatWord("label"); q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); q.need(','); q.eatWord("label"); q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); } }
    else if (op == "switch") { in.o = O::Switch; Op c = parseTyped(q, &fc); in.ops = {c}; q.need(','); q.eatWord("label"); q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); q.need('['); while (!q.eat(']')) { Op v = parseTyped(q, &fc); in.cases.push_back(v.c.e->val); q.need(','); q.eatWord("label"); q.ws(); q.p++; in.tgt.push_back(fc.blk(q.name())); } }
    else if (op == "ret") { in.o = O::Ret; if (!q.eatWord("void")) in.ops.push_back(parseTyped(q, &fc)); }
    else if (op == "unreachable") in.o = O::Unreachable;
    else if (op == "call") { in.o = O::Call; parseCall(q, in, fc, false); if (in.callee) { auto& n = in.callee->name; if (n.rfind("llvm.lifetime", 0) == 0 || n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.experimental.noalias", 0) == 0 || n.rfind("llvm.invariant", 0) == 0) skip = true; } }
    else if (op == "invoke") { in.o = O::Invoke; parseCall(q, in, fc, true); }
    else if (op == "landingpad") { in.o = O::LandingPad; in.ty = parseTy(q); for (;;) { if (q.eatWord("cleanup")) { in.cleanup = true; continue; } if (q.eatWord("catch")) { in.ops.push_back(parseTyped(q, &fc)); continue; } if (q.eatWord("filter")) { parseTyped(q, &fc); continue; } break; } }
    else if (op == "resume") { in.o = O::Resume; in.ops.push_back(parseTyped(q, &fc)); }
    else if (op == "alloca") { in.o = O::Alloca; q.eatWord("inalloca"); in.ety = parseTy(q); in.ty = &tPtr; if (q.eat(',')) { if (isTyStart(q)) in.ops.push_back(parseTyped(q, &fc)); } }
    else if (op == "load") { in.o = O::Load; q.eatWord("atomic"); q.eatWord("volatile"); in.ty = parseTy(q); q.need(','); in.ops.push_back(parseTyped(q, &fc)); }
    else if (op == "store") { in.o = O::Store; q.eatWord("atomic"); q.eatWord("volatile"); Op v = parseTyped(q, &fc); q.need(','); Op a = parseTyped(q, &fc); in.ops = {v, a}; }
    else if (op == "getelementptr") {
      in.o = O::Gep; in.ty = &tPtr; while (q.eatWord("inbounds") || q.eatWord("nuw") || q.eatWord("nusw")) {} in.ety = parseTy(q); q.need(','); in.ops.push_back(parseTyped(q, &fc)); Ty* t = in.ety; bool fst = true;
      while (q.eat(',')) { q.ws(); if (*q.p == '!') break; Op ix = parseTyped(q, &fc); 
        if (fst) { fst = false; if (ix.reg < 0) in.gepOff += (uint64_t)(int64_t)sgn(ix.c.e->val, ix.c.e->w) * tySize(in.ety); else { in.gep.push_back({(int)in.ops.size(), tySize(in.ety)}); in.ops.push_back(ix); } continue; }
        if (t->k == Ty::Struct) { layout(t); in.gepOff += t->off[(size_t)ix.c.e->val]; t = t->f[(size_t)ix.c.e->val]; }
        else { t = t->el; if (ix.reg < 0) in.gepOff += (uint64_t)(int64_t)sgn(ix.c.e->val, ix.c.e->w) * tySize(t); else { in.gep.push_back({(int)in.ops.size(), tySize(t)}); in.ops.push_back(ix); } }
      } }
    else if (op == "extractvalue") { in.o = O::ExtractValue; in.ops.push_back(parseTyped(q, &fc)); Ty* t = in.ops[0].ty; while (q.eat(',')) { q.ws(); if (*q.p == '!') break; uint64_t i = strtoull(q.word().c_str(), 0, 10); in.idx.push_back(i); t = t->k == Ty::Struct ? t->f[i] : t->el; } in.ty = t; }
    else if (op == "insertvalue") { in.o = O::InsertValue; Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); in.ops = {a, b}; in.ty = a.ty; while (q.eat(',')) { q.ws(); if (*q.p == '!') break; in.idx.push_back(strtoull(q.word().c_str(), 0, 10)); } }
    else if (op == "atomicrmw") { in.o = O::AtomicRMW; q.eatWord("volatile"); std::string k = q.word(); in.sub = k == "add" ? 0 : k == "sub" ? 1 : k == "xchg" ? 2 : k == "or" ? 3 : k == "and" ? 4 : 5; Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); in.ops = {a, b}; in.ty = b.ty; }
    else if (op == "cmpxchg") { in.o = O::CmpXchg; q.eatWord("weak"); q.eatWord("volatile"); Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); q.need(','); Op c = parseTyped(q, &fc); in.ops = {a, b, c}; Ty* st = new Ty{Ty::Struct}; st->f = {b.ty, intTy(1)}; in.ty = st; }
    else if (op == "fence") { skip = true; }
    else if (op == "extractelement") { in.o = O::ExtractElement; Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); in.ops = {a, b}; in.ty = a.ty->el; }
    else if (op == "insertelement") { in.o = O::InsertElement; Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); q.need(','); Op c = parseTyped(q, &fc); in.ops = {a, b, c}; in.ty = a.ty; }
    else if (op == "shufflevector") { in.o = O::ShuffleVector; Op a = parseTyped(q, &fc); q.need(','); Op b = parseTyped(q, &fc); q.need(','); Op c = parseTyped(q, &fc); in.ops = {a, b, c}; in.ty = c.ty; }
    else if (op == "va_arg") { in.o = O::VAArg; }
    else q.err("unknown instruction " + op);
    if (hasRes) in.res = fc.reg(resName);
    if (!skip) blocks[cur].ins.push_back(std::move(in));
    p = le + 1;
  }
  if (blocks.size() < fc.blocks.size()) blocks.resize(fc.blocks.size());
  // entry must be index of first block
  f->blocks = std::move(blocks); f->nregs = fc.n;
}
