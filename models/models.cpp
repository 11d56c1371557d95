// Models of the parts of libstdc++ that exist only as compiled code (the
// trusted base of the proofs; listed in every evidence file).  Everything that
// libstdc++ provides as a template is *not* modelled: it is instantiated from
// the installed headers (prelude.h) and verified as ordinary code.
// Compiled with -fno-access-control.
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ios>
#include <istream>
#include <list>
#include <map>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <unordered_map>

extern "C" {
void vp_unsupported(const char* what);
bool vp_is_const(uint64_t v);
void vp_assumption(const char* what);
}

namespace std {
// ---------------------------------------------------------------- iostreams
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit),
      _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_size(8), _M_word(nullptr) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale::locale() throw() { _M_impl = nullptr; }
locale::locale(const locale& o) throw() { _M_impl = o._M_impl; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }

#define VP_IOS(C)                                                              \
  template <> void basic_ios<C>::init(basic_streambuf<C>* sb) {                 \
    ios_base::_M_init(); _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; \
    _M_fill = C(' '); _M_fill_init = true; _M_tie = nullptr; _M_exception = goodbit; \
    _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit; }            \
  template <> C basic_ios<C>::widen(char c) const { return static_cast<C>(c); } \
  template <> C basic_ios<C>::fill() const { return _M_fill; }                  \
  template <> C basic_ios<C>::fill(C c) { C o = _M_fill; _M_fill = c; return o; } \
  template <> basic_ostream<C>::sentry::sentry(basic_ostream<C>& os) : _M_ok(os.good()), _M_os(os) {} \
  template <> basic_ostream<C>::sentry::~sentry() {}
VP_IOS(char)
VP_IOS(wchar_t)

namespace {
template <typename C>
void PutNum(basic_ostream<C>& os, uint64_t v, bool neg) {
  C buf[72]; int n = 0;
  if (!vp_is_const(v)) {
    vp_assumption("text formatting of numbers is opaque");
    buf[n++] = C('#');
  } else {
    const auto base = os.flags() & ios_base::basefield;
    const unsigned b = base == ios_base::hex ? 16 : base == ios_base::oct ? 8 : 10;
    const bool up = (os.flags() & ios_base::uppercase) != 0;
    C tmp[72]; int k = 0;
    do { unsigned d = static_cast<unsigned>(v % b); tmp[k++] = C(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= b; } while (v);
    if (neg) buf[n++] = C('-');
    while (k) buf[n++] = tmp[--k];
  }
  streamsize w = os.width(); os.width(0);
  const bool left = (os.flags() & ios_base::adjustfield) == ios_base::left;
  if (!left) for (streamsize i = n; i < w; ++i) os.rdbuf()->sputc(os.fill());
  os.rdbuf()->sputn(buf, n);
  if (left) for (streamsize i = n; i < w; ++i) os.rdbuf()->sputc(os.fill());
}
template <typename C> void PutS(basic_ostream<C>& os, int64_t v) {
  const auto base = os.flags() & ios_base::basefield;
  if (vp_is_const(static_cast<uint64_t>(v)) && v < 0 && base != ios_base::hex && base != ios_base::oct) PutNum(os, 0 - static_cast<uint64_t>(v), true);
  else PutNum(os, static_cast<uint64_t>(v), false);
}
template <typename C> void PutD(basic_ostream<C>& os) { vp_assumption("text formatting of numbers is opaque"); os.rdbuf()->sputc(C('#')); }
}  // namespace
template <> template <> ostream& ostream::_M_insert<long>(long v) { PutS(*this, v); return *this; }
template <> template <> ostream& ostream::_M_insert<unsigned long>(unsigned long v) { PutNum(*this, v, false); return *this; }
template <> template <> ostream& ostream::_M_insert<long long>(long long v) { PutS(*this, v); return *this; }
template <> template <> ostream& ostream::_M_insert<unsigned long long>(unsigned long long v) { PutNum(*this, v, false); return *this; }
template <> template <> ostream& ostream::_M_insert<bool>(bool v) { PutNum(*this, v ? 1 : 0, false); return *this; }
template <> template <> ostream& ostream::_M_insert<double>(double) { PutD(*this); return *this; }
template <> template <> ostream& ostream::_M_insert<const void*>(const void*) { PutD(*this); return *this; }
template <> template <> wostream& wostream::_M_insert<long>(long v) { PutS(*this, v); return *this; }
template <> template <> wostream& wostream::_M_insert<unsigned long>(unsigned long v) { PutNum(*this, v, false); return *this; }
template <> template <> wostream& wostream::_M_insert<double>(double) { PutD(*this); return *this; }

// ------------------------------------------------------------------ std::list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
// --------------------------------------------------------------- unordered_map
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return n < 13 ? 13 : n; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t, std::size_t) const {
  return bkt == 1 ? std::pair<bool, std::size_t>(true, 13) : std::pair<bool, std::size_t>(false, 0);
}
}  // namespace __detail
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }  // a (bad but legal) hash

// --------------------------------------------------------------- std::map/set
// Binary search tree without rebalancing: the observable order is the same.
typedef _Rb_tree_node_base* NP;
typedef const _Rb_tree_node_base* CNP;
static NP Inc(NP x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static NP Dec(NP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
NP _Rb_tree_increment(NP x) throw() { return Inc(x); }
CNP _Rb_tree_increment(CNP x) throw() { return Inc(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() { return Dec(x); }
CNP _Rb_tree_decrement(CNP x) throw() { return Dec(const_cast<NP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x; if (p == h._M_right) h._M_right = x;
  }
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](NP u, NP v) {
    if (u->_M_parent == &h) h._M_parent = v; else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  NP nl = h._M_left, nr = h._M_right;
  if (z == nl) { nl = Inc(z); } if (z == nr) { nr = Dec(z); }
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    NP y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  h._M_left = nl; h._M_right = nr;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z;
}
bool uncaught_exception() throw() { return false; }
int uncaught_exceptions() noexcept { return 0; }
}  // namespace std

// ---------------------------------------------------------------- exceptions
extern "C" {
const char* vp_exc_what(void* self) { const char* m = reinterpret_cast<const char**>(self)[1]; return m ? m : ""; }
void vp_exc_dtor(void*) {}
extern const void* const vp_exc_vtable[5];
const void* const vp_exc_vtable[5] = {nullptr, nullptr, reinterpret_cast<const void*>(&vp_exc_dtor), reinterpret_cast<const void*>(&vp_exc_dtor), reinterpret_cast<const void*>(&vp_exc_what)};
#define VP_EXC(NAME, C1, C2, S1, S2, D1, D2)                                                                     \
  void vp_##NAME##_c1(void** s, const char* m) asm(C1); void vp_##NAME##_c1(void** s, const char* m) { s[0] = (void*)(vp_exc_vtable + 2); s[1] = const_cast<char*>(m); } \
  void vp_##NAME##_c2(void** s, const char* m) asm(C2); void vp_##NAME##_c2(void** s, const char* m) { vp_##NAME##_c1(s, m); } \
  void vp_##NAME##_s1(void** s, const std::string& m) asm(S1); void vp_##NAME##_s1(void** s, const std::string&) { vp_##NAME##_c1(s, "error"); } \
  void vp_##NAME##_s2(void** s, const std::string& m) asm(S2); void vp_##NAME##_s2(void** s, const std::string&) { vp_##NAME##_c1(s, "error"); } \
  void vp_##NAME##_d1(void*) asm(D1); void vp_##NAME##_d1(void*) {}                                              \
  void vp_##NAME##_d2(void*) asm(D2); void vp_##NAME##_d2(void*) {}
#define VP_S "RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
#define VP_EXCN(NAME, M) VP_EXC(NAME, "_ZNSt" M "C1EPKc", "_ZNSt" M "C2EPKc", "_ZNSt" M "C1E" VP_S, "_ZNSt" M "C2E" VP_S, "_ZNSt" M "D1Ev", "_ZNSt" M "D2Ev")
VP_EXCN(rt, "13runtime_error")
VP_EXCN(lg, "11logic_error")
VP_EXCN(ia, "16invalid_argument")
VP_EXCN(oor, "12out_of_range")
VP_EXCN(le, "12length_error")
}
// ------------------------------------------------------------------------ libc
extern "C" {
static int vp_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) noexcept {
  for (;; ++a, ++b) { int x = vp_lower((unsigned char)*a), y = vp_lower((unsigned char)*b); if (x != y) return x - y; if (x == 0) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n) noexcept {
  for (; n > 0; ++a, ++b, --n) { int x = vp_lower((unsigned char)*a), y = vp_lower((unsigned char)*b); if (x != y) return x - y; if (x == 0) return 0; }
  return 0;
}
int strncmp(const char* a, const char* b, size_t n) noexcept {
  for (; n > 0; ++a, ++b, --n) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x - y; if (x == 0) return 0; }
  return 0;
}
#undef isspace
#undef isdigit
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int tolower(int c) noexcept { return vp_lower(c); }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char* vp_strchr(const char* s, int c) asm("strchr");
char* vp_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return const_cast<char*>(s); if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
}
// ----------------------------------------------------------------------- expat
// The XML meta-data text is outside the verified properties: the parser model
// delivers an empty document.
extern "C" {
static int vp_xml_dummy;
void* vp_XML_ParserCreate(const char*) asm("XML_ParserCreate");
void* vp_XML_ParserCreate(const char*) { return &vp_xml_dummy; }
void vp_XML_ParserFree(void*) asm("XML_ParserFree");
void vp_XML_ParserFree(void*) {}
void vp_XML_SetUserData(void*, void*) asm("XML_SetUserData");
void vp_XML_SetUserData(void*, void*) {}
void vp_XML_SetElementHandler(void*, void*, void*) asm("XML_SetElementHandler");
void vp_XML_SetElementHandler(void*, void*, void*) {}
void vp_XML_SetCharacterDataHandler(void*, void*) asm("XML_SetCharacterDataHandler");
void vp_XML_SetCharacterDataHandler(void*, void*) {}
void vp_XML_SetXmlDeclHandler(void*, void*) asm("XML_SetXmlDeclHandler");
void vp_XML_SetXmlDeclHandler(void*, void*) {}
int vp_XML_Parse(void*, const char*, int, int) asm("XML_Parse");
int vp_XML_Parse(void*, const char*, int, int) { vp_assumption("XML parser (expat) delivers an empty document"); return 1; }
}

// Wall clock: any value.
extern "C" uint64_t vp_havoc_u64();
extern "C" int64_t vp_clock_now() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
extern "C" int64_t vp_clock_now() { return (int64_t)(vp_havoc_u64() >> 2); }
extern "C" int64_t vp_sclock_now() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
extern "C" int64_t vp_sclock_now() { return (int64_t)(vp_havoc_u64() >> 2); }
// --------------------------------------------------------------------- threads
// A std::thread runs when it is joined (the interleavings that matter are
// explored by the contracts, which call the work functions between user calls).
#include <thread>
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr state, void (*)()) {
  vp_assumption("a work thread runs at the points the contract names and when it is joined");
  _M_id._M_thread = reinterpret_cast<unsigned long>(state.release());
}
void thread::join() {
  _State* s = reinterpret_cast<_State*>(_M_id._M_thread);
  _M_id = id();
  s->_M_run();
  delete s;
}
}  // namespace std
extern "C" { char __libc_single_threaded = 1; }
// The name of the file in log messages (std::filesystem): opaque.
#include <string>
std::string vp_reader_filename(const void*) asm("vp_stub._ZNK3mdf9MdfReader8FilenameB5cxx11Ev");
__attribute__((used)) std::string vp_reader_filename(const void*) { return std::string(); }
// Paths (std::filesystem): file names are outside the verified properties; a
// path keeps its text and has no stem.
#include <filesystem>
namespace std::filesystem {
path::_List::_List() {}
path::_List::_List(const _List&) {}
path::_List& path::_List::operator=(const _List&) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
void path::_M_split_cmpts() {}
pair<const string*, size_t> path::_M_find_extension() const noexcept { return {nullptr, string::npos}; }
}  // namespace std::filesystem
// ------------------------------------------------------------------------ zlib
// Trusted contract of zlib: inflate is the inverse of deflate however the
// stream is cut into pieces, and a deflated stream is at most 13 bytes longer
// than its input (deflateBound).  The model stores: tag, length, bytes, padding.
#include <zlib.h>
#include <vector>
namespace {
struct VpZ { std::vector<uint8_t> buf; uint64_t at = 0; bool end = false; uint64_t need = 5; };
VpZ* Z(z_streamp s) { return reinterpret_cast<VpZ*>(s->state); }
}  // namespace
extern "C" {
int deflateInit_(z_streamp s, int, const char*, int) { s->state = reinterpret_cast<internal_state*>(new VpZ); return Z_OK; }
int deflate(z_streamp s, int flush) {
  VpZ* z = Z(s);
  vp_assumption("zlib: inflate inverts deflate, for any cutting into pieces; at most 13 bytes overhead");
  for (; s->avail_in > 0; --s->avail_in) z->buf.push_back(*s->next_in++);
  if (flush != Z_FINISH) return Z_OK;
  if (!z->end) {
    const uint64_t n = z->buf.size();
    const uint8_t head[5] = {0x78, uint8_t(n), uint8_t(n >> 8), uint8_t(n >> 16), uint8_t(n >> 24)};
    z->buf.insert(z->buf.begin(), head, head + 5);
    z->buf.insert(z->buf.end(), 8, 0);
    z->end = true;
  }
  uint64_t k = z->buf.size() - z->at;
  if (k > s->avail_out) k = s->avail_out;
  if (k > 0) memcpy(s->next_out, z->buf.data() + z->at, k);
  s->next_out += k; s->avail_out -= static_cast<uInt>(k); z->at += k;
  return z->at == z->buf.size() ? Z_STREAM_END : Z_OK;
}
int deflateEnd(z_streamp s) { delete Z(s); s->state = nullptr; return Z_OK; }
int inflateInit_(z_streamp s, const char*, int) { s->state = reinterpret_cast<internal_state*>(new VpZ); return Z_OK; }
int inflate(z_streamp s, int) {
  VpZ* z = Z(s);
  uint64_t total = 0;
  for (;;) {
    if (z->buf.size() >= 5) {
      if (z->buf[0] != 0x78) return Z_DATA_ERROR;
      total = 13 + (uint64_t(z->buf[1]) | uint64_t(z->buf[2]) << 8 | uint64_t(z->buf[3]) << 16 | uint64_t(z->buf[4]) << 24);
      if (z->buf.size() >= total) break;
    }
    if (s->avail_in == 0) break;
    z->buf.push_back(*s->next_in++); --s->avail_in;
  }
  if (total == 0) return Z_OK;
  const uint64_t have = z->buf.size() < total - 8 ? z->buf.size() : total - 8;
  uint64_t k = have - 5 - z->at;
  if (k > s->avail_out) k = s->avail_out;
  if (k > 0) memcpy(s->next_out, z->buf.data() + 5 + z->at, k);
  s->next_out += k; s->avail_out -= static_cast<uInt>(k); z->at += k;
  return z->buf.size() == total && z->at == total - 13 ? Z_STREAM_END : Z_OK;
}
int inflateEnd(z_streamp s) { delete Z(s); s->state = nullptr; return Z_OK; }
}
// ------------------------------------------------------------------- calendar
// Proleptic Gregorian calendar in the time zone UTC (times from 1970 on).
#include <ctime>
#include <locale>
namespace {
struct tm vp_tm;
struct tm* Civil(const time_t* t) {
  vp_assumption("the local time zone is UTC; the C library's calendar functions follow the Gregorian calendar");
  const uint64_t s = static_cast<uint64_t>(*t);
  const uint64_t z = s / 86400 + 719468, era = z / 146097, doe = z - era * 146097;
  const uint64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const uint64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  const uint64_t mon = mp + 3 - 12 * static_cast<uint64_t>(mp >= 10);
  vp_tm.tm_sec = static_cast<int>(s % 60);
  vp_tm.tm_min = static_cast<int>(s / 60 % 60);
  vp_tm.tm_hour = static_cast<int>(s / 3600 % 24);
  vp_tm.tm_mday = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
  vp_tm.tm_mon = static_cast<int>(mon - 1);
  vp_tm.tm_year = static_cast<int>(yoe + era * 400 + static_cast<uint64_t>(mon <= 2)) - 1900;
  vp_tm.tm_wday = static_cast<int>((s / 86400 + 4) % 7);
  vp_tm.tm_yday = 0;
  vp_tm.tm_isdst = 0;
  return &vp_tm;
}
template <typename It> void Digits(It& it, uint64_t v, unsigned n) {
  uint64_t p = 1;
  for (unsigned i = 1; i < n; ++i) p *= 10;
  for (; p > 0; p /= 10) *it++ = static_cast<char>('0' + v / p % 10);
}
}  // namespace
extern "C" {
struct tm* gmtime(const time_t* t) noexcept { return Civil(t); }
struct tm* localtime(const time_t* t) noexcept { return Civil(t); }
time_t mktime(struct tm* t) noexcept {
  const int64_t m = t->tm_mon + 1, y = t->tm_year + 1900 - static_cast<int64_t>(m <= 2);
  const uint64_t era = static_cast<uint64_t>(y) / 400, yoe = static_cast<uint64_t>(y) - era * 400;
  const uint64_t doy = (153 * static_cast<uint64_t>(m + 9 - 12 * static_cast<int64_t>(m > 2)) + 2) / 5 + static_cast<uint64_t>(t->tm_mday) - 1;
  const int64_t days = static_cast<int64_t>(era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy) - 719468;
  return ((days * 24 + t->tm_hour) * 60 + t->tm_min) * 60 + t->tm_sec;
}
time_t timegm(struct tm* t) noexcept { return mktime(t); }
}
namespace std {
template <> const time_put<char>& use_facet<time_put<char>>(const locale&) {
  alignas(time_put<char>) static char facet[sizeof(time_put<char>)];
  return *reinterpret_cast<const time_put<char>*>(facet);
}
template <> time_put<char>::iter_type time_put<char>::put(iter_type it, ios_base&, char_type, const tm* t, const char* b, const char* e) const {
  for (; b < e; ++b) {
    if (*b != '%' || b + 1 >= e) { *it++ = *b; continue; }
    ++b;
    if (*b == 'Y') Digits(it, static_cast<uint64_t>(t->tm_year + 1900), 4);
    else if (*b == 'm') Digits(it, static_cast<uint64_t>(t->tm_mon + 1), 2);
    else if (*b == 'd') Digits(it, static_cast<uint64_t>(t->tm_mday), 2);
    else if (*b == 'H') Digits(it, static_cast<uint64_t>(t->tm_hour), 2);
    else if (*b == 'M') Digits(it, static_cast<uint64_t>(t->tm_min), 2);
    else if (*b == 'S') Digits(it, static_cast<uint64_t>(t->tm_sec), 2);
    else vp_unsupported("time format");
  }
  return it;
}
}  // namespace std
