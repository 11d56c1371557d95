// Native run time of the contract language.  Two uses:
//   replay FILE        feed the verifier's counterexample to the real code
//   random SEED N SECS run the contract as an executable specification on
//                      random inputs (the bounded stand-in, labelled as such)
// exit: 0 held, 1 contract violated, 3 replay diverged, 77 assumption not met.
#include "vp.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <time.h>
#include <typeinfo>
#include <exception>
#include <unistd.h>
struct Rec { std::string name; int w; uint64_t v; };
static bool g_random; static std::vector<Rec> g_vals; static size_t g_pos; static uint64_t g_s[2];
static jmp_buf g_jmp; static std::vector<Rec> g_log; static bool g_diverged; static std::map<std::string, uint64_t> g_fix;
static std::set<std::string> g_reached; static uint64_t g_asserts; static std::string g_cur; static const char* g_logfile;
static uint64_t rnd() { uint64_t a = g_s[0], b = g_s[1]; g_s[0] = b; a ^= a << 23; g_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return g_s[1] + b; }
static uint64_t msk(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t biased(int w) {
  uint64_t r = rnd();
  switch (r & 15) {
    case 0: return 0; case 1: return 1; case 2: return msk(w); case 3: return 1ull << (w - 1);
    case 4: return msk(w) >> 1; case 5: case 6: return (r >> 8) & 15; case 7: return (r >> 8) & 255; case 8: return msk(w) - ((r >> 8) & 15);
    case 9: return 1ull << ((r >> 8) % w); default: return rnd();
  }
}
static void dumpLog() {
  if (!g_logfile) return;
  FILE* f = fopen(g_logfile, "w"); if (!f) return;
  for (auto& r : g_log) fprintf(f, "%s %d %llx\n", r.name.c_str(), r.w, (unsigned long long)r.v);
  fclose(f);
}
static uint64_t take(const char* n, int w) {
  uint64_t v = 0;
  if (g_random) v = biased(w) & msk(w);
  else if (g_pos < g_vals.size()) { const Rec& r = g_vals[g_pos++]; if (r.name != n) g_diverged = true; v = r.v & msk(w); }
  else { g_diverged = true; }
  g_log.push_back({n, w, v});
  return v;
}
static void fail(const std::string& what) {
  printf("CONTRACT-VIOLATED %s\n", what.c_str()); dumpLog();
  for (size_t i = 0; i < g_log.size() && i < 400; ++i) printf("  input %s = 0x%llx\n", g_log[i].name.c_str(), (unsigned long long)g_log[i].v);
  fflush(stdout); _exit(1);
}
extern "C" {
uint8_t vp_nd_u8(const char* n) { return (uint8_t)take(n, 8); }
uint16_t vp_nd_u16(const char* n) { return (uint16_t)take(n, 16); }
uint32_t vp_nd_u32(const char* n) { return (uint32_t)take(n, 32); }
uint64_t vp_nd_u64(const char* n) { return take(n, 64); }
bool vp_nd_bool(const char* n) { return take(n, 8) & 1; }
double vp_nd_double(const char* n) {
  uint64_t u;
  if (g_random) {
    double d; uint64_t r = rnd();
    switch (r & 7) { case 0: d = 0; break; case 1: d = (double)(int64_t)(rnd() % 2001) - 1000; break; case 2: d = ((double)(int64_t)(rnd() % 200001) - 100000) / 8.0; break; case 3: d = (double)(int64_t)rnd(); break; case 4: d = (double)(int32_t)rnd(); break; default: { uint64_t b = biased(64); memcpy(&d, &b, 8); } }
    memcpy(&u, &d, 8); g_log.push_back({n, 64, u});
  } else u = take(n, 64);
  double d; memcpy(&d, &u, 8); return d;
}
float vp_nd_float(const char* n) { uint32_t u = (uint32_t)take(n, 32); float f; memcpy(&f, &u, 4); return f; }
void vp_nd_bytes(void* p, uint64_t k, const char* n) { for (uint64_t i = 0; i < k; ++i) ((uint8_t*)p)[i] = (uint8_t)take(n, 8); }
void vp_assume(bool c) { if (!c) longjmp(g_jmp, 1); }
void vp_assert(bool c, const char* l) { ++g_asserts; if (!c) fail(l); }
void vp_reach(const char* l) { if (g_random) g_reached.insert(l); }
uint64_t vp_choose(uint64_t n, const char* nm) {
  if (g_random) { if (!n) longjmp(g_jmp, 1); uint64_t v; auto it = g_fix.find(nm); if (it != g_fix.end()) { v = it->second; if (v >= n) longjmp(g_jmp, 1); } else v = rnd() % n; g_log.push_back({nm, 64, v}); return v; }
  uint64_t v = take(nm, 64); return n ? v % n : 0;
}
uint64_t vp_concrete_u64(uint64_t v) { return v; }
bool vp_is_symbolic() { return false; }
void vp_incomplete(const char*) {}
void vp_assumption(const char*) {}
void vp_path_end() { longjmp(g_jmp, 2); }
void vp_print(const char* n, uint64_t v) { if (!g_random) printf("  %s = 0x%llx\n", n, (unsigned long long)v); }
void vp_merge(bool) {}
bool vp_is_const(uint64_t) { return true; }
void vp_note(const char*) {}
void vp_unsupported(const char*) { longjmp(g_jmp, 1); }
}
#define X(n) extern "C" void vp_contract_##n();
#include "vp_entries.inc"
#undef X
static const struct { const char* n; void (*f)(); } kE[] = {
#define X(n) {#n, vp_contract_##n},
#include "vp_entries.inc"
};
#undef X
static void onAbort(int) { dumpLog(); const char* m = "CONTRACT-VIOLATED abort/assertion in the library\n"; (void)!write(1, m, strlen(m)); _exit(1); }
extern "C" void __asan_on_error() { dumpLog(); const char* m = "CONTRACT-VIOLATED memory error in the library\n"; (void)!write(1, m, strlen(m)); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=1:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0"; }
static int once(void (*f)()) {
  g_log.clear();
  int j = setjmp(g_jmp);
  if (j == 1) return 77;
  if (j == 2) return 0;
  try { f(); } catch (const std::exception& e) { fail(std::string("no-uncaught-exception: ") + typeid(e).name() + " " + e.what()); } catch (...) { fail("no-uncaught-exception"); }
  return 0;
}
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  void (*f)() = nullptr; for (auto& e : kE) if (!strcmp(e.n, argv[1])) f = e.f;
  if (!f) { printf("no entry\n"); return 2; }
  signal(SIGABRT, onAbort); g_logfile = getenv("VP_LOG"); std::set_terminate([] { fail("no-terminate"); });
  if (!strcmp(argv[2], "replay")) {
    std::ifstream in(argv[3]); std::string l;
    while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream is(l); Rec r; std::string h; is >> r.name >> r.w >> h; r.v = strtoull(h.c_str(), nullptr, 16); g_vals.push_back(r); }
    int r = once(f);
    printf("replay finished rc=%d diverged=%d consumed=%zu of %zu asserts=%llu\n", r, (int)g_diverged, g_pos, g_vals.size(), (unsigned long long)g_asserts);
    _exit(r ? r : g_diverged ? 3 : 0);
  }
  uint64_t seed = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10); double secs = atof(argv[5]);
  for (int i = 6; i < argc; ++i) { std::string t = argv[i]; auto q = t.find('='); if (q != std::string::npos) g_fix[t.substr(0, q)] = strtoull(t.c_str() + q + 1, nullptr, 10); }
  g_random = true; g_s[0] = seed * 0x9E3779B97F4A7C15ull + 1; g_s[1] = ~seed ^ 0xD1B54A32D192ED03ull; for (int i = 0; i < 20; ++i) rnd();
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); uint64_t ok = 0, disc = 0;
  for (uint64_t i = 0; i < n; ++i) {
    if (once(f) == 77) ++disc; else ++ok;
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
  }
  printf("RANDOM ok=%llu discarded=%llu asserts=%llu reached=", (unsigned long long)ok, (unsigned long long)disc, (unsigned long long)g_asserts); for (auto& r : g_reached) printf("%s,", r.c_str()); printf("\n"); fflush(stdout);
  _exit(0);
}
