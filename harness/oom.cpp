// Allocation failure (P34): every operation of the library is run in a fresh process with
// exactly one failing allocation, for every allocation with a distinct call stack (first,
// last and, thorough, further occurrences).  The failure must surface as std::bad_alloc (or
// have no effect), must leave the operands as they were, and must leave nothing behind:
// the same and other operations give the same results afterwards, and no memory is lost.
#include "mc.h"
#include "ops.cpp"
#include <csignal>
#include <new>
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/wait.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uintptr_t up;
static const u32 MAXA = 1u << 21;
struct Shared { u32 n; int thrown; bool hit; long live1, live2; char out[1 << 16], again[1 << 16], probe[1 << 16], opnd[4096]; u32 stack[MAXA]; };
static Shared* sh;
static bool armed; static u32 count, fail_at; static long live; static up stack_hi; static int frames = 48;
static __attribute__((noinline)) u32 where_am_i() {
  up* fp = (up*)__builtin_frame_address(0); u64 h = 1469598103934665603ULL;
  for (int i = 0; i < frames; ++i) { up* nx = (up*)fp[0]; u64 pc = fp[1]; h = (h ^ pc) * 1099511628211ULL; if (nx <= fp || (up)nx >= stack_hi - 16 || ((up)nx & 7)) break; fp = nx; }
  return (u32)(h ^ h >> 32);
}
static void* get(size_t n) {
  if (armed && !verif_paused) { if (sh && !fail_at && count < MAXA) sh->stack[count] = where_am_i(); if (++count == fail_at) { sh->hit = true; throw std::bad_alloc(); } }
  void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p;
}
static void put(void* p) { if (p) { --live; free(p); } }
void* operator new(size_t n) { return get(n); } void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { put(p); } void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); } void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

#if !defined(E_FLOAT_TYPE_EFX)                            // limbs of GMP and MPFR: their allocations do not fail, but count as memory that must not be lost
extern "C" void __gmp_set_memory_functions(void* (*)(size_t), void* (*)(void*, size_t, size_t), void (*)(void*, size_t));
static void* galloc(size_t n) { ++live; return malloc(n ? n : 1); } static void* grealloc(void* p, size_t, size_t n) { return realloc(p, n ? n : 1); } static void gfree(void* p, size_t) { if (p) { --live; free(p); } }
static void count_limbs() { __gmp_set_memory_functions(galloc, grealloc, gfree); }
#else
static void count_limbs() { }
#endif
static bool attempt(size_t i, Operands& o, u32 k, char* out) {   // true: it threw
  bool t = false; fail_at = k; count = 0; out[0] = 0; armed = true;
  try { std::string r = ops[i].f(o.a, o.b); armed = false; std::strncpy(out, r.c_str(), sizeof sh->out - 1); }
  catch (const std::bad_alloc&) { armed = false; t = true; sh->thrown = 1; } catch (...) { armed = false; t = true; sh->thrown = 2; }
  armed = false; verif_paused = 0; return t;
}
static bool PI_ONLY;
static const char* PROBES[] = {"a+b", "a*b", "a/b", "read", "fixed", "sqrt", "exp", "log", "sin", "pi", "factorial 30", "bernoulli 10", "prime 20", "zeta 4", "epsilon", "max", "to double", "z*w"};
static int child(size_t i, u32 k, bool warm, bool probes) {
  sh->n = 0; sh->thrown = 0; sh->hit = false; sh->live1 = sh->live2 = 0; sh->out[0] = sh->again[0] = sh->probe[0] = sh->opnd[0] = 0; fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(60);
    (void)NL::max(); (void)NL::min(); (void)NL::lowest(); (void)NL::epsilon(); (void)NL::infinity(); (void)NL::quiet_NaN(); (void)NL::round_error(); (void)NL::denorm_min(); (void)NL::signaling_NaN();   // noexcept by the C++ standard
    live = 0; Operands* o = new Operands; const std::string before = s(o->a) + s(o->b);
    if (warm) { attempt(i, *o, 0, sh->again); }
    attempt(i, *o, k, sh->out); sh->n = count;
    std::strncpy(sh->opnd, (s(o->a) + s(o->b) == before ? "" : "changed"), 100);
    int t = sh->thrown; attempt(i, *o, ~0u, sh->again); if (sh->thrown != t) sh->thrown |= 8;
    sh->live1 = live;
    attempt(i, *o, ~0u, sh->again);
    if (probes && !PI_ONLY) { std::string all; for (const char* p : PROBES) for (size_t j = 0; j < N; ++j) if (!strcmp(ops[j].op.name, p)) { Operands q; all += ops[j].f(q.a, q.b) + "|"; } std::strncpy(sh->probe, all.c_str(), sizeof sh->probe - 1); }
    sh->live2 = live; _exit(0);
  }
  int st; waitpid(pid, &st, 0); return st;
}
int main(int argc, char** argv) {
  using namespace mc; using std::string; using std::vector;
  Run R(argc, argv); const bool T = R.thorough; if (!T) frames = 4;
  count_limbs();
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  { pthread_attr_t a; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); stack_hi = (up)lo + sz; pthread_attr_destroy(&a); }
  const bool fft_only = argc > 1 && !strcmp(argv[argc - 1], "fft"), pi_only = argc > 1 && !strcmp(argv[argc - 1], "pi"); PI_ONLY = pi_only || fft_only;
  for (size_t i = 0; i < N; ++i) for (int warm = 0; warm < 2; ++warm) {
    const string nm = ops[i].op.name;
    if (fft_only && nm != "a*b" && nm != "a/b" && nm != "sqrt" && nm != "a+b") continue;   // products of many digits use a Fourier transform in allocated memory
    if (pi_only && !(nm.find("pi") == 0 || nm == "two_pi" || nm == "sqrt_pi" || nm == "a*b" || nm == "a/b" || nm == "sqrt" || nm == "read")) continue;
    if (!R.unit(S("%s.%s", warm ? "again" : "first", ops[i].op.name))) continue;
    int st = child(i, 0, warm, true); const u32 n = std::min(sh->n, MAXA);
    if (st != 0) { if (R.begin("none")) R.fail("%s does not return (status %x)", ops[i].op.name, st); continue; }
    const string want = sh->out, probe = sh->probe; const long l1 = sh->live1, l2 = sh->live2;
    // one representative per call stack
    std::map<u32, vector<u32>> at; for (u32 k = 0; k < n; ++k) at[sh->stack[k]].push_back(k + 1);
    std::set<u32> ks; for (auto& e : at) { auto& v = e.second; ks.insert(v.front()); if (T || !warm) ks.insert(v.back()); if (T) for (size_t m : {size_t(1), v.size() / 2, v.size() / 3}) if (m < v.size()) ks.insert(v[m]); }
    if (n <= (T ? 2000 : 100)) for (u32 k = 1; k <= n; ++k) ks.insert(k);
    R.count("allocations", n); R.count("blocks held at the end", l1); R.count("call stacks", at.size());
    for (u32 k : ks) {
      if (!R.begin(S("allocation %u", k))) continue;
      st = child(i, k, warm, T || ops[i].op.weight == 0); R.step(3); R.state(S("%s %u %d", ops[i].op.name, k, warm));
      if (st != 0) R.fail("%s: the process ends (status %x) when allocation %u fails", ops[i].op.name, st, k);
      else if (!sh->hit) R.count("failure not reached");
      else if (sh->thrown & 6) R.fail("%s: allocation %u fails: an exception other than bad_alloc", ops[i].op.name, k);
      else if (!(sh->thrown & 1) && want != sh->out) R.fail("%s: allocation %u fails: no exception, but %.200s instead of %.200s", ops[i].op.name, k, sh->out, want.c_str());
      else if (sh->opnd[0]) R.fail("%s: allocation %u fails: an operand is changed", ops[i].op.name, k);
      else if (sh->thrown & 8 || want != sh->again) R.fail("%s: after allocation %u failed: %.200s instead of %.200s", ops[i].op.name, k, sh->again, want.c_str());
      else if (sh->probe[0] && probe != sh->probe) R.fail("%s: after allocation %u failed: results of other operations change: %.200s", ops[i].op.name, k, sh->probe);
      else if (sh->live2 > l2 && sh->live1 > l1) R.fail("%s: allocation %u fails: %ld blocks of memory are lost", ops[i].op.name, k, sh->live1 - l1);
      if (sh->hit && !(sh->thrown & 1)) R.count("failures without effect");
    }
  }
  return R.finish();
}
