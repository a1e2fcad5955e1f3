// P30: several threads use the library at the same time.
//
// The library and ops.cpp are compiled by clang with -fsanitize=thread, but linked
// with this file instead of the sanitizer's run-time system. Every execution is a
// fresh process (nothing initialised) in which the threads are scheduled by this
// file: exactly one runs at a time, and control changes only at synchronisation
// operations (initialisation of function-local statics, atomics, mutexes, call_once)
// as the explorer decides. In every execution a vector-clock race detector watches
// every access to static and allocated memory, so executions that differ only in
// the order of unsynchronised accesses need not be tried; results are compared with
// those of the same operation alone.
#include "mc.h"
#include "ops.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sched.h>
#include <time.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t up;
extern "C" char __data_start, _end;
static const int MAXT = 3;
static __thread int me = -1;                       // controlled thread, or -1
static __thread int inrt = 0;

// ---- allocation: never reuses memory, so that addresses identify objects
static const size_t ARENA = size_t(12) << 30;
static char* arena; static std::atomic<size_t> bump{0};
static __attribute__((noinline)) void mkarena() {
  char* p = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(90);
  arena = p;
}
extern "C" {
struct Hdr { size_t n; long who; };
static void* fl[3][65];                            // freed by the thread that allocated them: not seen by others in between, unless that is a race of its own
void* malloc(size_t n) {
  const size_t k = (n + 15) >> 4;
  if (me >= 0 && k < 65 && fl[me][k]) { void* p = fl[me][k]; fl[me][k] = *(void**)p; ((Hdr*)p)[-1].n = n; return p; }
  if (!arena) mkarena();
  size_t t = (k ? k << 4 : 16) + 16; size_t o = bump.fetch_add(t); if (o + t > ARENA) _exit(91);
  Hdr* h = (Hdr*)(arena + o); h->n = n; h->who = me; return h + 1;
}
void free(void* p) {
  if (!p || me < 0) return;
  Hdr* h = (Hdr*)p - 1; const size_t k = (h->n + 15) >> 4;
  if (h->who == me && k && k < 65) { *(void**)p = fl[me][k]; fl[me][k] = p; }
}
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); __builtin_memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); size_t o = ((size_t*)p)[-2]; if (n <= o) return p; void* q = malloc(n); char* d = (char*)q; char* s = (char*)p; for (size_t i = 0; i < o; ++i) d[i] = s[i]; return q; }
void* memalign(size_t al, size_t n) { if (al <= 16) return malloc(n); up p = (up)malloc(n + al + 16); p = (p + 16 + al - 1) & ~(up)(al - 1); ((Hdr*)p)[-1].n = n; ((Hdr*)p)[-1].who = -2; return (void*)p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return 0; }
size_t malloc_usable_size(void* p) { return ((size_t*)p)[-2]; }
}

// ---- what an execution reports
struct Shared {
  std::atomic<int> verdict;                        // 0 running, 1 finished
  int kind;                                        // 1 race 2 deadlock 3 recursive initialisation
  up addr, pc, pc2; int is_write, was_write;
  u32 npoint; u8 nalt[4096], who[4096]; u32 steps;
  char out[MAXT][1 << 16];
  bool done[MAXT];
  u32 nfoot; up foot[2048];
  bool opwrite;                                    // writes to the shared operands
  u8 touched[1 << 19];                             // per 8 bytes of static memory: 1 read, 2 written, 4 written without holding a lock or initialising
};
static Shared* sh;
static void die(int kind) { sh->kind = kind; _exit(7); }

// ---- vector clocks and shadow memory
struct Cell { u32 w; u32 r[MAXT]; };               // w: thread << 28 | clock
static u32 VC[MAXT][MAXT]; static int NT; static bool solo;
static Cell *dshadow, *hshadow; static up dlo, dhi, hlo;
struct Sync { up a; u32 vc[MAXT]; int owner; int state; };   // state: 1 once a completed guard
static const size_t NS = 1 << 14; static Sync* syncs;
static Sync& sync_of(up a) { size_t h = (a >> 3) * 0x9E3779B97F4A7C15ULL >> 50; for (;;) { Sync& s = syncs[h & (NS - 1)]; if (s.a == a) return s; if (!s.a) { s.a = a; s.owner = -1; return s; } ++h; } }
static void foot(up a) { if (!solo) return; for (u32 i = 0; i < sh->nfoot; ++i) if (sh->foot[i] == a) return; if (sh->nfoot < 2048) sh->foot[sh->nfoot++] = a; }
static void acq(Sync& s) { for (int i = 0; i < NT; ++i) if (VC[me][i] < s.vc[i]) VC[me][i] = s.vc[i]; }
static void rel(Sync& s, bool join) { for (int i = 0; i < NT; ++i) if (!join || s.vc[i] < VC[me][i]) s.vc[i] = VC[me][i]; ++VC[me][me]; }
static __thread up lastpc[1];
static void race(up a, up pc, bool w, bool ww) { sh->addr = a; sh->pc = pc; sh->is_write = w; sh->was_write = ww; die(1); }
static inline void check(Cell& c, up a, bool w, up pc) {
  const u32 ct = c.w >> 28, cc = c.w & 0x0fffffff;
  if (cc && (int)ct != me && cc > VC[me][ct]) race(a, pc, w, true);
  if (w) { for (int i = 0; i < NT; ++i) if (i != me && c.r[i] > VC[me][i]) race(a, pc, w, false); c.w = (u32)me << 28 | VC[me][me]; }
  else c.r[me] = VC[me][me];
}
static __thread int held; static up olo, ohi;
static inline void access(up a, size_t n, bool w, up pc) {
  if (me < 0) return;
  if (a >= dlo && a < dhi) { if (solo) { for (size_t i = (a - dlo) >> 3; i <= (a + n - 1 - dlo) >> 3; ++i) if (i < sizeof sh->touched) sh->touched[i] |= !w ? 1 : held ? 2 : 6; return; } for (size_t i = 0; i < n; ++i) check(dshadow[a - dlo + i], a + i, w, pc); }
  else if (solo) { if (w && a >= olo && a < ohi) sh->opwrite = true; }
  else if (a - hlo < ARENA) for (size_t i = (a - hlo) >> 3; i <= (a + n - 1 - hlo) >> 3; ++i) check(hshadow[i], a, w, pc);
}
#define PC ((up)__builtin_return_address(0))
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { } void __tsan_func_exit() { }
void __tsan_vptr_read(void** p) { access((up)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((up)p, 8, true, PC); }
#define RW(n) void __tsan_read##n(void* p) { access((up)p, n, false, PC); } void __tsan_write##n(void* p) { access((up)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access((up)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access((up)p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access((up)p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { access((up)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access((up)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access((up)p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((up)s, n, false, PC); access((up)d, n, true, PC); } return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((up)s, n, false, PC); access((up)d, n, true, PC); } return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access((up)d, n, true, PC); return __builtin_memset(d, c, n); }
}

static inline bool ours(up a) { return (a >= dlo && a < dhi) || a - hlo < ARENA; }   // synchronisation inside the C++ library is left to it
// ---- the scheduler
static std::atomic<int> turn{-1}; static bool finished[MAXT]; static up blocked[MAXT]; static std::atomic<int> alive{0};
static const u8* prefix; static u32 nprefix;
static up* ofoot[MAXT]; static u32 nofoot[MAXT];      // what each thread synchronises on when alone (sorted), or null
static void fwait(int v) { syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake() { syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 100, nullptr, nullptr, 0); }
static void wait_turn(int t) { for (int v; (v = turn.load()) != t;) fwait(v); }
static void to(int t) { if (t == me) return; int m = me; turn.store(t); fwake(); wait_turn(m); }
static bool in_foot(int t, up a) { if (!ofoot[t] || a < dlo || a >= dhi) return true; u32 l = 0, h = nofoot[t]; while (l < h) { u32 m = (l + h) / 2; if (ofoot[t][m] < a) l = m + 1; else h = m; } return l < nofoot[t] && ofoot[t][l] == a; }
static __thread up lastpoint; static __thread u32 spins;
static int choose(const int* c, int n) {                // c[0]: the thread that goes on
  if (n == 1) return c[0];
  u32 i = sh->npoint; int k = i < nprefix ? prefix[i] : 0;
  if (i < sizeof sh->nalt) { sh->nalt[i] = (u8)n; sh->who[i] = (u8)c[0]; ++sh->npoint; }
  return c[k < n ? k : 0];
}
static void point(up a) {
  ++sh->steps; foot(a); if (solo) return;
  if (lastpoint == a) { if (++spins > 200) { spins = 0; for (int i = 1; i < NT; ++i) { int t = (me + i) % NT; if (!finished[t] && !blocked[t]) { to(t); return; } } die(2); } } else { lastpoint = a; spins = 0; }
  int c[MAXT], n = 0; c[n++] = me;
  for (int t = 0; t < NT; ++t) if (t != me && !finished[t] && !blocked[t] && in_foot(t, a)) c[n++] = t;
  to(choose(c, n));
}
static void block(up a) {                                // until unblock(a)
  blocked[me] = a; int c[MAXT], n = 0;
  for (int t = 0; t < NT; ++t) if (t != me && !finished[t] && !blocked[t]) c[n++] = t;
  if (!n) { sh->addr = a; die(2); }
  to(choose(c, n));
}
static void unblock(up a) { for (int t = 0; t < NT; ++t) if (blocked[t] == a) blocked[t] = 0; }
extern "C" {
int __cxa_guard_acquire(u64* g) {
  u8* b = (u8*)g;
  if (me < 0) return *b ? 0 : 1;
  if (lastpoint != (up)g) point((up)g);
  for (;;) {
    Sync& s = sync_of((up)g);
    if (*b) { acq(s); return 0; }
    if (s.owner < 0) { s.owner = me; ++held; return 1; }
    if (s.owner == me) { sh->addr = (up)g; die(3); }
    block((up)g);
  }
}
void __cxa_guard_release(u64* g) { *(u8*)g = 1; if (me < 0) { sync_of((up)g).state = 1; return; } --held; Sync& s = sync_of((up)g); rel(s, false); s.owner = -1; s.state = 1; unblock((up)g); lastpoint = 0; }
void __cxa_guard_abort(u64* g) { if (me < 0) return; --held; Sync& s = sync_of((up)g); s.owner = -1; unblock((up)g); lastpoint = 0; }
// mutexes: the owner is kept in the table
int pthread_mutex_lock(pthread_mutex_t* m) { if (me < 0 || !ours((up)m)) return 0; point((up)m); for (;;) { Sync& s = sync_of((up)m); if (s.owner < 0) { s.owner = me; ++s.state; ++held; acq(s); return 0; } if (s.owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { ++s.state; return 0; } block((up)m); } }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (me < 0 || !ours((up)m)) return 0; point((up)m); Sync& s = sync_of((up)m); if (s.owner >= 0 && !(s.owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE)) return EBUSY; if (s.owner < 0) ++held; s.owner = me; ++s.state; acq(s); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (me < 0 || !ours((up)m)) return 0; Sync& s = sync_of((up)m); if (s.owner != me) return EPERM; if (--s.state == 0) { --held; rel(s, true); s.owner = -1; unblock((up)m); lastpoint = 0; } return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (me < 0 || !ours((up)o)) { if (*o != 2) { f(); *o = 2; } return 0; }
  point((up)o);
  for (;;) { Sync& s = sync_of((up)o); if (*o == 2) { acq(s); return 0; } if (s.owner < 0) { s.owner = me; ++held; f(); --held; Sync& q = sync_of((up)o); *o = 2; rel(q, true); q.owner = -1; unblock((up)o); lastpoint = 0; return 0; } if (s.owner == me) { sh->addr = (up)o; die(3); } block((up)o); }
}
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define REL(mo) ((mo) >= 3)
static bool apoint(up a, bool ld8) { if (me < 0 || !ours(a)) return false; Sync& s = sync_of(a); if (ld8 && s.state == 1 && *(u8*)a) return true; point(a); return true; }
#define ATOMIC(n, T) \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { bool c = apoint((up)p, n == 8); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (c && ACQ(mo)) acq(sync_of((up)p)); return v; } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { bool c = apoint((up)p, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); if (c) { Sync& s = sync_of((up)p); if (REL(mo)) rel(s, false); else for (int i = 0; i < MAXT; ++i) s.vc[i] = 0; } } \
  static inline void rmw##n(volatile T* p, int mo) { if (me < 0 || !ours((up)p)) return; Sync& s = sync_of((up)p); if (ACQ(mo)) acq(s); if (REL(mo)) rel(s, true); } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { apoint((up)p, false); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); rmw##n(p, mo); return r; } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { apoint((up)p, false); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); rmw##n(p, mo); return r; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { apoint((up)p, false); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); rmw##n(p, mo); return r; } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { apoint((up)p, false); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); rmw##n(p, mo); return r; } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { apoint((up)p, false); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); rmw##n(p, mo); return r; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) { apoint((up)p, false); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); rmw##n(p, mo); return r; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fm) { apoint((up)p, false); int r = __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) rmw##n(p, mo); else if (me >= 0 && ours((up)p) && ACQ(fm)) acq(sync_of((up)p)); return r; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fm) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, fm); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fm) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, mo, fm); return e; }
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int) { } void __tsan_atomic_signal_fence(int) { }
}

// ---- executions
struct Job { size_t op; void* operands; int id; };
static void* body(void* p) {
  Job* j = (Job*)p; wait_turn(j->id); me = j->id;
  verif_op(j->op, j->operands, sh->out[j->id], sizeof sh->out[0]);
  sh->done[me] = true; finished[me] = true; int m = me; (void)m;
  int c[MAXT], n = 0; for (int t = 0; t < NT; ++t) if (!finished[t] && !blocked[t]) c[n++] = t;
  int next = -2; if (n) next = solo ? c[0] : choose(c, n); else for (int t = 0; t < NT; ++t) if (!finished[t]) { sh->addr = blocked[t]; die(2); }
  me = -1; turn.store(next); fwake();
  return nullptr;
}
static char scratch[1 << 16];
// mode 0: nothing was used before; 1: text was read and written before, own operands; 2: the threads share the operands
static int execute(const std::vector<size_t>& ops, int mode, const std::vector<u8>& pre, u64 id) {
  (void)id; sh->kind = 0; sh->npoint = sh->steps = sh->nfoot = 0; for (int i = 0; i < MAXT; ++i) { sh->done[i] = false; sh->out[i][0] = 0; }
  if (solo) { memset(sh->touched, 0, (dhi - dlo) / 8 + 1); sh->opwrite = false; }
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(80);
    NT = (int)ops.size(); prefix = pre.data(); nprefix = (u32)pre.size(); hlo = (up)arena;
    for (int i = 0; i < NT; ++i) VC[i][i] = 1;
    void* o = nullptr; if (mode) { olo = (up)arena + bump; void* w = verif_operands(); ohi = (up)arena + bump; verif_op(0, w, scratch, sizeof scratch); if (mode == 2) o = w; }
    static Job jobs[MAXT]; pthread_t th[MAXT];
    for (int i = 0; i < NT; ++i) { jobs[i] = Job{ops[i], o, i}; if (pthread_create(&th[i], nullptr, body, &jobs[i])) _exit(92); }
    int c[MAXT]; for (int i = 0; i < NT; ++i) c[i] = i;
    turn.store(choose(c, NT)); fwake(); wait_turn(-2);
    for (int i = 0; i < NT; ++i) pthread_join(th[i], nullptr);
    _exit(0);
  }
  int st; waitpid(pid, &st, 0); return st;
}
static std::string sh_cmd(const std::string& c) { std::string r; FILE* f = popen(c.c_str(), "r"); if (!f) return r; char b[1024]; while (fgets(b, sizeof b, f)) r += b; pclose(f); return r; }
static char self[4096]; static up base;
static std::string where(up a) {
  std::string r = sh_cmd(std::string("nm -C ") + self + " 2>/dev/null"); up best = 0; std::string name = "heap"; if (a < dlo || a >= dhi) return a ? "allocated memory" : "?";
  size_t p = 0; while (p < r.size()) { size_t q = r.find('\n', p); if (q == std::string::npos) break; std::string l = r.substr(p, q - p); p = q + 1; if (l.size() < 20 || l[0] == ' ') continue; up v = strtoull(l.c_str(), nullptr, 16); char t = l[17]; if (!strchr("bBdDvVuU", t)) continue; if (v <= a - base && v >= best) { best = v; name = l.substr(19); } }
  return name;
}
static std::string code(up pc) { if (!pc) return "?"; std::string r = sh_cmd(std::string("addr2line -Cfe ") + self + mc::S(" %lx 2>/dev/null", (unsigned long)(pc - base))); return r.substr(0, r.find('\n')); }
struct Foot { std::vector<up> sync; std::vector<u32> rd, wr, naked; bool opwrite; std::string out; bool ok; u32 points; bool skip = false; };
int main(int argc, char** argv) {
  using namespace mc; using std::string; using std::vector;
  Run R(argc, argv); const bool T = R.thorough;
  { ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1); self[k > 0 ? k : 0] = 0; Dl_info di; dladdr((void*)&sh_cmd, &di); base = (up)di.dli_fbase; }
  { cpu_set_t all, one; if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 1) { int k = getpid() % CPU_COUNT(&all); CPU_ZERO(&one); for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && !k--) CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); } }   // one thread runs at a time anyway
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  dlo = (up)&__data_start; dhi = (up)&_end;
  if ((dhi - dlo) >> 3 > sizeof sh->touched) { fprintf(stderr, "static memory too large\n"); return 3; }
  dshadow = (Cell*)mmap(nullptr, (dhi - dlo) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hshadow = (Cell*)mmap(nullptr, ARENA / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  syncs = (Sync*)mmap(nullptr, NS * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const VerifOp* op; const size_t n = verif_ops(&op);
  vector<Foot> F(n);
  // with an argument: only what calculates or uses pi (configurations too long for the tables)
  // alone: result, synchronisation objects and static memory touched; and the result in the only thread of a process: not even the thread it runs in may matter.
  // The workers share this through a file (addresses relative, as every process is laid out differently).
  struct Slot { std::atomic<int> state; u32 nfoot, points; bool opwrite, ok; up foot[2048]; char out[1 << 16], mainout[1 << 16]; u8 touched[1 << 19]; };
  const u64 HEAP = u64(1) << 62; const size_t words = (dhi - dlo) >> 3;
  Slot* slots = nullptr; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--claims")) { int fd = open((string(argv[i + 1]) + ".foot").c_str(), O_RDWR | O_CREAT, 0644); if (fd >= 0 && ftruncate(fd, n * sizeof(Slot)) == 0) { void* p = mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) slots = (Slot*)p; } }
  if (!slots) slots = (Slot*)mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hlo = (up)arena;
  auto measure = [&](size_t i) {
    Slot& s = slots[i]; R.cur->beat.fetch_add(1);
    int st = execute({i}, 2, {}, 0); bool ok = st == 0 && sh->done[0]; memcpy(s.out, sh->out[0], sizeof s.out); s.nfoot = sh->nfoot; s.points = sh->steps; s.opwrite = sh->opwrite;
    for (u32 k = 0; k < s.nfoot; ++k) { up x = sh->foot[k]; s.foot[k] = x >= dlo && x < dhi ? x - dlo : HEAP | (x - (up)arena); }
    for (size_t k = 0; k < words; ++k) if (sh->touched[k] != s.touched[k]) s.touched[k] = sh->touched[k];
    sh->out[0][0] = 0; fflush(nullptr); pid_t pid = fork(); if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(80); verif_op(i, nullptr, sh->out[0], sizeof sh->out[0]); _exit(0); } waitpid(pid, &st, 0); memcpy(s.mainout, sh->out[0], sizeof s.mainout);
    s.ok = ok && st == 0; s.state.store(2); };
  solo = true;
  for (size_t i = 0; i < n; ++i) { int z = 0; if (!F[i].skip && slots[i].state.compare_exchange_strong(z, 1)) measure(i); }
  vector<string> mainout(n);
  for (size_t i = 0; i < n; ++i) { Foot& f = F[i]; if (f.skip) { f.ok = false; continue; } Slot& s = slots[i];
    for (int w = 0; s.state.load() != 2; ++w) { if (w > 3000) { measure(i); break; } usleep(10000); R.cur->beat.fetch_add(1); }   // its worker may have died
    f.ok = s.ok; f.out = s.out; mainout[i] = s.mainout; f.points = s.points; f.opwrite = s.opwrite;
    for (u32 k = 0; k < s.nfoot; ++k) f.sync.push_back(s.foot[k] & HEAP ? (up)arena + (s.foot[k] & ~HEAP) : dlo + s.foot[k]); std::sort(f.sync.begin(), f.sync.end());
    for (size_t k = 0; k < words; ++k) if (s.touched[k]) { f.rd.push_back((u32)k); if (s.touched[k] & 2) f.wr.push_back((u32)k); if (s.touched[k] & 4) f.naked.push_back((u32)k); } }
  solo = false;
  if (argc > 1 && !strcmp(argv[argc - 1], "pi")) for (size_t i = 0; i < n; ++i) { const string s = op[i].name; F[i].skip = !(s.find("pi") == 0 || s == "two_pi" || s == "sqrt_pi" || s == "a*b" || s == "a/b" || s == "sqrt" || s == "read"); }
  if (getenv("CONC_STAT")) for (size_t i = 0; i < n; ++i) { size_t w = F[i].wr.size(); if (strcmp(getenv("CONC_STAT"), op[i].name) == 0) { for (up x : F[i].sync) fprintf(stderr, "  sync %s\n", where(x).c_str()); for (u32 k : F[i].wr) fprintf(stderr, "  writes %s\n", where(dlo + 8 * (up)k).c_str()); } fprintf(stderr, "%-24s ok %d points %u sync %zu statics written %zu unguarded %zu operands %d\n", op[i].name, F[i].ok, F[i].points, F[i].sync.size(), w, F[i].naked.size(), F[i].opwrite); }
  auto meet = [](const auto& x, const auto& y) { size_t i = 0, j = 0; while (i < x.size() && j < y.size()) { if (x[i] == y[j]) return true; if (x[i] < y[j]) ++i; else ++j; } return false; };
  auto dependent = [&](size_t a, size_t b) { return meet(F[a].wr, F[b].rd) || meet(F[a].rd, F[b].wr) || meet(F[a].sync, F[b].sync); };
  auto explore = [&](const vector<size_t>& ops, int mode, int bound, size_t maxrun) {
    vector<vector<u8>> stack{{}}; size_t runs = 0;
    for (size_t t = 0; t < ops.size(); ++t) { ofoot[t] = mode ? F[ops[t]].sync.data() : nullptr; nofoot[t] = (u32)F[ops[t]].sync.size(); }
    string names; for (size_t o : ops) names += string(names.empty() ? "" : " || ") + op[o].name;
    while (!stack.empty()) {
      vector<u8> p = stack.back(); stack.pop_back();
      int st = execute(ops, mode, p, 0); ++runs; R.step(sh->steps + 1);
      string sched; for (u8 c : p) sched += (char)('0' + c);
      { u64 h = fnv(R.cur_unit + R.cur_case + sched); R.state(h); }
      if (sh->kind == 1) { string w = where(sh->addr), c = code(sh->pc); R.fail("%s: data race on %s (%s in %s after an unordered %s) [schedule %s]", names.c_str(), w.c_str(), sh->is_write ? "write" : "read", c.c_str(), sh->was_write ? "write" : "read", sched.c_str()); return runs; }
      if (sh->kind == 2) { R.fail("%s: deadlock on %s [schedule %s]", names.c_str(), where(sh->addr).c_str(), sched.c_str()); return runs; }
      if (sh->kind == 3) { R.fail("%s: initialisation of %s needs itself [schedule %s]", names.c_str(), where(sh->addr).c_str(), sched.c_str()); return runs; }
      if (st != 0) { R.fail("%s: the process ends with status %x [schedule %s]", names.c_str(), st, sched.c_str()); return runs; }
      for (size_t t = 0; t < ops.size(); ++t) if (sh->out[t] != F[ops[t]].out) { R.fail("%s: %s gives %.160s, alone %.160s [schedule %s]", names.c_str(), op[ops[t]].name, sh->out[t], F[ops[t]].out.c_str(), sched.c_str()); return runs; }
      // alternatives after the prefix; the choice of the first thread and of one that replaces a blocked or finished thread is free
      int used = 0; for (size_t i = 1; i < p.size(); ++i) used += p[i] != 0;
      if (runs < maxrun) for (size_t i = p.size(); i < sh->npoint; ++i) for (int c = 1; c < sh->nalt[i]; ++c) { if (i > 0 && used + 1 > bound) continue; vector<u8> q = p; q.resize(i, 0); q.push_back((u8)c); stack.push_back(q); }
      if (runs >= maxrun && !stack.empty()) { R.count("pairs cut at the limit of schedules"); break; }
    }
    R.count("schedules", runs); return runs; };
  for (size_t a = 0; a < n; ++a) for (size_t b = a; b < n; ++b) {
    if (!F[a].ok || !F[b].ok || F[a].skip || F[b].skip) continue;
    if (!R.unit(S("%s|%s", op[a].name, op[b].name))) continue;
    const bool dep = dependent(a, b);
    if (!dep) R.count("independent pairs");
    // writes outside initialisations and locks that meet accesses of the other, or writes to operands, get the full treatment in the quick tier too
    const bool naked = meet(F[a].naked, F[b].rd) || meet(F[a].rd, F[b].naked), opw = F[a].opwrite || F[b].opwrite, heavy = op[a].weight || op[b].weight;
    if (naked) R.count("pairs with unguarded writes");
    const bool all = T || a == b || naked, few = argc > 1 && !strcmp(argv[argc - 1], "few");
    const char* mode[] = {"first use", "own operands", "shared operands"};
    for (int m = 0; m < 3; ++m) {
      // with shared operands all races of own operands are found too
      if (m == 0 ? !all : m == 1 ? !(dep && (T || (a != b && (naked || (a + b) % (few ? 8 : heavy ? 5 : 1) == 0)))) : !(few && heavy ? opw || naked : all || opw)) continue;
      if (!R.begin(mode[m])) continue;
      explore({a, b}, m, T ? 2 : all || F[a].points + F[b].points <= 12 ? 1 : 0, T ? 3000 : 150); }
  }
  if (T) for (size_t a = 0; a < n; ++a) { if (!F[a].ok || F[a].skip || !R.unit(S("three.%s", op[a].name))) continue; if (!R.begin("own operands")) continue; explore({a, a, a}, 1, 1, 4000); }
  for (size_t a = 0; a < n; ++a) if (!F[a].skip && R.unit(S("alone.%s", op[a].name)) && R.begin("alone")) {
    R.step(); if (!F[a].ok) R.fail("%s does not return in a thread of its own", op[a].name);
    else if (F[a].out != mainout[a]) R.fail("%s gives %.160s in a thread of its own, %.160s in the main thread", op[a].name, F[a].out.c_str(), mainout[a].c_str()); }
  return R.finish();
}
