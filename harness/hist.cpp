// P29: results do not depend on what was computed before.
#include "mc.h"
#include "ops.cpp"
#include <malloc.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using std::vector; using std::string; using namespace mc;
struct Res { uint64_t h; int st; char t[168]; };
static Res* shared(size_t n) { return (Res*)mmap(nullptr, n * sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static __attribute__((noinline)) void garbage(unsigned char c) { volatile unsigned char b[96 * 1024]; for (size_t i = 0; i < sizeof b; ++i) b[i] = c; }
static char buf[1 << 16];
static void one(size_t i, Res& r, unsigned char g = 0) {
  if (g) garbage(g);
  verif_op(i, nullptr, buf, sizeof buf); r.h = fnv(buf); snprintf(r.t, sizeof r.t, "%s", buf); r.st = 1;
}
static int child(std::function<void()> f) { fflush(nullptr); pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(120); f(); _exit(0); } int st; waitpid(p, &st, 0); return st; }
int main(int argc, char** argv) {
  Run R(argc, argv); const bool T = R.thorough;
  const VerifOp* op; const size_t n = verif_ops(&op);
  Res *solo = shared(n), *got = shared(n * n > 4096 ? n * 8 : n);
  for (size_t i = 0; i < n; ++i) { solo[i].st = -1; child([&] { one(i, solo[i]); }); }
  auto same = [&](size_t i, const Res& r, const string& how) {
    R.step(); R.state(op[i].name + string(r.t));
    if (solo[i].st != 1) { R.count("operation ends the process when alone"); return; }
    if (r.st != 1) R.fail("%s: %s does not return", how.c_str(), op[i].name);
    else if (r.h != solo[i].h) R.fail("%s: %s gives %s, alone %s", how.c_str(), op[i].name, r.t, solo[i].t); };
  // twice, and with other contents of unused memory
  for (size_t i = 0; i < n; ++i) if (R.unit(S("again.%s", op[i].name))) for (int g = 0; g < 4; ++g) { if (!R.begin(S("%d", g))) continue;
    Res* r = got; r[0].st = r[1].st = 0; child([&] { if (g) mallopt(M_PERTURB, g == 1 ? 0xff : g == 2 ? 0x5a : 1); one(i, r[0], g == 1 ? 0xff : g == 2 ? 0xa5 : g == 3 ? 1 : 0); one(i, r[1]); });
    same(i, r[0], S("with memory contents %d", g)); same(i, r[1], "the second time"); }
  // every operation after every other
  vector<size_t> st;                                       // operations with state of their own
  for (size_t i = 0; i < n; ++i) { string s = op[i].name; if (op[i].weight || s.find("zeta") != string::npos || s.find("prime") != string::npos || s.find("bernoulli") != string::npos || s.find("gamma") != string::npos || s == "pi" || s == "0*inf" || s == "read" || s == "z read") st.push_back(i); }
  for (size_t b = 0; b < n; ++b) if (R.unit(S("after.%s", op[b].name))) {
    for (size_t a = 0; a < n; ++a) got[a].st = 0;
    vector<size_t> as; for (size_t a = 0; a < n; ++a) if (R.begin(op[a].name)) as.push_back(a);
    // quick: groups of six of them, all groups from the same state; the first of a group directly follows (rotating with b)
    vector<size_t> all; for (size_t k = 0; k < n; ++k) all.push_back((k + b) % n);
    std::set<size_t> want(as.begin(), as.end()); const size_t g = T ? 1 : 6;
    child([&] { Res d; one(b, d); for (size_t k = 0; k < all.size(); k += g) { bool any = false; for (size_t j = k; j < std::min(k + g, all.size()); ++j) any = any || want.count(all[j]); if (any) child([&] { for (size_t j = k; j < std::min(k + g, all.size()); ++j) one(all[j], got[all[j]]); }); } });
    for (size_t a : as) { R.cur_case = op[a].name; R.case_failed = false; same(a, got[a], S("after %s", op[b].name)); } }
  // the same operation with operands that resemble the previous ones (quick: one of the two is the usual one)
  const int V = verif_variants(); Res* alone = shared(V);
  for (size_t i = 0; i < n; ++i) if (R.unit(S("similar.%s", op[i].name))) {
    if (solo[i].st != 1) continue;
    alone[0] = solo[i];
    for (int v = 1; v < V; ++v) { alone[v].st = -1; child([&] { alarm(10); verif_variant = v; one(i, alone[v]); }); if (alone[v].st != 1) R.count("operation does not return with similar operands"); }
    for (int v = 0; v < V; ++v) if (alone[v].st == 1) {
      vector<int> ws; for (int w = 0; w < V; ++w) if (w != v && alone[w].st == 1 && (T || !v || !w || (v + w + i) % 5 == 0) && R.begin(S("%d.%d", v, w))) { ws.push_back(w); got[w].st = 0; }
      if (ws.empty()) continue;
      child([&] { Res d; verif_variant = v; one(i, d); for (int w : ws) { if (child([&] { verif_variant = w; one(i, got[w]); })) break; } });
      for (int w : ws) { R.cur_case = S("%d.%d", v, w); R.case_failed = false; R.step(); R.state(op[i].name + string(got[w].t));
        if (got[w].st != 1) R.fail("%s does not return with operands %d after %d", op[i].name, w, v);
        else if (got[w].h != alone[w].h) R.fail("%s: with operands %d after %d gives %s, alone %s", op[i].name, w, v, got[w].t, alone[w].t); } } }
  // three operations, of those that keep tables
  for (size_t c : st) for (size_t b : st) if (T || (b * 7 + c) % 13 == 0) if (R.unit(S("after2.%s.%s", op[c].name, op[b].name))) {
    vector<size_t> as; for (size_t a : st) if (R.begin(op[a].name)) { as.push_back(a); got[a].st = 0; }
    child([&] { Res d; one(c, d); one(b, d); for (size_t a : as) child([&] { one(a, got[a]); }); });
    for (size_t a : as) { R.cur_case = op[a].name; R.case_failed = false; same(a, got[a], S("after %s and %s", op[c].name, op[b].name)); } }
  // long histories: all operations, in rotations of both directions
  for (int r = 0; r < (T ? 64 : 16); ++r) if (R.unit(S("all.%d", r))) {
    if (!R.begin("order")) continue;
    for (size_t a = 0; a < n; ++a) got[a].st = 0;
    child([&] { for (size_t k = 0; k < n; ++k) { size_t i = (k + r / 2 * n / (T ? 32 : 8)) % n; if (r & 1) i = n - 1 - i; if (solo[i].st == 1) one(i, got[i]); } });
    for (size_t a = 0; a < n; ++a) if (solo[a].st == 1) same(a, got[a], S("history %d", r)); }
  return R.finish();
}
