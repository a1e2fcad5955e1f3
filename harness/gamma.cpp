// P22 / P23: gamma function and Riemann zeta function of real arguments against MPFR.
#include "mc.h"
#include "func.h"
#include <functions/gamma/gamma_util.h>
using std::vector; using std::string;
static string mode = "gamma";
static const size_t CH = 8;

static bool nonpos_int(const Dec& d0) { Dec d(d0); d.norm(); return d.zero() || (d.sign() < 0 && d.e >= 0); }
static void gam(Run& R) {
  const bool T = R.thorough || D10 <= 101;
  vector<Pt> P; spread(P, -1000, 6, 2, T);
  for (long n = 1; n <= 60; ++n) { P.push_back(pt(Dec(n))); P.push_back(pt(Dec(Z(n * 10 + 5), -1))); P.push_back(pt(Dec(Z(-n * 10 - 5), -1))); P.push_back(pt(Dec(Z(n * 1000 - 877), -2))); P.push_back(pt(Dec(Z(-n * 1000 + 877), -2))); }
  for (long n : {90L, 99L, 100L, 101L, 170L, 171L, 172L, 238L, 239L, 240L, 241L, 250L, 500L, 999L, 1000L, 1001L, 1002L, 1003L, 2000L, 10000L, 100000L}) for (long f : {0L, 25L, 99L}) P.push_back(pt(Dec(Z(n * 100 + f), -2)));
  for (long n : {-300L, -301L, -1000L, -1001L, -5000L}) for (long f : {25L, 50L, 99L}) P.push_back(pt(Dec(Z(n * 100 + f), -2)));
  for (long n : {1L, 2L, 3L, 20L}) around(P, Dec(n), T);
  { Pt p; around(P, Dec(-1), T); around(P, Dec(-2), false); around(P, Dec(-17), false); around(P, Dec(Z(5L), -1), false); around(P, Dec(0), T); }
  for (auto s : {"-1", "-2", "-3", "-100", "-1001", "0", "inf", "nan"}) P.push_back(pt(string(s)));
  for (size_t c = 0; c * CH < P.size(); ++c) if (R.unit(S("gamma.%zu", c))) for (size_t i = c * CH; i < std::min(P.size(), (c + 1) * CH); ++i) {
    if (!R.begin(S("p%zu", i))) continue; auto& p = P[i]; precision_for(2 * D10 + 80 + (p.v.cls == 0 ? std::min(labs(p.v.d.order()), 2 * D10) : 0));
    e_float g = ef::gamma(arg(p));
    if (p.v.cls == 0 && nonpos_int(p.v.d)) { R.step(); if (ef::isfinite(g)) R.fail("gamma(%s) is %s at a pole", p.t.c_str(), text(g).c_str()); continue; }
    value(R, S("gamma(%s)", p.v.brief().c_str()).c_str(), g, {mpv(p.v)}, [](const vector<MP>& a) { return ref::gamma(a[0]); }); R.state(S("g%zu", i));
    if (i == 0) R.sample(S("gamma(%s) = %s", p.t.substr(0, 30).c_str(), text(g).substr(0, 40).c_str()));
    // both signs together
    if (p.v.cls == 0 && i % 3 == 0) { Dec m = p.v.d; Dec ab = ref::absd(m); Dec a2(ab); a2.norm(); if (a2.e >= 0) continue;
      e_float gp(5), gm(6); GammaUtil::GammaOfPlusXMinusX(arg(p), gp, gm);
      value(R, S("gamma of +x, x = %s", p.v.brief().c_str()).c_str(), gp, {mpv(p.v)}, [](const vector<MP>& a) { return ref::gamma(a[0]); });
      value(R, S("gamma of -x, x = %s", p.v.brief().c_str()).c_str(), gm, {mpv(p.v)}, [](const vector<MP>& a) { return ref::gamma(-a[0]); }); }
  }
  // gamma(n + x) with a tiny offset from the integer
  vector<Pt> Q; for (long k = 1; k <= 3 * D10; k += (k < 20 ? 1 : T ? 5 : 31)) for (long m : {1L, -1L, 37L}) Q.push_back(pt(Dec(Z(m), -k - 1)));
  for (auto s : {"0.5", "-0.25", "0.75"}) Q.push_back(pt(string(s)));
  for (long n : {0L, 1L, 2L, 3L, 10L, 300L, -1L, -2L, -3L, -4L, -25L, -300L}) for (size_t c = 0; c * CH < Q.size(); ++c) if (R.unit(S("near.%ld.%zu", n, c))) for (size_t i = c * CH; i < std::min(Q.size(), (c + 1) * CH); ++i) {
    if (!R.begin(S("p%zu", i))) continue; precision_for(2 * D10 + 80 + labs(Q[i].v.d.order()));
    value(R, S("gamma_near_n(%ld, %s)", n, Q[i].v.brief().c_str()).c_str(), ef::gamma_near_n((std::int32_t)n, arg(Q[i])), {mpv(Q[i].v)}, [&](const vector<MP>& a) { return ref::gamma(MP(n) + a[0]); }); R.state(S("n%ld %zu", n, i));
  }
}
static void zet(Run& R) {
  const bool T = R.thorough || D10 <= 101;
  auto chk = [&](const Pt& p, const e_float& z, const string& w) {
    if (p.v.cls == 0 && p.v.d == Dec(1)) { R.step(); if (ef::isfinite(z)) R.fail("%s is %s at the pole", w.c_str(), text(z).c_str()); return; }
    if (p.v.cls == 0 && Dec(p.v.d).norm().e >= 0) {       // integers are exact arguments: one reference value
      static std::map<string, MP> memo; auto it = memo.find(p.t); if (it == memo.end()) it = memo.emplace(p.t, ref::zeta(mpv(p.v))).first;
      value(R, w.c_str(), z, {}, [&](const vector<MP>&) { return it->second; });
    } else value(R, w.c_str(), z, {mpv(p.v)}, [](const vector<MP>& a) { return ref::zeta(a[0]); });
  };
  for (long n = -1500; n <= 1500; ++n) { if (!R.thorough && labs(n) > (T ? 130 : 40) && n % 37 && labs(n - 0) < 985) continue; if (labs(n) > 1010 && n % 101) continue;
    if (!R.unit(S("int.%ld", n))) continue; Pt p = pt(Dec(n)); precision_for(D10 + 40);
    if (R.begin("n")) { chk(p, ef::riemann_zeta((std::int32_t)n), S("zeta(%ld)", n)); R.state(S("i%ld", n)); }
    if (R.begin("x")) { chk(p, ef::riemann_zeta(arg(p)), S("zeta(%ld.)", n)); R.state(S("x%ld", n)); } }
  vector<Pt> P; { vector<Pt> t; spread(t, -60, 3, 2, false); for (size_t i = 0; i < t.size(); ++i) if (t[i].v.d.order() < 3 && (T || i % 4 == 0)) P.push_back(t[i]); }
  around(P, Dec(1), false, D10 - 5); around(P, Dec(2), false, 20); around(P, Dec(-2), false, 20); around(P, Dec(-1), false, 12);
  for (long n = -60; n <= 400; n += (T ? 3 : 17)) { P.push_back(pt(Dec(Z(n * 10 + 5), -1))); P.push_back(pt(Dec(Z(n * 100 + 13), -2))); }
  for (long k = 1; k <= D10 / 2; k += (T ? 1 : 4)) for (const char* m : {"1", "3.7", "9.99"}) P.push_back(pt(S("-%se-%ld", m, k)));      // left of zero, where the reflection would lose the digits of the argument
  for (size_t c = 0; c * CH < P.size(); ++c) if (R.unit(S("real.%zu", c))) for (size_t i = c * CH; i < std::min(P.size(), (c + 1) * CH); ++i) {
    if (!R.begin(S("p%zu", i))) continue; precision_for(D10 + 40); chk(P[i], ef::riemann_zeta(arg(P[i])), S("zeta(%s)", P[i].v.brief().c_str())); R.state(S("r%zu", i)); }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "zeta")) mode = "zeta";
  Run R(argc, argv);
  precision_for(D10 + 40);
  if (mode == "gamma") gam(R); else zet(R);
  return R.finish();
}
