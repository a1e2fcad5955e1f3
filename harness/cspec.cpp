// P24: gamma, Pochhammer and zeta functions of complex arguments.
#include "mc.h"
#include "cval.h"
#include <e_float/e_float_functions_complex.h>
typedef ef::complex<e_float> EC;
static vector<Pt> pts(std::initializer_list<const char*> l) { vector<Pt> r; for (auto s : l) { Pt p = pt(string(s)); if (D10 >= 60 || (long)p.t.size() <= D10) r.push_back(p); } return r; }
static CM cm(const Pt& a, const Pt& b) { return CM(mpv(a.v), mpv(b.v)); }
static EC ec(const Pt& a, const Pt& b) { return EC(arg(a), arg(b)); }
static bool isint_mp(const MP& x) { MP a = ref::abs(x); if (a > MP(1000000000L)) return true; long n = (long)(a.d() + 0.5); return ref::cmp(a, MP(n)) == 0; }
static bool nonpos_int(const CM& z) { return z.im.zero() && z.re.sign() <= 0 && isint_mp(z.re); }
int main(int argc, char** argv) {
  Run R(argc, argv); const bool T = R.thorough; const long W = D10 + 40;
  // gamma
  vector<Pt> X = pts({"0", "1", "2", "3", "-1", "-2", "7", "-13", "0.5", "-0.5", "2.5", "-3.75", "1e-20", "-1e-25", "0.001", "99.5", "-30.3", "0.99999999999999999999999999", "-1.00000000000000000000000001", "100", "101", "-60"});
  vector<Pt> Y = pts({"0", "1e-30", "-1e-20", "0.25", "-0.5", "1", "-3.125", "14.1347251417346937904572519835625", "-40.5", "100"});
  if (T) { for (auto& p : pts({"239.5", "240", "250.75", "-100.5", "1000.25", "0.1", "33.3", "1e-101", "12"})) X.push_back(p); for (auto& p : pts({"1e-101", "0.001", "-7.77", "250", "-1000.5", "5"})) Y.push_back(p); }
  for (size_t a = 0; a < X.size(); ++a) for (size_t b = 0; b < Y.size(); ++b) if (R.unit(S("gamma.%zu.%zu", a, b))) {
    if (!R.begin("z")) continue; precision_for(2 * W); CM Z = cm(X[a], Y[b]); if (nonpos_int(Z)) continue;
    cvalue<e_float>(R, S("gamma(%s, %s)", X[a].t.c_str(), Y[b].t.c_str()), ef::gamma(ec(X[a], Y[b])), {Z}, [&](const vector<CM>& q) { return cgamma(q[0], W); }); R.state(S("g %zu %zu", a, b)); }
  // pochhammer
  for (size_t a = 0; a < X.size(); ++a) for (size_t b = 0; b < Y.size(); ++b) if (R.unit(S("poch.%zu.%zu", a, b))) {
    for (long n : {0L, 1L, 2L, 3L, 7L, 20L, 49L, 50L, 51L, 100L, 120L}) { if (!R.begin(S("n%ld", n))) continue; precision_for(2 * W); CM Z = cm(X[a], Y[b]);
      if (n >= 50 && !T && (a + b) % 4) continue;
      cvalue<e_float>(R, S("pochhammer((%s, %s), %ld)", X[a].t.c_str(), Y[b].t.c_str(), n), ef::pochhammer(ec(X[a], Y[b]), (std::uint32_t)n), {Z}, [&](const vector<CM>& q) { CM w(1); for (long k = 0; k < n; ++k) w = w * (q[0] + CM(k)); return w; }); R.state(S("p %zu %zu %ld", a, b, n)); }
    if (!T && (a * 3 + b) % 5) continue;
    for (size_t c = 0; c < X.size(); c += T ? 1 : 3) for (size_t d = 0; d < Y.size(); d += T ? 2 : 3) { if (!R.begin(S("c%zu %zu", c, d))) continue; precision_for(2 * W); CM Z = cm(X[a], Y[b]), A = cm(X[c], Y[d]); if (nonpos_int(Z) || nonpos_int(Z + A)) continue;
      if ((Z + A).re.sign() < 0 && ref::abs((Z + A).im) < MP(1L) && cabs(A) < ten_to(-5)) continue;
      cvalue<e_float>(R, S("pochhammer((%s, %s), (%s, %s))", X[a].t.c_str(), Y[b].t.c_str(), X[c].t.c_str(), Y[d].t.c_str()), ef::pochhammer(ec(X[a], Y[b]), ec(X[c], Y[d])), {Z, A}, [&](const vector<CM>& q) { return cgamma(q[0] + q[1], W) / cgamma(q[0], W); }); R.state(S("q %zu %zu %zu %zu", a, b, c, d)); } }
  // zeta
  vector<Pt> U = pts({"0", "1", "-1", "2", "-2", "3", "-4", "0.5", "-0.5", "0.25", "1.5", "10.75", "-10.75", "1e-20", "-1e-20", "0.9999999999", "1.0000001", "40.5", "120.25", "-40", "-3.3"});
  vector<Pt> V = pts({"0", "1e-30", "-1e-20", "0.25", "-0.5", "1", "-3.125", "14.134725", "-25.5", "60"});
  if (T) { for (auto& p : pts({"0.75", "5", "7", "-7.25", "-100.5", "300.5"})) U.push_back(p); for (auto& p : pts({"0.001", "7.77", "-33.3", "120", "8.5"})) V.push_back(p); }
  for (size_t a = 0; a < U.size(); ++a) for (size_t b = 0; b < V.size(); ++b) if (R.unit(S("zeta.%zu.%zu", a, b))) {
    if (!R.begin("s")) continue; precision_for(2 * W); CM s = cm(U[a], V[b]); if (s.im.zero() && ref::cmp(s.re, MP(1L)) == 0) continue;
    cvalue<e_float>(R, S("zeta(%s, %s)", U[a].t.c_str(), V[b].t.c_str()), ef::riemann_zeta(ec(U[a], V[b])), {s}, [&](const vector<CM>& q) { return czeta(q[0], W); }); R.state(S("z %zu %zu", a, b)); }
  return R.finish();
}
