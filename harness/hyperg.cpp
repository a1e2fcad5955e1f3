// P26: hypergeometric series against their partial sums in MPFR.
#include "mc.h"
#include "func.h"
#include <deque>
using std::vector; using std::string;
typedef vector<Pt> V;
static V pts(std::initializer_list<const char*> l) { V r; for (auto s : l) r.push_back(pt(string(s))); return r; }
// sum of the series and of the absolute values of its terms; false: not convergent (within the number of terms given) or a zero denominator
static bool series(const vector<MP>& a, const vector<MP>& b, const MP& x, MP& s, MP& t) {
  MP u(1L), tol = ten_to(-2 * D10 - 20); s = u; t = u; int small = 0;
  for (long n = 0; n < 9000; ++n) {
    MP f = x / MP(n + 1);
    for (auto& p : a) f = f * (p + MP(n));
    for (auto& p : b) { MP q = p + MP(n); if (q.zero()) return false; f = f / q; }
    u = u * f; s = s + u; t = t + ref::abs(u);
    if (u.zero()) return true;
    if (ref::abs(u) < tol * t) { if (++small > 5 && ref::abs(f) < MP(1L)) return true; } else small = 0;
  }
  return false;
}
static void check(Run& R, const string& what, const e_float& got, const V& A, const V& B, const Pt& X) {
  vector<MP> a, b; for (auto& p : A) a.push_back(mpv(p.v)); for (auto& p : B) b.push_back(mpv(p.v));
  MP s, t; if (!series(a, b, mpv(X.v), s, t)) { R.count("not convergent"); return; }
  // the number of terms the library may take
  R.step(); Val o = observe(got);
  if (o.cls != 0) { R.fail("%s: library %s, reference %s", what.c_str(), o.brief().c_str(), s.str(30).c_str()); return; }
  MP e = ref::abs(MP(o.d) - s), tol = ten_to(-D10) * t;
  if (tol < e) for (size_t i = 0; i <= a.size() + b.size(); ++i) for (int g = -1; g <= 1; g += 2) {       // an argument off by its last guaranteed digit
    vector<MP> c = a, d = b; MP x = mpv(X.v), s2, t2; MP& p = i < a.size() ? c[i] : i < a.size() + b.size() ? d[i - a.size()] : x;
    p = p * (MP(1L) + MP((long)g) * ten_to(-D10)); if (series(c, d, x, s2, t2)) { MP h = ref::abs(s2 - s); if (tol < h) tol = h; } }
  if (tol < e) R.fail("%s: library %s, reference %s (error %s, allowed %s)", what.c_str(), o.brief().c_str(), s.dec(60).brief().c_str(), e.str(3).c_str(), tol.str(3).c_str());
}
int main(int argc, char** argv) {
  Run R(argc, argv); const bool T = R.thorough;
  V P = pts({"1", "2", "0.5", "-0.5", "3.25", "-7.75", "12", "1e-20", "-0.99999999999999999999", "100.5", "33"}); if (T) for (auto& p : pts({"0.3333333333333333", "-31.4", "1e-3", "7"})) P.push_back(p);
  V N = pts({"0", "-1", "-2", "-5", "-19", "-20", "-21", "-22", "-40", "-100"});            // series that end
  V XE = pts({"0", "1", "-1", "0.5", "-3.75", "20", "-20", "1e-30", "-1e-200", "100.25", "-60"}); if (T) for (auto& p : pts({"500", "-200", "1e-5", "0.001", "33"})) XE.push_back(p);      // entire
  V XU = pts({"0", "0.5", "-0.5", "0.1", "-0.75", "0.9", "1e-30", "-1e-150", "-0.9"}); if (T) for (auto& p : pts({"0.95", "-0.95", "0.7", "1e-3"})) XU.push_back(p);      // unit disc
  V XT = XE;
  auto prec = [] { precision_for(3 * D10 + 100); };
  auto st = [&](const char* f, size_t a, size_t b, size_t c, size_t x) { R.state(S("%s %zu %zu %zu %zu", f, a, b, c, x)); };
  auto cat = [](const V& a, const V& b) { V r = a; r.insert(r.end(), b.begin(), b.end()); return r; };
  V PN = cat(P, N);
  auto n = [](const V& v) { string s; for (auto& p : v) s += (s.empty() ? "" : ", ") + p.t; return s; };
  auto pfq = [&](Run& R, const V& a, const V& b, const Pt& x) {
    std::deque<e_float> da, db; for (auto& p : a) da.push_back(arg(p)); for (auto& p : b) db.push_back(arg(p));
    check(R, S("hypergeometric_pfq({%s}, {%s}, %s)", n(a).c_str(), n(b).c_str(), x.t.c_str()), ef::hypergeometric_pfq(da, db, arg(x)), a, b, x); };
  if (R.unit("0f0")) for (size_t x = 0; x < XE.size(); ++x) { if (!R.begin(S("x%zu", x))) continue; prec(); check(R, "hypergeometric_0f0(" + XE[x].t + ")", ef::hypergeometric_0f0(arg(XE[x])), {}, {}, XE[x]); pfq(R, {}, {}, XE[x]); st("0f0", 0, 0, 0, x); }
  for (size_t b = 0; b < P.size(); ++b) if (R.unit(S("0f1.%zu", b))) for (size_t x = 0; x < XE.size(); ++x) { if (!R.begin(S("x%zu", x))) continue; prec(); check(R, "hypergeometric_0f1(" + P[b].t + ", " + XE[x].t + ")", ef::hypergeometric_0f1(arg(P[b]), arg(XE[x])), {}, {P[b]}, XE[x]); if (x % 3 == 0) pfq(R, {}, {P[b]}, XE[x]); st("0f1", b, 0, 0, x); }
  for (size_t a = 0; a < PN.size(); ++a) { const bool end = a >= P.size(); const V& X = end ? XT : XU;
    if (R.unit(S("1f0.%zu", a))) for (size_t x = 0; x < X.size(); ++x) { if (!R.begin(S("x%zu", x))) continue; prec(); check(R, "hypergeometric_1f0(" + PN[a].t + ", " + X[x].t + ")", ef::hypergeometric_1f0(arg(PN[a]), arg(X[x])), {PN[a]}, {}, X[x]); if (x % 3 == 1) pfq(R, {PN[a]}, {}, X[x]); st("1f0", a, 0, 0, x); }
    for (size_t b = 0; b < P.size(); ++b) {
      if (R.unit(S("1f1.%zu.%zu", a, b))) for (size_t x = 0; x < XE.size(); ++x) { if (!T && (a + b + x) % 3) continue; if (!R.begin(S("x%zu", x))) continue; prec(); check(R, "hypergeometric_1f1(" + PN[a].t + ", " + P[b].t + ", " + XE[x].t + ")", ef::hypergeometric_1f1(arg(PN[a]), arg(P[b]), arg(XE[x])), {PN[a]}, {P[b]}, XE[x]); if (x % 3 == 2) pfq(R, {PN[a]}, {P[b]}, XE[x]); st("1f1", a, b, 0, x); }
      if (end && R.unit(S("2f0.%zu.%zu", a, b))) for (size_t x = 0; x < XT.size(); ++x) { if (!T && (a + b + x) % 2) continue; if (!R.begin(S("x%zu", x))) continue; prec(); check(R, "hypergeometric_2f0(" + PN[a].t + ", " + P[b].t + ", " + XT[x].t + ")", ef::hypergeometric_2f0(arg(PN[a]), arg(P[b]), arg(XT[x])), {PN[a], P[b]}, {}, XT[x]);
        check(R, "hypergeometric_2f0(" + P[b].t + ", " + PN[a].t + ", " + XT[x].t + ")", ef::hypergeometric_2f0(arg(P[b]), arg(PN[a]), arg(XT[x])), {PN[a], P[b]}, {}, XT[x]); if (x % 3 == 2) pfq(R, {PN[a], P[b]}, {}, XT[x]); st("2f0", a, b, 0, x); }
      for (size_t c = 0; c < P.size(); ++c) { if (!T && (a * 5 + b * 3 + c) % 7) continue;
        if (R.unit(S("2f1.%zu.%zu.%zu", a, b, c))) for (size_t x = 0; x < X.size(); ++x) { if (!R.begin(S("x%zu", x))) continue; prec(); check(R, "hypergeometric_2f1(" + PN[a].t + ", " + P[b].t + ", " + P[c].t + ", " + X[x].t + ")", ef::hypergeometric_2f1(arg(PN[a]), arg(P[b]), arg(P[c]), arg(X[x])), {PN[a], P[b]}, {P[c]}, X[x]);
          if (x % 4 == 2) { pfq(R, {PN[a], P[b]}, {P[c]}, X[x]); pfq(R, {P[b], PN[a], P[c]}, {P[(c + 1) % P.size()], P[(b + 2) % P.size()]}, X[x]); } st("2f1", a, b, c, x); } } } }
  return R.finish();
}
