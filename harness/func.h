// Checking a computed function value against the reference function.
#ifndef VERIF_FUNC_H
#define VERIF_FUNC_H
#include <array>
#include <functional>
#include "ef.h"
#include "pat.h"
using ref::ten_to;

inline MP mpv(const Val& v) { return v.cls == 0 ? MP(v.d) : v.cls == 2 ? MP(0L) / MP(0L) : MP((long)v.cls) / MP(0L); }
inline void precision_for(long digits) { MP::P() = (long)(3.33 * digits) + 64; }

// |got - F| <= eps |F| + the largest change of f when one argument moves by eps relatively (its last guaranteed digit).
// Results beyond the range of the back end may be infinite (or zero); where the reference is not finite the class must agree.
// (the range is that of numeric_limits; next to its ends intermediate results may leave it)
static const long RANGE = (long)std::numeric_limits<e_float>::max_exponent10 - 1000;
// the reference must not overflow before the library does (the mpfr back end has the range of mpfr itself)
static const bool wide_range = [] { if (std::string(BACKEND) != "mpfr") ref::wide(); return true; }();
inline bool value(Run& R, const char* what, const e_float& got, const std::vector<MP>& x, const std::function<MP(const std::vector<MP>&)>& f, long digits = -1) {
  R.step();
  if (digits < 0) digits = D10;
  MP F = f(x), eps = ten_to(-digits);
  Val o = observe(got);
  if (o.cls == 3) { R.fail("%s: unreadable result %s", what, o.text.substr(0, 60).c_str()); return false; }
  if (F.nan()) { if (o.cls != 2) { R.fail("%s: library %s, expected nan", what, o.brief().c_str()); return false; } return true; }
  if (F.inf()) { bool pole = true; for (auto& a : x) if (a.fin() && !a.zero()) pole = false; (void)pole;
    if (o.cls != F.sign() && !(o.cls == 0 && labs(o.d.order()) > RANGE)) { R.fail("%s: library %s, expected %sinf", what, o.brief().c_str(), F.sign() < 0 ? "-" : "+"); return false; } return true; }
  MP tol = ref::abs(F) * eps;
  for (size_t i = 0; i < x.size(); ++i) if (x[i].fin() && !x[i].zero()) for (int s = -1; s <= 1; s += 2) {
    std::vector<MP> y = x; y[i] = y[i] * (MP(1L) + MP((long)s) * eps);
    MP G = f(y); if (G.fin()) { MP d = ref::abs(G - F); if (tol < d) tol = d; }
  }
  if (o.cls != 0) {
    if (o.cls == F.sign() && F.zero() == false && ref::abs(F) > ten_to(RANGE)) return true;
    R.fail("%s: library %s, reference %s", what, o.brief().c_str(), F.str(30).c_str()); return false;
  }
  if (!F.zero() && ref::abs(F) < ten_to(-RANGE) && o.d.zero()) return true;
  MP G(o.d);
  if (tol < ref::abs(G - F)) {
    MP e = F.zero() ? ref::abs(G) : ref::abs((G - F) / F);
    R.fail("%s: library %s, reference %s (relative error %s, allowed %s)", what, o.brief().c_str(), F.dec(60).brief().c_str(), e.str(3).c_str(), F.zero() ? tol.str(3).c_str() : (tol / ref::abs(F)).str(3).c_str());
    return false;
  }
  return true;
}
// a point: text read by the library and its exact value
struct Pt { std::string t; Val v; };
inline Pt pt(const std::string& s) { return Pt{s, ref::parse(s)}; }
inline Pt pt(const Dec& d) { Pt p; p.t = d.str(); p.v.d = d; return p; }
inline e_float arg(const Pt& p) {
  if (p.v.cls == 2) return std::numeric_limits<e_float>::quiet_NaN();
  if (p.v.cls == 1) return std::numeric_limits<e_float>::infinity();
  if (p.v.cls == -1) return -std::numeric_limits<e_float>::infinity();
  return e_float(p.t);
}
inline std::vector<Pt> specials() {
  std::vector<Pt> r; for (const char* s : {"inf", "-inf", "nan"}) { Pt p; p.t = s; p.v = ref::parse(s); r.push_back(p); }
  r.push_back(pt("0")); return r;
}
inline Dec clip(const Dec& d) { return ref::trunc_sig(d, D10); }
inline std::vector<std::string> mantissas(bool full) {
  const long D = D10;
  std::vector<std::string> m = {"1", "2", repn("9", D), "1" + std::string(D - 2, '0') + "1", repn("31415926535897932384626433832795028841971", D - 1) + "3", "725"};
  if (full) for (std::string s : {std::string("5"), std::string("15"), repn("123456789", D), "4" + repn("9", D - 1), repn("9999999900000000", D), std::string("27182818284590452353602874713526625")}) m.push_back(s);
  return m;
}
inline std::vector<long> orders(long lo, long hi, bool full) {
  std::vector<long> r;
  for (long o = lo; o <= hi; ++o) {
    long a = labs(o);
    bool y = a <= 20 || (a <= 2 * D10 + 20 && (full || a % 8 == 0 || a % 8 == 7 || a % 5 == 0)) || (a <= 1010 && (a % 100 == 0 || a >= 998)) || (a > 1010 && a <= 10007 && a % 1429 == 0);
    if (y) r.push_back(o); else if (a > 10007) { if (o < 0) { o = -10008; } else break; }
  }
  for (long o : {100003L, 1000000L, 30000001L, 120000000L}) { if (o <= hi) r.push_back(o); if (-o >= lo) r.push_back(-o); }
  return r;
}
// mantissas x decimal orders; sg: 1 positive, 2 both signs
inline void spread(std::vector<Pt>& v, long lo, long hi, int sg, bool full) {
  for (long o : orders(lo, hi, full)) for (auto& m : mantissas(full)) {
    Dec d(Z(m), 0); d.e = o - d.order(); v.push_back(pt(d)); if (sg == 2) v.push_back(pt(-d));
  }
}
// c +- delta for every delta = m * 10^-k
inline void around(std::vector<Pt>& v, const Dec& c, bool full, long kmax = -1) {
  if (kmax < 0) kmax = D10;
  v.push_back(pt(clip(c)));
  for (long k = 1; k <= kmax; ++k) {
    if (!full && k > 16 && k < kmax - 12 && k % 6) continue;
    for (long m : {1L, -1L, 7L}) { Dec d = ref::add(c, Dec(Z(m), -k)); v.push_back(pt(clip(d))); }
  }
}
#endif
