// Complex reference functions on MPFR pairs (principal values; imaginary part zero counts as the upper side of a cut).
#ifndef VERIF_CX_H
#define VERIF_CX_H
#include "func.h"
struct CM { MP re, im; CM() : re(0L), im(0L) {} CM(const MP& r) : re(r), im(0L) {} CM(long n) : re(n), im(0L) {} CM(const MP& r, const MP& i) : re(r), im(i) {} bool fin() const { return re.fin() && im.fin(); } };
inline CM operator+(const CM& a, const CM& b) { return CM(a.re + b.re, a.im + b.im); }
inline CM operator-(const CM& a, const CM& b) { return CM(a.re - b.re, a.im - b.im); }
inline CM operator-(const CM& a) { return CM(-a.re, -a.im); }
inline CM operator*(const CM& a, const CM& b) { return CM(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
inline MP cnorm(const CM& a) { return a.re * a.re + a.im * a.im; }
inline MP cabs(const CM& a) { return ref::hypot(a.re, a.im); }
inline CM operator/(const CM& a, const CM& b) { MP n = cnorm(b); return CM((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n); }
inline MP nz(const MP& x) { return x.zero() ? MP(0L) : x; }                       // no negative zero
inline CM cconj(const CM& a) { return CM(a.re, -a.im); }
inline CM ci() { return CM(MP(0L), MP(1L)); }
inline CM cexp(const CM& z) { MP e = ref::exp(z.re); return CM(e * ref::cos(z.im), e * ref::sin(z.im)); }
inline CM clog(const CM& z) { return CM(ref::log(cabs(z)), ref::atan2(nz(z.im), nz(z.re))); }
inline CM csqrt(const CM& z) {
  MP r = cabs(z), two(2L);
  if (r.zero()) return CM(0);
  if (z.re.sign() >= 0) { MP s = ref::sqrt((z.re + r) / two); return CM(s, z.im / (two * s)); }
  MP s = ref::sqrt((r - z.re) / two); return CM(ref::abs(z.im) / (two * s), z.im.sign() < 0 ? -s : s);
}
inline CM csin(const CM& z) { return CM(ref::sin(z.re) * ref::cosh(z.im), ref::cos(z.re) * ref::sinh(z.im)); }
inline CM ccos(const CM& z) { return CM(ref::cos(z.re) * ref::cosh(z.im), -(ref::sin(z.re) * ref::sinh(z.im))); }
inline CM csinh(const CM& z) { return CM(ref::sinh(z.re) * ref::cos(z.im), ref::cosh(z.re) * ref::sin(z.im)); }
inline CM ccosh(const CM& z) { return CM(ref::cosh(z.re) * ref::cos(z.im), ref::sinh(z.re) * ref::sin(z.im)); }
inline CM ctan(const CM& z) { return csin(z) / ccos(z); }
inline CM ctanh(const CM& z) { return csinh(z) / ccosh(z); }
// Kahan's formulas: no cancellation at the branch points, right side everywhere off the cuts
inline CM casinh(const CM& z);
inline CM casin(const CM& z) { CM a = csqrt(CM(1) - z), b = csqrt(CM(1) + z); return CM(ref::atan2(z.re, nz((a * b).re)), ref::asinh((cconj(a) * b).im)); }
inline CM cacos(const CM& z) { CM a = csqrt(CM(1) - z), b = csqrt(CM(1) + z); return CM(MP(2L) * ref::atan2(a.re, b.re), ref::asinh((cconj(b) * a).im)); }
inline CM cacosh(const CM& z) { CM a = csqrt(z - CM(1)), b = csqrt(z + CM(1)); return CM(ref::asinh((cconj(a) * b).re), MP(2L) * ref::atan2(a.im, b.re)); }
inline CM cmuli(const CM& z) { return CM(-z.im, z.re); }
inline CM casinh(const CM& z) { CM w = casin(cmuli(z)); return CM(w.im, -w.re); }
inline CM catanh(const CM& z) { CM d = clog(CM(1) + z) - clog(CM(1) - z); return CM(d.re / MP(2L), d.im / MP(2L)); }
inline CM catan(const CM& z) { CM w = catanh(cmuli(z)); return CM(w.im, -w.re); }
inline CM cpow(const CM& z, const CM& a) { return cexp(a * clog(z)); }
inline CM cpowi(const CM& z, long n) { CM r(1), b(z); unsigned long k = n < 0 ? -(unsigned long)n : n; for (; k; k >>= 1) { if (k & 1) r = r * b; b = b * b; } return n < 0 ? CM(1) / r : r; }
inline MP bern_value(long n) { MP b = MP(2L) * ref::gamma(MP(n + 1)) * ref::zeta(MP(n)) / ref::powi(MP(2L) * ref::pi(), n); return n % 4 == 0 ? -b : b; }   // n even >= 2
inline MP bern(long n) {
  static std::map<long, MP> memo; static long prec = 0; if (prec != MP::P()) { memo.clear(); prec = MP::P(); }
  auto it = memo.find(n); if (it == memo.end()) it = memo.emplace(n, bern_value(n)).first;
  return it->second;
}
// Stirling series after shifting the argument to the right
inline CM cgamma(const CM& z0, long digits) {
  if (z0.re < MP(1L) / MP(2L)) return CM(ref::pi()) / (csin(CM(ref::pi()) * z0) * cgamma(CM(1) - z0, digits));
  CM z(z0), q(1); MP lim(digits);
  while (z.re < lim) { q = q * z; z = z + CM(1); }
  CM s(0), zi = CM(1) / z, z2 = zi * zi, p = zi; MP tol = ten_to(-digits - 10);
  for (long k = 1; k < 4 * digits; ++k) { CM t = CM(bern(2 * k) / MP(2 * k * (2 * k - 1))) * p; s = s + t; if (cabs(t) < tol) break; p = p * z2; }
  CM l = (z - CM(MP(1L) / MP(2L))) * clog(z) - z + CM(ref::log(MP(2L) * ref::pi()) / MP(2L)) + s;
  return cexp(l) / q;
}
// Euler-Maclaurin summation
inline CM czeta(const CM& s, long digits) {
  long N = digits + 10 + (long)ref::abs(s.im).d() + (s.re.sign() < 0 ? (long)-s.re.d() : 0); CM r(0);
  for (long k = 1; k < N; ++k) r = r + cexp(-s * CM(ref::log(MP(k))));
  CM ln(ref::log(MP(N))), e = cexp(-s * ln); MP n(N);
  r = r + e * CM(n) / (s - CM(1)) + e / CM(2);
  CM t = s * e / CM(n); MP f(2L), tol = ten_to(-digits - 10);
  for (long k = 1; k < 4 * digits; ++k) {
    CM u = t * CM(bern(2 * k) / f); r = r + u; if (cabs(u) < tol * cabs(r)) break;
    t = t * (s + CM(2 * k - 1)) * (s + CM(2 * k)) / CM(n * n); f = f * MP(2 * k + 1) * MP(2 * k + 2);
  }
  return r;
}
#endif
