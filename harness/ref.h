// Reference models: exact decimal arithmetic (GMP integers) and MPFR for
// transcendental functions, plus observation of library values through the
// public stream interface only.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
#include "mc.h"

namespace ref {

// Arbitrary-precision integer and MPFR value; the implementation (ref.cpp) is the
// only translation unit that sees the real <gmp.h>/<mpfr.h>, because the library's
// own backend headers declare conflicting prototypes of the same entry points.
struct Z {
  alignas(8) unsigned char s[16];
  Z(); Z(long n); Z(int n) : Z((long)n) {} explicit Z(const std::string& dec, int base = 10); Z(const Z&); Z(Z&&) noexcept; Z& operator=(const Z&); Z& operator=(Z&&) noexcept; ~Z();
  static Z u(unsigned long long n); static Z ll(long long n);
  std::string str() const;
  long digits10() const;                    // exact count of decimal digits of |x|
  bool divisible(unsigned long n) const;
  bool odd() const;
  long bits() const;
  double d() const;
  static Z pow(unsigned long b, unsigned long e);
};
Z operator+(const Z&, const Z&); Z operator-(const Z&, const Z&); Z operator*(const Z&, const Z&);
Z operator/(const Z&, const Z&); Z operator%(const Z&, const Z&); Z operator-(const Z&);      // truncating
int sgn(const Z&); Z abs(const Z&); int cmp(const Z&, const Z&); Z gcd(const Z&, const Z&); Z fac(unsigned long); Z bin(unsigned long, unsigned long); Z fac2(unsigned long);
Z isqrt(const Z&);
inline bool operator==(const Z& a, const Z& b) { return cmp(a, b) == 0; }
inline bool operator!=(const Z& a, const Z& b) { return cmp(a, b) != 0; }
inline bool operator<(const Z& a, const Z& b) { return cmp(a, b) < 0; }
inline bool operator>(const Z& a, const Z& b) { return cmp(a, b) > 0; }
const Z& p10(unsigned long k);

// Exact decimal  m * 10^e
struct Dec {
  Z m; long e = 0;
  Dec() {}
  Dec(long n) : m(n) {}
  Dec(const Z& mm, long ee = 0) : m(mm), e(ee) {}
  bool zero() const { return sgn(m) == 0; }
  int sign() const { return sgn(m); }
  long digits() const { if (zero()) return 1; return m.digits10(); }
  long order() const { return zero() ? 0 : e + digits() - 1; }     // floor(log10|x|)
  Dec& norm() {                                                     // strip trailing zeros
    if (zero()) { e = 0; return *this; }
    while (m.divisible(100000000UL)) { m = m / Z(100000000L); e += 8; }
    while (m.divisible(10UL)) { m = m / Z(10L); e += 1; }
    return *this;
  }
  std::string str() const {                                         // exact, parseable
    if (zero()) return "0";
    Dec t(*this); t.norm();
    std::string s = ref::abs(t.m).str();
    long o = t.e + (long)s.size() - 1;
    std::string r = (sgn(t.m) < 0 ? "-" : "");
    r += s.substr(0, 1);
    if (s.size() > 1) r += "." + s.substr(1);
    if (o != 0) r += "e" + std::to_string(o);
    return r;
  }
  std::string brief() const { std::string s = str(); if (s.size() <= 150) return s; size_t p = s.find('e'); return s.substr(0, 60) + "..(" + std::to_string(s.size()) + ").." + s.substr((p == std::string::npos ? s.size() : p) - 40); }
};
inline const long GAP = 400000;
inline Dec operator-(const Dec& a) { return Dec(-a.m, a.e); }
inline Dec add(const Dec& a, const Dec& b) {
  if (a.zero()) return b; if (b.zero()) return a;
  long e = std::min(a.e, b.e);
  if (std::max(a.e, b.e) - e > GAP) return a.order() > b.order() ? a : b;   // far below any tolerance
  return Dec(a.m * p10(a.e - e) + b.m * p10(b.e - e), e);
}
inline Dec sub(const Dec& a, const Dec& b) { return add(a, -b); }
inline Dec mul(const Dec& a, const Dec& b) { return Dec(a.m * b.m, a.e + b.e); }
inline Dec absd(const Dec& a) { return Dec(ref::abs(a.m), a.e); }
inline int cmp(const Dec& a, const Dec& b) {
  int sa = a.sign(), sb = b.sign();
  if (sa != sb) return sa < sb ? -1 : 1;
  if (sa == 0) return 0;
  long oa = a.order(), ob = b.order();
  if (oa != ob) return (oa < ob) == (sa > 0) ? -1 : 1;
  return sgn(sub(a, b).m);
}
inline bool operator<(const Dec& a, const Dec& b) { return cmp(a, b) < 0; }
inline bool operator==(const Dec& a, const Dec& b) { return cmp(a, b) == 0; }
inline Dec div(const Dec& a, const Dec& b, long nd) {                // nd correct digits (truncated)
  if (a.zero()) return Dec(0);
  long sh = nd + b.digits() - a.digits(); if (sh < 0) sh = 0;
  return Dec(Z(Z(a.m * p10(sh)) / b.m), a.e - b.e - sh);
}
inline Dec pow10(long k) { return Dec(Z(1L), k); }
// round to n significant digits, half away from zero
inline Dec round_sig(const Dec& a, long n) {
  long d = a.digits();
  if (d <= n || a.zero()) return a;
  Z t = ref::abs(a.m), q, h = p10(d - n);
  q = (t + h / Z(2L)) / h;
  return Dec(sgn(a.m) < 0 ? Z(-q) : q, a.e + d - n);
}
inline Dec trunc_sig(const Dec& a, long n) {
  long d = a.digits();
  if (d <= n || a.zero()) return a;
  return Dec(Z(a.m / p10(d - n)), a.e + d - n);
}

struct Val {                     // cls: 0 finite, +1/-1 infinity, 2 NaN, 3 unparsable text
  int cls = 0; Dec d; std::string text;
  std::string brief() const { return cls == 0 ? d.brief() : cls == 1 ? "+inf" : cls == -1 ? "-inf" : cls == 2 ? "nan" : ("?" + text); }
};

inline Val parse(const std::string& s) {
  Val v; v.text = s;
  size_t i = 0; bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
  std::string r = s.substr(i);
  if (r == "inf" || r == "INF") { v.cls = neg ? -1 : 1; return v; }
  if (r == "nan" || r == "NAN") { v.cls = 2; return v; }
  std::string dg; long frac = 0; bool dot = false, any = false; size_t k = 0;
  for (; k < r.size(); ++k) {
    if (r[k] >= '0' && r[k] <= '9') { dg += r[k]; any = true; if (dot) ++frac; }
    else if (r[k] == '.' && !dot) dot = true;
    else break;
  }
  if (!any) { v.cls = 3; return v; }
  long ex = 0;
  if (k < r.size()) {
    if (r[k] != 'e' && r[k] != 'E') { v.cls = 3; return v; }
    char* end = nullptr; std::string es = r.substr(k + 1);
    if (es.empty()) { v.cls = 3; return v; }
    ex = strtol(es.c_str(), &end, 10);
    if (*end) { v.cls = 3; return v; }
  }
  v.d = Dec(Z(dg, 10), ex - frac);
  if (neg) v.d.m = -v.d.m;
  return v;
}

// ---- MPFR wrapper -------------------------------------------------------
struct MP {
  alignas(8) unsigned char v[32];
  static long& P();                        // working precision in bits for new values
  MP(); MP(long n); MP(int n) : MP((long)n) {} explicit MP(double n); MP(const Dec& d); MP(const MP& o); MP& operator=(const MP& o); ~MP();
  bool nan() const; bool inf() const; bool fin() const; bool zero() const; int sign() const; double d() const;
  std::string str(int n = 40) const;
  Dec dec(size_t n) const;                 // n significant decimal digits
};
MP operator+(const MP&, const MP&); MP operator-(const MP&, const MP&); MP operator*(const MP&, const MP&); MP operator/(const MP&, const MP&); MP operator-(const MP&);
#define REF_UN(name) MP name(const MP& a);
REF_UN(sqrt) REF_UN(cbrt) REF_UN(exp) REF_UN(log) REF_UN(log10) REF_UN(log2) REF_UN(log1p) REF_UN(expm1) REF_UN(sin) REF_UN(cos) REF_UN(tan)
REF_UN(asin) REF_UN(acos) REF_UN(atan) REF_UN(sinh) REF_UN(cosh) REF_UN(tanh) REF_UN(asinh) REF_UN(acosh) REF_UN(atanh)
REF_UN(abs) REF_UN(gamma) REF_UN(zeta) REF_UN(csc) REF_UN(sec) REF_UN(cot) REF_UN(csch) REF_UN(sech) REF_UN(coth) REF_UN(lngamma) REF_UN(digamma)
#undef REF_UN
MP atan2(const MP& y, const MP& x); MP pow(const MP& x, const MP& y); MP powi(const MP& x, long n); MP hypot(const MP& x, const MP& y); MP rootn(const MP& x, unsigned long n); MP pi(); MP euler(); MP catalan(); MP ln2();
int cmp(const MP&, const MP&);
inline bool operator<(const MP& a, const MP& b) { return cmp(a, b) < 0; }
inline bool operator>(const MP& a, const MP& b) { return cmp(a, b) > 0; }
inline bool operator<=(const MP& a, const MP& b) { return cmp(a, b) <= 0; }
inline bool operator>=(const MP& a, const MP& b) { return cmp(a, b) >= 0; }
inline MP max(const MP& a, const MP& b) { return a < b ? b : a; }
MP ten_to(long k);
void wide(); // largest possible range of exponents

} // namespace ref
#endif
