// Library-side helpers; needs the library headers (one backend, one digit count per build).
#ifndef VERIF_EF_H
#define VERIF_EF_H
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include "ref.h"
using ref::Dec; using ref::Val; using ref::MP; using ref::Z;
using mc::Run; using mc::S;

static const long D10 = std::numeric_limits<e_float>::digits10;
static const long MD10 = std::numeric_limits<e_float>::max_digits10;
#if defined(E_FLOAT_TYPE_EFX)
static const bool DECIMAL = true, GMPB = false;  static const char* const BACKEND = "efx";
#elif defined(E_FLOAT_TYPE_GMP)
static const bool DECIMAL = false, GMPB = true; static const char* const BACKEND = "gmp";
#else
static const bool DECIMAL = false, GMPB = false; static const char* const BACKEND = "mpfr";
#endif

static const std::int64_t NL_MAX10 = std::numeric_limits<e_float>::max_exponent10, NL_MIN10 = std::numeric_limits<e_float>::min_exponent10;
inline std::string text(const e_float& x) {
  std::ostringstream os; os << std::scientific << std::setprecision((int)MD10) << x; return os.str();
}
// the printed value, checked against the order of the number: a number with limbs that are not
// normalized can print correctly but compares and computes wrongly
inline bool normalized(const e_float& x, const Val& v) {
#if defined(E_FLOAT_TYPE_EFX)
  if (v.cls != 0) return true;
  if (v.d.zero()) return x.iszero();
  const long E = v.d.order(); if (E >= NL_MAX10 || E <= NL_MIN10) return true;
  static std::map<long, std::pair<e_float, e_float>> powers;
  auto it = powers.find(E);
  if (it == powers.end()) { if (powers.size() > 20000) powers.clear(); it = powers.emplace(E, std::make_pair(e_float("1e" + std::to_string(E)), e_float("1e" + std::to_string(E + 1)))).first; }
  const e_float& p = it->second.first; const e_float a(x.isneg() ? -x : x);
  if (!(a < it->second.second)) return false;
  if (a < p) { const e_float d(p - a); return sgn(v.d.m) != 0 && ref::abs(v.d.m) == Z::pow(10, v.d.digits() - 1) && !d.iszero() && !d.isneg(); }
#endif
  return true;
}
inline Val observe(const e_float& x) { Val v = ref::parse(text(x)); if (!normalized(x, v)) { v.cls = 3; v.text += " (not normalized)"; } return v; }
inline e_float make(const Dec& d) { return e_float(d.str()); }
inline e_float make(const std::string& s) { return e_float(s); }

// |obs - want| <= slack
inline bool near(const Val& o, const Dec& want, const Dec& slack) {
  if (o.cls != 0) return false;
  return !(slack < ref::absd(ref::sub(o.d, want)));
}
// relative unit in the last guaranteed digit
inline Dec rel(const Dec& x, long digits = -1) { return Dec(ref::abs(x.m), x.e - (digits < 0 ? D10 : digits)); }
#endif
#ifndef VERIF_EF_H2
#define VERIF_EF_H2
// exact decimal value of a finite built-in floating-point number
inline Dec exact(long double x) {
  if (x == 0) return Dec(0);
  int e; long double f = std::frexp(x, &e);
  f = std::ldexp(std::fabs(f), 64); e -= 64;
  Z m = Z::u((unsigned long long)f);
  if (x < 0) m = -m;
  if (e >= 0) return Dec(m * Z::pow(2, e));
  return Dec(m * Z::pow(5, -e), e);
}
template<typename T> inline Dec exact_of(T n) {
  if constexpr (std::is_floating_point<T>::value) return exact((long double)n);
  else if constexpr (std::is_unsigned<T>::value) return Dec(Z::u(n));
  else return Dec(Z::ll(n));
}
template<typename T> struct Ty { typedef T type; };
template<typename F> inline void each_integral(F f) {
  f(Ty<char>(), "char"); f(Ty<signed char>(), "schar"); f(Ty<unsigned char>(), "uchar"); f(Ty<short>(), "short"); f(Ty<unsigned short>(), "ushort");
  f(Ty<int>(), "int"); f(Ty<unsigned>(), "uint"); f(Ty<long>(), "long"); f(Ty<unsigned long>(), "ulong"); f(Ty<long long>(), "llong"); f(Ty<unsigned long long>(), "ullong");
}
template<typename F> inline void each_floating(F f) { f(Ty<float>(), "float"); f(Ty<double>(), "double"); f(Ty<long double>(), "ldouble"); }
// boundary values of a built-in type
template<typename T> inline std::vector<T> boundary() {
  std::vector<T> r; typedef std::numeric_limits<T> L;
  if constexpr (std::is_integral<T>::value) {
    std::set<T> s = {T(0), T(1), T(2), T(7), T(100), L::max(), T(L::max() - 1), L::min(), T(L::min() + 1)};
    for (int k = 1; k < L::digits; ++k) { s.insert(T(T(1) << k)); s.insert(T((T(1) << k) - 1)); s.insert(T((T(1) << k) + 1)); }
    T p = 1; for (int k = 0; k < L::digits10; ++k) { p = T(p * 10); s.insert(p); s.insert(T(p - 1)); s.insert(T(p + 1)); }
    if (L::is_signed) { std::set<T> t; for (T x : s) if (x > 0) t.insert(T(-x)); s.insert(t.begin(), t.end()); }
    r.assign(s.begin(), s.end());
  } else {
    for (T x : {T(0), T(1), T(0.1L), T(1) / T(3), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(3.14159265358979323846L), T(99999999), T(100000000), T(123456.789L), T(1e22L), L::min(), L::min() * (1 + L::epsilon()), L::max(), L::max() / 3, T(0.5), T(1e-30L), std::ldexp(T(1), 63), std::ldexp(T(1), 64), std::ldexp(T(1), -40), std::ldexp(T(1) + L::epsilon(), 31), std::nextafter(T(8), T(0)), T(7e37L)}) { r.push_back(x); if (x != 0) r.push_back(-x); }
  }
  return r;
}
#endif
