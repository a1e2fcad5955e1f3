#include "ops.h"
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/integer/prime_factors.h>
#include <functional>
#include <iomanip>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
typedef ef::complex<e_float> EC;
typedef const e_float& R;
extern "C" { __thread int verif_paused; }              // printing results is no part of the operation
struct Pause { Pause() { ++verif_paused; } ~Pause() { --verif_paused; } };
static std::string s(R x) { Pause p; std::ostringstream o; o << std::setprecision(std::numeric_limits<e_float>::digits10 + 20) << std::scientific << x; return o.str(); }
static std::string s(const EC& z) { return s(z.real()) + " " + s(z.imag()); }
static std::string s(bool b) { return b ? "1" : "0"; }
static std::string s(long long n) { Pause p; std::ostringstream o; o << n; return o.str(); }
static std::string s(double d) { Pause p; std::ostringstream o; o << std::setprecision(20) << d; return o.str(); }
static std::string s(const std::string& t) { return t; }
struct Entry { VerifOp op; std::string (*f)(R, R); };
#define O(name, expr) {{name, 0}, [](R a, R b) -> std::string { (void)a; (void)b; return s(expr); }}
#define H(name, expr) {{name, 1}, [](R a, R b) -> std::string { (void)a; (void)b; return s(expr); }}
#define B(name, ...) {{name, 0}, [](R a, R b) -> std::string { (void)a; (void)b; __VA_ARGS__ }}
#define K(c) {{#c, 0}, [](R, R) -> std::string { return s(ef::c()); }}
typedef std::numeric_limits<e_float> NL;
static const Entry ops[] = {
  // arithmetic, comparison, conversion, text (a = 0.7310585786300048792511592418, b = 2.25)
  O("a+b", a + b), O("a-b", a - b), O("a*b", a * b), O("a/b", a / b), O("-a", -a), O("a*7", a * 7), O("a/7", a / 7), O("3/a", 3 / a), O("a+1.5", a + 1.5), O("a-2ULL", a - 2ULL), O("b-a-b", b - a - b),
  B("a*=a", e_float t(a); t *= t; return s(t);), B("a/=b;--", e_float t(a); t /= b; --t; return s(t);), B("++a", e_float t(a); t++; return s(t);), B("swap", e_float t(a), u(b); std::swap(t, u); return s(t) + s(u);), B("assign", e_float t; t = a; t = e_float(b); return s(t);),
  O("a<b", a < b), O("a==b", a == b), O("a>=2", a >= 2), O("b!=2.25", b != 2.25),
  O("read", e_float("123.456e-7")), O("read long", e_float("31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679821480865.1328e-5")), O("bad text", e_float("xyz")),
  O("from int", e_float(-123456789)), O("from ull", e_float(18446744073709551615ULL)), O("from double", e_float(0.1)), O("from long double", e_float(3.25L)), O("from parts", e_float(1.5, 30)), O("from limbs", e_float({12345678u, 5u}, 16)),
  O("to double", a.extract_double()), B("to long double", std::ostringstream o; o << a.extract_long_double(); return o.str();), O("to int", (long long)ef::to_int32(b)), O("to ll", (b * 1000000).extract_signed_long_long()), B("to ull", std::ostringstream o; o << (b * 1000000).extract_unsigned_long_long(); return o.str();), O("to huge double", e_float("1e400").extract_double()),
  B("fixed", std::ostringstream o; o.exceptions(std::ios::badbit); o << std::fixed << std::setprecision(12) << std::showpos << std::setw(30) << a; return o.str();), B("showpoint", std::ostringstream o; o.exceptions(std::ios::badbit); o << std::showpoint << std::uppercase << b; return o.str();), B("extract", std::istringstream i("2.5e3 7"); e_float t, u; i >> t >> u; return s(t) + s(u);),
  O("order", (long long)a.order()), O("isint", b.isint()), O("iszero", a.iszero()), O("isone", a.isone()),
  // numeric limits and constants: first use
  O("max", (NL::max)()), O("min", (NL::min)()), O("lowest", NL::lowest()), O("epsilon", NL::epsilon()), O("infinity", NL::infinity()), O("NaN", NL::quiet_NaN()), O("round_error", NL::round_error()), O("value_eps", ef::value_eps()), O("1/0", a / 0), O("0*inf", NL::infinity() * 0), O("overflow", e_float("1e1000000000000")),
  K(zero), K(one), K(half), K(two), K(three), K(four), K(five), K(six), K(seven), K(eight), K(nine), K(ten), K(fifty), K(hundred), K(thousand), K(million), K(billion), K(trillion), K(googol), K(int64_min), K(int64_max), K(int32_min), K(int32_max), K(unsigned_long_long_max), K(signed_long_long_max), K(signed_long_long_min), K(double_min), K(double_max), K(long_double_min), K(long_double_max), K(one_minus), K(tenth), K(eighth), K(fifth), K(quarter), K(third), K(two_third), K(three_half), K(sqrt2), K(pi), K(pi_half), K(pi_squared), K(two_pi), K(sqrt_pi), K(e), K(ln2), K(ln10), K(phi), K(euler_gamma), K(catalan), K(khinchin), K(glaisher),
  // real functions
  O("fabs", ef::fabs(-a)), O("floor", ef::floor(-b)), O("ceil", ef::ceil(b)), O("sgn", (long long)ef::sgn(a)), O("ldexp", ef::ldexp(a, 40)), B("frexp", int n; e_float m = ef::frexp(b * 1000, &n); return s(m) + s((long long)n);), O("fmod", ef::fmod(b * 100, a)), O("integer_part", ef::integer_part(b)), O("decimal_part", ef::decimal_part(b)), O("to_int64", (long long)ef::to_int64(b * 1e10)), O("to_int32", (long long)ef::to_int32(b * 1e10)), O("small_arg", ef::small_arg(a)), O("large_arg", ef::large_arg(a)), O("near_one", ef::near_one(a)), O("near_int", ef::near_int(b)), B("to_parts", double m; std::int64_t e; ef::to_parts(a, m, e); return s(m) + s((long long)e);),
  O("pow2", ef::pow2(77)), O("pow2 neg", ef::pow2(-300)), O("inv", ef::inv(b)), O("sqrt", ef::sqrt(a)), O("cbrt", ef::cbrt(b)), O("rootn 5", ef::rootn(a, 5)), O("rootn -7", ef::rootn(b, -7)), O("rootn_inverse", ef::rootn_inverse(b, 3)),
  O("exp", ef::exp(a)), O("exp big", ef::exp(b * 1000)), O("exp tiny", ef::exp(a / 1e20)), O("log", ef::log(b)), O("log near 1", ef::log(1 + a / 1e10)), O("log10", ef::log10(b)), O("loga", ef::loga(b, a)), O("log1p", ef::log1p(a / 1000)), O("log1p1m2", ef::log1p1m2(a / 100)), O("pow", ef::pow(b, a)), O("pow int", ef::pow(a, 31)), O("pow neg", ef::pow(b, -12)),
  O("sin", ef::sin(a)), O("sin big", ef::sin(b * 1e10)), O("cos", ef::cos(b)), O("cos tiny", ef::cos(a / 1e30)), O("tan", ef::tan(a)), O("csc", ef::csc(b)), O("sec", ef::sec(a)), O("cot", ef::cot(b)), B("sincos", e_float x, y; ef::sincos(b, &x, &y); return s(x) + s(y);), O("asin", ef::asin(a)), O("acos", ef::acos(a)), O("acos near 1", ef::acos(1 - a / 1e9)), O("atan", ef::atan(b)), O("atan2", ef::atan2(-a, -b)),
  B("sinhcosh", e_float x, y; ef::sinhcosh(a, &x, &y); return s(x) + s(y);), O("sinh", ef::sinh(b)), O("cosh", ef::cosh(a)), O("tanh", ef::tanh(b)), O("asinh", ef::asinh(b)), O("acosh", ef::acosh(b)), O("atanh", ef::atanh(a)),
  O("0f0", ef::hypergeometric_0f0(a)), O("0f1", ef::hypergeometric_0f1(b, a)), O("1f0", ef::hypergeometric_1f0(b, a / 2)), O("1f1", ef::hypergeometric_1f1(a, b, b)), O("2f0", ef::hypergeometric_2f0(e_float(-4), b, a)), O("2f1", ef::hypergeometric_2f1(a, b, b + 1, a / 4)), B("pfq", std::deque<e_float> p(2, a), q(1, b); return s(ef::hypergeometric_pfq(p, q, a / 3));),
  // special functions
  O("gamma int", ef::gamma(e_float(12))), H("gamma", ef::gamma(b)), H("gamma half", ef::gamma(e_float("7.5"))), H("gamma neg", ef::gamma(-b)), H("gamma big", ef::gamma(b * 300)), H("gamma near", ef::gamma_near_n(-3, a / 1e20)), O("gamma pole", ef::gamma(e_float(-2))),
  O("factorial 30", ef::factorial(30)), O("factorial 1500", ef::factorial(1500)), O("factorial2 31", ef::factorial2(31)), O("factorial2 -7", ef::factorial2(-7)), O("binomial", ef::binomial(40u, 17u)), O("binomial big", ef::binomial(1000u, 333u)), H("binomial real", ef::binomial(a, b)), H("binomial x k", ef::binomial(a, 5u)), H("binomial n y", ef::binomial(9u, a)), O("pochhammer", ef::pochhammer(a, 9u)), H("pochhammer real", ef::pochhammer(a, b)),
  O("bernoulli 10", ef::bernoulli(10)), O("bernoulli 1", ef::bernoulli(1)), O("bernoulli 200", ef::bernoulli(200)), H("bernoulli 2000", ef::bernoulli(2000)), B("bernoulli_table 12", std::vector<e_float> v; ef::bernoulli_table(v, 12); std::string t; for (auto& x : v) t += s(x); return t;), B("bernoulli_table 41", std::vector<e_float> v(100, a); ef::bernoulli_table(v, 41); std::string t; for (auto& x : v) t += s(x); return t;),
  B("prime 20", std::deque<std::uint32_t> p; ef::prime(20, p); std::string t; for (auto x : p) t += s((long long)x) + " "; return t;), B("prime 300", std::deque<std::uint32_t> p(5, 9); ef::prime(300, p); std::string t; for (auto x : p) t += s((long long)x) + " "; return t;), {{"prime 7000", 1}, [](R, R) -> std::string { std::deque<std::uint32_t> p; ef::prime(7000, p); unsigned long long h = p.size(); for (auto x : p) h = h * 1000003 + x; return s((long long)h); }},
  B("prime_factors 360360", std::deque<Util::point<std::uint32_t>> p; ef::prime_factors(360360, p); std::string t; for (auto& x : p) t += s((long long)x.x) + "^" + s((long long)x.y) + " "; return t;), B("prime_factors 4294967291", std::deque<Util::point<std::uint32_t>> p; ef::prime_factors(4294967291u, p); std::string t; for (auto& x : p) t += s((long long)x.x) + "^" + s((long long)x.y) + " "; return t;), B("prime_factors 2147117569", std::deque<Util::point<std::uint32_t>> p; ef::prime_factors(2147117569u, p); std::string t; for (auto& x : p) t += s((long long)x.x) + "^" + s((long long)x.y) + " "; return t;),
  O("zeta 4", ef::riemann_zeta(4)), O("zeta 0", ef::riemann_zeta(0)), O("zeta -7", ef::riemann_zeta(-7)), O("zeta 77", ef::riemann_zeta(77)), H("zeta 3", ef::riemann_zeta(3)), H("zeta real", ef::riemann_zeta(b)), H("zeta half", ef::riemann_zeta(e_float("0.5"))), H("zeta 40.5", ef::riemann_zeta(e_float("40.5"))), H("zeta neg", ef::riemann_zeta(-b)), H("zeta near 1", ef::riemann_zeta(1 + a / 1e10)), O("zeta 300.5", ef::riemann_zeta(e_float("300.5"))),
  // complex numbers
  O("z+w", EC(a, b) + EC(b, -a)), O("z*w", EC(a, b) * EC(b, -a)), O("z/w", EC(a, b) / EC(b, -a)), O("z*a", EC(a, b) * a), O("a/z", a / EC(a, b)), B("z*=z", EC z(a, b); z *= z; z /= z; return s(z);), O("abs", ef::abs(EC(a, b))), O("arg", ef::arg(EC(a, b))), O("polar", ef::polar(a, b)), O("z exp", ef::exp(EC(a, b))), O("z log", ef::log(EC(a, b))), O("z log10", ef::log10(EC(a, b))), O("z sqrt", ef::sqrt(EC(-a, b))), O("z sin", ef::sin(EC(a, b))), O("z cos", ef::cos(EC(a, b))), O("z tan", ef::tan(EC(a, b))), O("z sinh", ef::sinh(EC(a, b))), O("z cosh", ef::cosh(EC(a, b))), O("z tanh", ef::tanh(EC(a, b))), O("z asin", ef::asin(EC(a, b))), O("z acos", ef::acos(EC(a, b))), O("z atan", ef::atan(EC(a, b))), O("z asinh", ef::asinh(EC(a, b))), O("z acosh", ef::acosh(EC(a, b))), O("z atanh", ef::atanh(EC(a, b))), O("z pow", ef::pow(EC(a, b), EC(b, a))), O("z pow a", ef::pow(EC(a, b), a)), O("z pow 7", ef::pow(EC(a, b), 7)), O("z ==", EC(a, b) == EC(a, b)),
  B("z write", std::ostringstream o; o.exceptions(std::ios::badbit); o << std::setprecision(9) << EC(a, b); return o.str();), B("z read", std::istringstream i("(2.5,-3e4)"); EC z; i >> z; return s(z);), H("z gamma", ef::gamma(EC(a, b))), H("z pochhammer", ef::pochhammer(EC(a, b), 5u)), H("z zeta", ef::riemann_zeta(EC(b, a))), H("z zeta 0.5", ef::riemann_zeta(EC(a, 14 * b))),
#if E_FLOAT_VERIF_DIGITS10 > 1010
  // one product long enough for FFT multiplication
#endif
};
static const size_t N = sizeof ops / sizeof ops[0];
extern "C" size_t verif_ops(const VerifOp** list) { static VerifOp l[N]; for (size_t i = 0; i < N; ++i) l[i] = ops[i].op; *list = l; return N; }
struct Operands { e_float a, b; Operands() : a(std::string("0.7310585786300048792511592418")), b(std::string("2.25")) { } };
// operands that resemble each other: the same double, the same text of few digits, integer part, fraction, digits, magnitude, ...
extern "C" int verif_variant; int verif_variant = 0;
extern "C" int verif_variants() { return 14; }
static Operands vary() {
  Operands o; const e_float e20("1e-20"), e60("1e-60"), e9("1e-9");
  switch (verif_variant) {
    case 1: o.a += e20; break;      case 2: o.b += e20; break;       case 3: o.a += e60; break;    case 4: o.b -= e60; break;
    case 5: o.a = -o.a; break;      case 6: o.b = -o.b; break;       case 7: o.a += 1; break;      case 8: o.b += 2; break;
    case 9: o.a *= e_float("1e-8"); break; case 10: o.b *= e_float("1e-8"); break; case 11: std::swap(o.a, o.b); break;
    case 12: o.a += e9; o.b += e9; break;  case 13: o.a = o.b; break;
  }
  return o;
}
extern "C" void* verif_operands() { return new Operands; }
extern "C" void verif_op(size_t i, void* p, char* out, size_t n) {
  std::string r;
  if (p) { Operands* o = static_cast<Operands*>(p); r = ops[i].f(o->a, o->b); }
  else { Operands o(vary()); const Operands c(vary()); r = ops[i].f(o.a, o.b); if (s(o.a) != s(c.a) || s(o.b) != s(c.b)) r += " operands changed"; }
  std::strncpy(out, r.c_str(), n - 1); out[n - 1] = 0;
}
