// P35: nothing the library is asked to do has undefined behaviour (built with AddressSanitizer and UndefinedBehaviorSanitizer).
#include "mc.h"
#include "ops.cpp"
#include <climits>
#include <complex>
using namespace mc; using std::vector; using std::string;
// UndefinedBehaviorSanitizer reports each site once per process and goes on; each report is a violation of the trace that caused it. AddressSanitizer ends the process.
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static string ub;
extern "C" { void __ubsan_get_current_report_data(const char**, const char**, const char**, unsigned*, unsigned*, char**);
void __ubsan_on_report() { const char *k = "", *m = "", *f = ""; unsigned l = 0, c = 0; char* a = nullptr; __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a); if (ub.size() < 2000) ub += string(ub.empty() ? "" : "; ") + m + " at " + f + ":" + std::to_string(l); } }
// GMP and MPFR are not built with AddressSanitizer: what they are asked to store in a buffer of the library is stored by the harness.
#include <cstdarg>
#include <cstring>
extern "C" {
#if defined(E_FLOAT_TYPE_GMP)
char* __real___gmpf_get_str(char*, long*, int, size_t, const void*); int __gmp_vasprintf(char**, const char*, va_list);
char* __wrap___gmpf_get_str(char* s, long* e, int b, size_t n, const void* x) { char* t = __real___gmpf_get_str(nullptr, e, b, n, x); if (!s) return t; memcpy(s, t, strlen(t) + 1); free(t); return s; }
int __wrap___gmp_sprintf(char* s, const char* f, ...) { char* t; va_list v; va_start(v, f); int r = __gmp_vasprintf(&t, f, v); va_end(v); memcpy(s, t, strlen(t) + 1); free(t); return r; }
#elif defined(E_FLOAT_TYPE_MPFR)
char* __real_mpfr_get_str(char*, long*, int, size_t, const void*, int); int __gmpfr_vasprintf(char**, const char*, va_list); void mpfr_free_str(char*);
char* __wrap_mpfr_get_str(char* s, long* e, int b, size_t n, const void* x, int r) { char* t = __real_mpfr_get_str(nullptr, e, b, n, x, r); if (!s) return t; memcpy(s, t, strlen(t) + 1); mpfr_free_str(t); return s; }
int __wrap_mpfr_sprintf(char* s, const char* f, ...) { char* t; va_list v; va_start(v, f); int r = __gmpfr_vasprintf(&t, f, v); va_end(v); memcpy(s, t, strlen(t) + 1); mpfr_free_str(t); return r; }
#endif
}
static e_float num(const string& t) {
  if (t == "inf") return NL::infinity(); if (t == "-inf") return -NL::infinity(); if (t == "nan") return NL::quiet_NaN();
  if (t == "max") return (NL::max)(); if (t == "lowest") return -(NL::max)(); if (t == "min") return (NL::min)(); if (t == "-min") return -(NL::min)(); if (t == "eps") return NL::epsilon();
  if (t == "1/3") return e_float(1) / 3; if (t == "-pi*1e30") return ef::pi() * e_float("-1e30"); if (t == "2^64*2^64") { e_float x(ULLONG_MAX); return x * x; }
  if (t == "reduced") { e_float x = ef::pi() * 100; x.precision(20); return x; }
  return e_float(t);
}
// memory kept per run: what is kept once (caches and pools of the libraries underneath, tables) is not a leak
template<class F> static void keeps(Run& R, F f) {
  size_t a = __sanitizer_get_current_allocated_bytes(); f(); if (__sanitizer_get_current_allocated_bytes() <= a) return;
  for (int i = 0; i < 40; ++i) f();
  a = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 40; ++i) f();
  const ssize_t k = (ssize_t)__sanitizer_get_current_allocated_bytes() - (ssize_t)a; R.count("memory observed over 80 runs"); if (k >= 40) R.fail("the operation keeps memory: %zd bytes in 40 runs", k);
}
int main(int argc, char** argv) {
  Run R(argc, argv); auto ub_check = [&] { if (!ub.empty()) { R.fail("undefined behaviour: %s", ub.c_str()); ub.clear(); } }; const bool T = R.thorough; const long D = NL::digits10, E = NL::max_exponent10;
  const string nines(D, '9'), one0 = "1." + string(D - 2, '0') + "1";
  vector<string> V = {"0", "1", "-1", "2", "-2.5", "0.5", "inf", "-inf", "nan", "max", "lowest", "min", "-min", "eps", "1/3", "-pi*1e30", "2^64*2^64", "reduced", "2147483647", "-2147483648", "2147483648", "4294967295", "-4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "-18446744073709551616", "1e40",
    nines, "-0." + nines, one0, "-" + one0 + "e-20", "7e-200", "3e1000000", "-3e-1000000", "1e" + std::to_string(E / 2 + 1), "-9.9e" + std::to_string(-(E / 2 + 1)), "1e" + std::to_string(E - 9), "170.625", "100003", "1e8", "99999999.99999999", "-1e-8", "0.9999"};
  if (T) for (string s : {"-3", "10", "1.5", "-0.0001", "12345678.87654321", "-1e16", "1e-16", "6.02e23", "65536", "-0.999", "33.3", "1e300", "-1e-310", "1.7976931348623157e308", "4.9e-324", "1e4932", "-1e-4951"}) V.push_back(s);
  auto order_ok = [](const e_float& x) { return !x.isfinite() || x.iszero() || (x.order() < 5 && x.order() > -400); };   // several ms and up: only where the time is bounded
  const size_t n = V.size(), CH = 128;
  for (size_t i = 0; i < N; ++i) {
    const string nm = ops[i].op.name;
    const bool sweep = ops[i].op.weight || nm.find("f0") != string::npos || nm.find("f1") != string::npos || nm.find("pfq") != string::npos || nm.find("zeta") != string::npos || nm.find("pochhammer") != string::npos || nm.find("binomial") != string::npos || nm.find("gamma") != string::npos;
    vector<std::pair<string, string>> ps; ps.push_back({"0.7310585786300048792511592418", "2.25"});
    if (sweep) { for (auto& v : V) { ps.push_back({v, "2.25"}); ps.push_back({"0.7310585786300048792511592418", v}); } }
    else for (auto& v : V) for (auto& w : V) if (T || &v == &w || v.size() < 5 || w.size() < 5 || ((&v - &V[0]) * 7 + (&w - &V[0]) + i) % 3 == 0) ps.push_back({v, w});
    for (size_t c = 0; c * CH < ps.size(); ++c) if (R.unit(S("%s.%zu", nm.c_str(), c))) {
      { const e_float p1(3), p2("0.125"), p3("2.5"), p4("-7.75"); if (c && ops[i].f(p1, p2) == ops[i].f(p3, p4) && ops[i].f(p1, p2) == ops[i].f(p2, p4)) { R.count("operations without operands run once"); continue; } }
      for (size_t k = c * CH; k < std::min(ps.size(), (c + 1) * CH); ++k) { if (!R.begin(S("%zu", k))) continue;
        const e_float a = num(ps[k].first), b = num(ps[k].second);
        if (sweep && !(order_ok(a) && order_ok(b))) { R.count("left out: no bound on the time"); continue; }
        if (nm.find("fixed") != string::npos && (a.order() > 3000 || b.order() > 3000)) { R.count("left out: as long as the value"); continue; }
        bool trig = false; for (auto w : {"sin", "cos", "tan", "cot", "sec", "csc", "z ", "polar", "cis", "arg"}) trig |= nm.find(w) != string::npos;
        if (trig && nm[0] != 'a' && (a.order() > 600 || b.order() > 600)) { R.count("left out: reduction modulo pi of values this large"); continue; }
        { string r = ops[i].f(a, b); R.state(nm + r); } R.step(2); keeps(R, [&] { string r = ops[i].f(a, b); }); ub_check(); } } }
  // integer arguments at the ends of their types
  struct X { const char* n; std::function<string(long long)> f; };
  const e_float a("0.73"), b("-2.25"), big("1e1000"); const EC z(a, b);
#define XI(name, expr) {name, [&](long long n) -> string { (void)n; return s(expr); }}
#define XB(name, ...) {name, [&](long long n) -> string { (void)n; __VA_ARGS__ }}
  vector<X> xs = {
    XI("pow", ef::pow(a, (std::int64_t)n)), XI("pow neg", ef::pow(b, (std::int64_t)n)), XI("pow one", ef::pow(ef::one(), (std::int64_t)n)), XI("pow -one", ef::pow(-ef::one(), (std::int64_t)n)), XI("pow zero", ef::pow(ef::zero(), (std::int64_t)n)), XI("pow ten", ef::pow(ef::ten(), (std::int64_t)n)), XI("pow inf", ef::pow(NL::infinity(), (std::int64_t)n)),
    XI("pow2", ef::pow2((std::int64_t)n)), XI("ldexp", ef::ldexp(a, (int)n)), XI("ldexp big", ef::ldexp(big, (int)n)), XI("rootn", ef::rootn(a, (std::int32_t)n)), XI("rootn big", ef::rootn(big, (std::int32_t)n)), XI("rootn_inverse", ef::rootn_inverse(a, (std::int32_t)n)),
    XI("riemann_zeta", ef::riemann_zeta((std::int32_t)n)), XI("factorial2", ef::factorial2((std::int32_t)n)), XI("factorial", ef::factorial((std::uint32_t)n)),
    XI("gamma_near_n", ef::gamma_near_n((std::int32_t)n, e_float("1e-20"))), XI("binomial", ef::binomial((std::uint32_t)(n < 0 ? 7 : n > 1000 ? 1000 : n), (std::uint32_t)n)), XI("pochhammer", ef::pochhammer(a, (std::uint32_t)(n < 0 || n > 3000 ? 3001 : n))), XI("binomial2", ef::binomial((std::uint32_t)n, a)), XI("binomial3", ef::binomial(a, (std::uint32_t)n)),
    XI("a+n", a + n), XI("a-n", a - n), XI("a*n", a * n), XI("a/n", a / n), XI("n-a", n - a), XI("n/a", n / a), XI("big+n", big + n), XI("n/big", n / big), XI("a+(int)n", a + (int)n), XI("a-(int)n", a - (int)n), XI("a*(int)n", a * (int)n), XI("a/(int)n", a / (int)n), XI("(int)n/a", (int)n / a), XI("a-(short)n", a - (short)n), XI("a/(signed char)n", a / (signed char)n),
    XI("a+(ull)n", a + (unsigned long long)n), XI("a-(ull)n", a - (unsigned long long)n), XI("a*(ull)n", a * (unsigned long long)n), XI("a/(ull)n", a / (unsigned long long)n), XI("(ull)n/a", (unsigned long long)n / a), XI("a*(unsigned)n", a * (unsigned)n), XI("a/(unsigned)n", a / (unsigned)n), XI("inf-n", NL::infinity() - n), XI("zero-n", ef::zero() - n), XI("nan*n", NL::quiet_NaN() * n),
    XI("e_float(n)", e_float(n)), XI("e_float(ull)", e_float((unsigned long long)n)), XI("e_float(int)", e_float((int)n)), XI("e_float(double)", e_float((double)n)), XI("e_float(1.5, n)", e_float(1.5, (std::int64_t)n)), XI("e_float(-1.5, n)", e_float(-1.5, (std::int64_t)n)), XI("e_float(0.0, n)", e_float(0.0, (std::int64_t)n)), XI("a<n", a < n), XI("n==b", n == b), XI("n>=(ull)", e_float((unsigned long long)n) >= n),
    XI("1eN", e_float("1e" + std::to_string(n))), XI("-9.99eN", e_float("-9.99e" + std::to_string(n))), XI("0.0001EN", e_float("0.0001E" + std::to_string(n))), XI("N.5", e_float(std::to_string(n) + ".5")), XI("NeN", e_float(std::to_string(n) + "e" + std::to_string(n))), XI("order of 1eN", (long long)e_float("1e" + std::to_string(n)).order()),
    XB("precision", e_float t(a); t.precision((std::int32_t)n); t *= b; t /= a; return s(t);), XB("precision, sqrt", e_float t(a); t.precision((std::int32_t)n); return s(ef::sqrt(t)) + s(1 / t) + s(t + b);),
    XB("setprecision", std::ostringstream o; o << std::setprecision((int)std::max(-5LL, std::min(n, 3000LL))) << a << ' ' << std::fixed << a << ' ' << std::scientific << big; return o.str();), XB("setw", std::ostringstream o; o << std::setw((int)std::max(-5LL, std::min(n, 3000LL))) << std::internal << b; return o.str();),
    XB("z pow", return s(ef::pow(z, (std::int64_t)n));), XB("z + n", return s(z + e_float((int)n)) + s(z * e_float(n)) + s(z / e_float((int)n)) + s(e_float(n) / z);), XB("z pochhammer", return s(ef::pochhammer(z, (std::uint32_t)(n < 0 || n > 500 ? 500 : n)));),
    XI("fmod", ef::fmod(big, e_float(n))), XI("floor", ef::floor(e_float(n) + a)), XI("to int of n+a", (long long)ef::to_int32(e_float(n) + a)), XI("to ll of n+a", (long long)ef::to_int64(e_float(n) + a)), XI("to ll of n*2", (e_float(n) * 2).extract_signed_long_long()), XB("to ull of n*2", std::ostringstream o; o << (e_float(n) * 2).extract_unsigned_long_long(); return o.str();),
    XI("to double of 1eN", e_float("3.7e" + std::to_string(n)).extract_double()), XB("to long double of 1eN", std::ostringstream o; o << e_float("3.7e" + std::to_string(n)).extract_long_double(); return o.str();), XI("double to_int64", (long long)ef::to_int64((double)n * 3)), XI("double to_int32", (long long)ef::to_int32((double)n * 3)), XI("order_of", (long long)ef::order_of((double)n)),
    XB("to parts", double m; std::int64_t e; ef::to_parts(e_float("3.7e" + std::to_string(n)), m, e); return s(m) + s((long long)e);), XB("frexp", int e; e_float m = ef::frexp(e_float("3.7e" + std::to_string(n)), &e); return s(m);),
    XB("prime", std::deque<std::uint32_t> p; ef::prime((std::uint32_t)(n < 0 || n > 20000 ? 20000 : n), p); return s((long long)p.size());), XB("prime_factors", std::deque<Util::point<std::uint32_t>> p; ef::prime_factors((std::uint32_t)n, p); return s((long long)p.size());),
    XB("bernoulli_table", std::vector<e_float> v; ef::bernoulli_table(v, (std::uint32_t)(n < 0 || n > 130 ? 130 : n)); return s((long long)v.size());), XI("bernoulli", ef::bernoulli((std::uint32_t)n)),
  };
  vector<long long> ns; for (long long c : {0LL, 127LL, -128LL, 255LL, 32767LL, -32768LL, 65535LL, (long long)INT_MAX, (long long)INT_MIN, 4294967295LL, LLONG_MAX, LLONG_MIN, (long long)E, -(long long)E, 2 * (long long)E, -2 * (long long)E, 99999999LL, 100000000LL, -100000000LL, 9999999999999999LL, 1000LL, -1000LL, 308LL, -308LL, 323LL, -324LL, 4932LL, -4951LL})
    for (long long d = -2; d <= 2; ++d) { if ((d > 0 && c > LLONG_MAX - d) || (d < 0 && c < LLONG_MIN - d)) continue; ns.push_back(c + d); }
  for (long long k = 2; k < 40; ++k) ns.push_back(k), ns.push_back(-k);
  std::sort(ns.begin(), ns.end()); ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
  for (auto& x : xs) if (R.unit(S("int.%s", x.n))) for (long long v : ns) { if (!R.begin(S("%lld", v))) continue; { string r = x.f(v); R.state(x.n + r); } R.step(2); keeps(R, [&] { string r = x.f(v); }); ub_check(); }
  // floating-point arguments of every magnitude
  vector<double> ds = {0.0, -0.0, 0.1, -2.5, std::nan(""), 1e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, -4.9e-324, 9007199254740993.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 2147483648.0, -2147483649.0, 1e-20, 1e20, HUGE_VAL, -HUGE_VAL, 1e-310, 0.9999999999999999};
  for (size_t i = 0; i < ds.size(); ++i) if (R.unit(S("double.%zu", i))) for (int f = 0; f < 4; ++f) { if (!R.begin(S("%d", f))) continue;
    const double d = ds[i]; string r; if (f == 0) r = s(e_float(d)) + s(a + d) + s(d / a) + s(a * d) + s(d - b) + s(a < d) + s(d == b); if (f == 1) { const float g = d != d || std::isinf(d) ? (float)d : std::fabs(d) > 3e38 ? 3e38f : (float)d; r = s(e_float(g)) + s(a + g) + s(g / a) + s(a < g); }
    if (f == 2) { const long double l = (long double)d * d * d * d; r = s(e_float(l)) + s(a + l) + s(l / a) + s(a < l) + s(e_float(l) == l); } if (f == 3) r = s((long long)ef::to_int64(d)) + s((long long)ef::to_int32(d)) + s((long long)ef::order_of(d)) + s(ef::isint(d)) + s(e_float(d, 3)) + s(e_float(d, -3)) + s(EC(a, b) * e_float(d)) + s(EC(e_float(d), e_float(d)));
    R.step(); R.state(r); ub_check(); }
  // text of any kind
  vector<string> tok = {"", "+", "-", ".", "0", "7", "e", "E", "+5", "-5", "00000000", "123456789", " ", "x", "inf", "nan", "e+", "e99999999999999999999", "e-9223372036854775808", "e9223372036854775807", "e2147483648", "1e-30", "\t", "\n", "'", ",", "(", ")", string(200, '0'), string(D + 40, '9'), string(1, '\0'), "\xff", "0x1p5", "1#INF", "--", ".5."};
  for (size_t i = 0; i < tok.size(); ++i) if (R.unit(S("text.%zu", i))) for (size_t j = 0; j < tok.size(); ++j) for (size_t k = 0; k < tok.size(); ++k) for (size_t l = 0; l < (T ? tok.size() : 1); ++l) { if (!T && (i + j * 3 + k) % 2) continue; if (!R.begin(S("%zu.%zu.%zu", j, k, l))) continue;
    const string t = tok[i] + tok[j] + tok[k] + tok[l]; string r = s(e_float(t)) + s(e_float(t.c_str())); { std::istringstream in(t); e_float x; in >> x; r += s(x) + (in.fail() ? "f" : "g"); } { std::istringstream in(t); EC x; in >> x; r += s(x) + (in.fail() ? "f" : "g"); } { std::istringstream in(t); in.exceptions(std::ios::failbit); e_float x; try { in >> x; } catch (std::exception&) { r += "!"; } } R.step(5); R.state(r); ub_check(); }
  return R.finish();
}
