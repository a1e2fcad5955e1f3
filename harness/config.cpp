// P25: every digit configuration: numeric limits, constants, and every kind of operation at that size.
#include "mc.h"
#include "func.h"
using std::vector; using std::string;
static long WANT() { long d = E_FLOAT_VERIF_DIGITS10; return d < 30 ? 30 : d; }
static MP bern(long n) { MP b = MP(2L) * ref::gamma(MP(n + 1)) * ref::zeta(MP(n)) / ref::powi(MP(2L) * ref::pi(), n); return n % 4 == 0 ? -b : b; }
static MP glaisher() {                       // Euler-Maclaurin summation of k ln k
  long N = D10 + 60; MP n(N), s(0L), l = ref::log(n), tol = ten_to(-D10 - 40);
  for (long k = 2; k <= N; ++k) s = s + MP(k) * ref::log(MP(k));
  s = s - (n * n / MP(2L) + n / MP(2L) + MP(1L) / MP(12L)) * l + n * n / MP(4L);
  MP p = n * n, t;
  for (long j = 2; j < 4 * N; ++j) { t = bern(2 * j) / (MP(2 * j) * MP(2 * j - 1) * MP(2 * j - 2) * p); s = s + t; if (ref::abs(t) < tol) break; p = p * n * n; }
  return ref::exp(s);
}
static MP khinchin() {                       // Bailey, Borwein, Crandall
  const long N = 30; MP s(0L), one(1L), h(0L), tol = ten_to(-D10 - 40);
  for (long k = 2; k <= N; ++k) s = s - ref::log(one - one / MP(k)) * ref::log(one + one / MP(k));
  for (long n = 1; n < 100000; ++n) {
    if (n > 1) h = h - one / MP(2 * n - 2);
    h = h + one / MP(2 * n - 1);
    MP z = ref::zeta(MP(2 * n)); for (long k = 1; k <= N; ++k) z = z - one / ref::powi(MP(k), 2 * n);
    MP t = z / MP(n) * h; s = s + t; if (ref::abs(t) < tol) break;
  }
  return ref::exp(s / ref::log(MP(2L)));
}
struct K { const char* name; const e_float& (*lib)(); std::function<MP()> f; };
int main(int argc, char** argv) {
  bool pionly = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "pi")) pionly = true;
  Run R(argc, argv); const bool T = R.thorough; const long W = D10; precision_for(2 * D10 + 40);
  auto is = [&](const char* what, const e_float& x, const MP& v) { value(R, what, x, {}, [&](const vector<MP>&) { return v; }); };
  if (R.unit("limits")) {
    typedef std::numeric_limits<e_float> L; R.state(S("limits %ld", W));
    auto ok = [&](const char* name, bool b) { if (!R.begin(name)) return; R.step(); if (!b) R.fail("%s does not hold with %ld digits configured", name, (long)E_FLOAT_VERIF_DIGITS10); };
    ok("digits10 is the configured number (at least 30)", L::digits10 == WANT());
    ok("max_digits10 is digits10 + 1", L::max_digits10 == L::digits10 + 1);
    ok("specialized, signed, not integer, not exact, with infinity and NaN", L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::has_infinity && L::has_quiet_NaN);
    const e_float one(1), eps = L::epsilon(), mx = L::max(), mn = L::min(), lo = L::lowest(), inf = L::infinity(), nan = L::quiet_NaN();
    ok("epsilon is 10^(1-digits10)", near(observe(eps), ref::pow10(1 - WANT()), rel(ref::pow10(1 - WANT()))));
    const Dec de = ref::pow10(1 - WANT()), half = Dec(de.m * Z(5L), de.e - 1);
    ok("1 + epsilon differs from 1 by epsilon", one + eps > one && near(observe((one + eps) - one), de, DECIMAL ? Dec(0) : half));
    ok("1 - epsilon differs from 1 by epsilon", one - eps < one && near(observe(one - (one - eps)), de, DECIMAL ? Dec(0) : half));
    ok("max is finite and positive", ef::isfinite(mx) && mx > 0);
    ok("lowest is -max", lo == -mx);
    ok("max is above 10^max_exponent10", mx > e_float("9.99e" + std::to_string(L::max_exponent10)));
    ok("min is positive", mn > 0 && ef::isfinite(mn));
    ok("min is not above 10^min_exponent10", mn <= e_float("1.0000001e" + std::to_string(L::min_exponent10)));
    ok("infinity is infinite and above max", ef::isinf(inf) && inf > mx && -inf < lo);
    ok("quiet_NaN is NaN", ef::isnan(nan) && !(nan == nan));
    ok("round_error is a half", L::round_error() * 2 == one);
    ok("max divided by itself is one", near(observe(mx / mx), Dec(1), DECIMAL ? Dec(0) : de));
    ok("1 / min is finite or 1 / max positive", ef::isfinite(one / mx) && one / mx >= 0);
    ok("tenfold max is infinite", ef::isinf(mx * 10) || pionly);
    ok("tolerance covers the digits", ef::tolerance() >= WANT());
    // the ulp: last guaranteed digit next to several values
    for (const char* s : {"1", "2", "3.5", "9", "99999999", "100000000", "12345678.9", "1e-7", "1e-8", "1e1000"}) {
      Dec d = ref::parse(s).d, u = ref::pow10(d.order() + 1 - WANT());
      ok(S("a change of the last guaranteed digit is seen at %s", s).c_str(), make(ref::add(d, u)) > make(d) && make(ref::sub(d, u)) < make(d) && near(observe(make(ref::add(d, u))), ref::add(d, u), DECIMAL ? Dec(0) : rel(d))); }
  }
  auto L = [](long n) { return std::function<MP()>([n] { return MP(n); }); };
  auto X = [](const char* s) { string t(s); return std::function<MP()>([t] { return MP(ref::parse(t).d); }); };
  auto LD = [](long double x) { return std::function<MP()>([x] { return MP(exact(x)); }); };
  vector<K> ks = {{"pi", &ef::pi, [] { return ref::pi(); }}, {"pi_half", &ef::pi_half, [] { return ref::pi() / MP(2L); }}, {"two_pi", &ef::two_pi, [] { return ref::pi() * MP(2L); }}, {"pi_squared", &ef::pi_squared, [] { return ref::pi() * ref::pi(); }}, {"sqrt_pi", &ef::sqrt_pi, [] { return ref::sqrt(ref::pi()); }},
    {"zero", &ef::zero, L(0)}, {"one", &ef::one, L(1)}, {"half", &ef::half, X("0.5")}, {"two", &ef::two, L(2)}, {"three", &ef::three, L(3)}, {"four", &ef::four, L(4)}, {"five", &ef::five, L(5)}, {"six", &ef::six, L(6)}, {"seven", &ef::seven, L(7)}, {"eight", &ef::eight, L(8)}, {"nine", &ef::nine, L(9)}, {"ten", &ef::ten, L(10)}, {"fifty", &ef::fifty, L(50)}, {"hundred", &ef::hundred, L(100)}, {"thousand", &ef::thousand, L(1000)}, {"million", &ef::million, L(1000000)}, {"billion", &ef::billion, L(1000000000)}, {"trillion", &ef::trillion, L(1000000000000)}, {"googol", &ef::googol, X("1e100")},
    {"int32_min", &ef::int32_min, L(INT32_MIN)}, {"int32_max", &ef::int32_max, L(INT32_MAX)}, {"int64_min", &ef::int64_min, L(INT64_MIN)}, {"int64_max", &ef::int64_max, L(INT64_MAX)}, {"unsigned_long_long_max", &ef::unsigned_long_long_max, X("18446744073709551615")}, {"signed_long_long_min", &ef::signed_long_long_min, L(INT64_MIN)}, {"signed_long_long_max", &ef::signed_long_long_max, L(INT64_MAX)},
    {"double_min", &ef::double_min, LD(std::numeric_limits<double>::min())}, {"double_max", &ef::double_max, LD(std::numeric_limits<double>::max())}, {"long_double_min", &ef::long_double_min, LD(std::numeric_limits<long double>::min())}, {"long_double_max", &ef::long_double_max, LD(std::numeric_limits<long double>::max())},
    {"one_minus", &ef::one_minus, L(-1)}, {"tenth", &ef::tenth, X("0.1")}, {"eighth", &ef::eighth, X("0.125")}, {"fifth", &ef::fifth, X("0.2")}, {"quarter", &ef::quarter, X("0.25")}, {"third", &ef::third, [] { return MP(1L) / MP(3L); }}, {"two_third", &ef::two_third, [] { return MP(2L) / MP(3L); }}, {"three_half", &ef::three_half, X("1.5")},
    {"sqrt2", &ef::sqrt2, [] { return ref::sqrt(MP(2L)); }}, {"e", &ef::e, [] { return ref::exp(MP(1L)); }}, {"ln2", &ef::ln2, [] { return ref::ln2(); }}, {"ln10", &ef::ln10, [] { return ref::log(MP(10L)); }}, {"phi", &ef::phi, [] { return (MP(1L) + ref::sqrt(MP(5L))) / MP(2L); }}, {"euler_gamma", &ef::euler_gamma, [] { return ref::euler(); }}, {"catalan", &ef::catalan, [] { return ref::catalan(); }}, {"khinchin", &ef::khinchin, khinchin}, {"glaisher", &ef::glaisher, glaisher}};
  if (pionly) ks.resize(5);
  for (size_t i = 0; i < ks.size(); ++i) if (R.unit(S("constant.%s", ks[i].name))) { if (!R.begin("value")) continue; precision_for(D10 + 60); MP v = ks[i].f(); is(ks[i].name, ks[i].lib(), v); is(ks[i].name, ks[i].lib(), v); R.state(S("%s %ld", ks[i].name, W)); }
  // arithmetic at this length
  vector<string> P = {"1", repn("9", W), repn("31415926535897932384626433832795028841971", W - 1) + "3", "1" + string(W - 2, '0') + "1", repn("9999999900000000", W - 1) + "7", "4" + repn("9", W - 1), "5" + string(W - 2, '0') + "1"};
  if (T) for (string s : {repn("123456789", W), repn("9", W - 8), repn("0000000199999999", W).substr(7), string("725"), repn("2718281828459045", W)}) P.push_back(s);
  struct O { Dec d; e_float x; }; vector<O> Q;
  for (auto& p : P) for (long e : {0L, 3L}) { Dec d(Z(p), 0); d.e = e - d.order(); Q.push_back({d, make(d)}); }
  auto chk = [&](const char* what, const e_float& r, const Dec& w, const Dec& slack) { R.step(); Val o = observe(r); R.state(o.d.norm().str()); if (!near(o, w, slack)) R.fail("%s: library %s, exact %s", what, o.brief().c_str(), w.brief().c_str()); };
  for (size_t i = 0; i < Q.size(); ++i) if (R.unit(S("arith.%zu", i))) for (size_t j = 0; j < Q.size(); ++j) { if (!R.begin(S("%zu", j))) continue;
    const Dec &a = Q[i].d, &b = Q[j].d; const e_float &x = Q[i].x, &y = Q[j].x; Dec m = ref::absd(a) < ref::absd(b) ? b : a;
    chk("a*b", x * y, ref::mul(a, b), rel(ref::mul(a, b)));
    { Dec q = ref::div(a, b, W + 20); chk("a/b", x / y, q, rel(q)); }
    chk("a+b", x + y, ref::add(a, b), rel(m)); chk("a-b", x - y, ref::sub(a, b), rel(m));
    R.step(); if ((x < y) != (a < b) || (x == y) != (ref::cmp(a, b) == 0)) R.fail("comparison of %s and %s", a.brief().c_str(), b.brief().c_str());
    if (j == i) { for (long prec : {W + 1, W, 20L}) { std::ostringstream os; os << std::setprecision((int)prec) << std::scientific << x; Dec w = ref::round_sig(a, prec + 1); Val o = ref::parse(os.str()); R.step();
        if (!near(o, w, ref::absd(rel(w, std::min(prec + 1, W))))) R.fail("printed with %ld digits: %s for %s", prec, o.brief().c_str(), a.brief().c_str());
        if (prec > W) { R.step(); if (!(e_float(os.str()) == x) && DECIMAL) R.fail("printing and reading %s changes it", a.brief().c_str()); } }
      chk("x*x/x", x * x / x, a, ref::add(rel(a), rel(a))); { e_float t(x); t *= t; chk("t*=t", t, ref::mul(a, a), rel(ref::mul(a, a))); }
      if (a.sign() > 0) value(R, "sqrt", ef::sqrt(x), {MP(a)}, [](const vector<MP>& v) { return ref::sqrt(v[0]); });
      chk("integer_part", ef::integer_part(x), ref::trunc_sig(a, a.order() + 1 > 0 ? a.order() + 1 : 0), Dec(0)); } }
  if (pionly) return R.finish();
  // one point of every elementary function from each of its ranges
  struct F { const char* n; e_float (*lib)(const e_float&); MP (*r)(const MP&); vector<const char*> at; };
  vector<F> fs = {{"exp", &ef::exp, &ref::exp, {"0.1", "1.75", "-30.3", "1000.5"}}, {"log", &ef::log, &ref::log, {"0.3", "2.75", "1.0000000001", "1e50"}}, {"sin", &ef::sin, &ref::sin, {"0.1", "1.5", "-3.125", "100.7"}}, {"cos", &ef::cos, &ref::cos, {"0.1", "1.5", "-3.125", "100.7"}}, {"tan", &ef::tan, &ref::tan, {"0.1", "1.5", "-3.125", "100.7"}},
    {"asin", &ef::asin, &ref::asin, {"0.001", "0.3", "-0.75", "0.9999"}}, {"acos", &ef::acos, &ref::acos, {"0.001", "0.3", "-0.75", "0.9999"}}, {"atan", &ef::atan, &ref::atan, {"0.001", "0.7", "-1.5", "1e20"}}, {"sinh", &ef::sinh, &ref::sinh, {"0.001", "0.7", "-9.5", "100"}}, {"cosh", &ef::cosh, &ref::cosh, {"0.001", "0.7", "-9.5", "100"}}, {"tanh", &ef::tanh, &ref::tanh, {"0.001", "0.7", "-9.5", "40"}},
    {"asinh", &ef::asinh, &ref::asinh, {"0.001", "0.7", "-9.5", "1e20"}}, {"acosh", &ef::acosh, &ref::acosh, {"1.001", "1.7", "9.5", "1e20"}}, {"atanh", &ef::atanh, &ref::atanh, {"0.001", "0.7", "-0.99", "0.3"}}, {"cbrt", &ef::cbrt, &ref::cbrt, {"0.001", "0.7", "9.5", "1e21"}},
#ifndef VERIF_CORE
    {"gamma", &ef::gamma, &ref::gamma, {"0.5", "7.25", "-2.5"}}, {"zeta", &ef::riemann_zeta, &ref::zeta, {"0.5", "3", "7.25"}},
#endif
  };
  for (auto& f : fs) { long lim = !strcmp(f.n, "gamma") ? 350 : !strcmp(f.n, "zeta") ? 150 : 100000; if (D10 > (T ? 2 * lim : lim)) continue;
    if (R.unit(S("fn.%s", f.n))) for (auto p : f.at) { if (!R.begin(p)) continue; precision_for(2 * D10 + 80); Pt q = pt(string(p)); value(R, S("%s(%s)", f.n, p).c_str(), f.lib(arg(q)), {mpv(q.v)}, [&](const vector<MP>& v) { return f.r(v[0]); }); R.state(S("%s %s %ld", f.n, p, W)); } }
  if (R.unit("fn.pow")) for (const char* p : {"1.5 2.75", "0.3 -7.1", "100 0.001"}) { if (!R.begin(p)) continue; precision_for(2 * D10 + 80); string s(p); Pt a = pt(s.substr(0, s.find(' '))), b = pt(s.substr(s.find(' ') + 1)); value(R, p, ef::pow(arg(a), arg(b)), {mpv(a.v), mpv(b.v)}, [&](const vector<MP>& v) { return ref::pow(v[0], v[1]); }); }
  return R.finish();
}
