// P20 / P21: factorials, binomial coefficients, Pochhammer symbols; Bernoulli numbers, primes and factorizations.
#include "mc.h"
#include "cx.h"
#include <deque>
#include <functions/integer/prime_factors.h>
#include <utility/util_point.h>
using std::vector; using std::string;
static string mode = "fact";

static bool exactly(Run& R, const string& what, const e_float& got, const Dec& exact_value, long digits = -1) {
  R.step(); Val o = observe(got); const Dec want = ref::trunc_sig(exact_value, D10 + 60);
  if (!near(o, want, rel(want, digits))) { R.fail("%s: library %s, exact %s", what.c_str(), o.brief().c_str(), want.brief().c_str()); return false; }
  return true;
}
static vector<long> sizes(bool T) {                      // every small n, every n near the table ends, then spread
  vector<long> r; for (long n = 0; n <= (T ? 2600 : 1300); ++n) r.push_back(n);
  for (long n : {2001L, 2500L, 4000L, 9999L, 10000L, 16383L, 65536L, 100000L}) for (long d = -1; d <= 1; ++d) r.push_back(n + d);
  return r;
}
static void fact(Run& R) {
  const bool T = R.thorough;
  for (long n : sizes(T)) if (R.unit(S("factorial.%ld", n))) { if (!R.begin("f")) continue;
    exactly(R, S("factorial(%ld)", n), ef::factorial((std::uint32_t)n), Dec(ref::fac(n))); R.state(S("f%ld", n)); }
  for (long n : sizes(T)) if (R.unit(S("factorial2.%ld", n))) {
    if (R.begin("f2")) { exactly(R, S("factorial2(%ld)", n), ef::factorial2((std::int32_t)n), Dec(ref::fac2(n))); R.state(S("d%ld", n)); }
    if (n && R.begin("neg")) {
      e_float g = ef::factorial2((std::int32_t)-n);
      if (n % 2 == 0) { if (!ef::isnan(g)) R.fail("factorial2(%ld) is %s, expected nan", -n, text(g).c_str()); }
      else { Z d = n == 1 ? Z(1L) : ref::fac2(n - 2); Dec w = ref::div(Dec((n - 1) / 2 % 2 ? -1 : 1), Dec(d), D10 + 20); exactly(R, S("factorial2(%ld)", -n), g, w); }
      R.step(); R.state(S("d%ld", -n));
    }
  }
  // up to the last unsigned integer: the precision which the exponential of a logarithm this large leaves
  ref::wide();
  for (unsigned long n : {999999UL, 1000000UL, 16777216UL, 2147483646UL, 2147483647UL, 2147483648UL, 4294967294UL, 4294967295UL}) if (R.unit(S("factorial.far.%lu", n))) { if (!R.begin("f")) continue; precision_for(2 * D10 + 100);
    value(R, S("factorial(%lu)", n).c_str(), ef::factorial((std::uint32_t)n), {}, [&](const vector<MP>&) { return ref::exp(ref::lngamma(MP((long)n + 1))); }, D10 - 12); R.state(S("far%lu", n));
    if (!R.begin("b")) continue; for (unsigned long k : {0UL, 1UL, 2UL}) if (ef::isfinite(ef::factorial((std::uint32_t)n))) exactly(R, S("binomial(%lu,%lu)", n, k), ef::binomial((std::uint32_t)n, (std::uint32_t)k), k == 0 ? Dec(1) : k == 1 ? Dec((long)n) : Dec((long)(n * (n - 1) / 2)), D10 - 12); }
  // binomial coefficients of integers: complete rows
  for (long n = 0; n <= (T ? 400 : 210); ++n) if (R.unit(S("binomial.%ld", n))) for (long k = 0; k <= n + 2; ++k) { if (!R.begin(S("%ld", k))) continue;
    e_float b = ef::binomial((std::uint32_t)n, (std::uint32_t)k); R.step(); R.state(S("b%ld,%ld", n, k));
    if (k > n) { if (!ef::isnan(b)) R.fail("binomial(%ld,%ld) is %s, expected nan", n, k, text(b).c_str()); }
    else exactly(R, S("binomial(%ld,%ld)", n, k), b, Dec(ref::bin(n, k))); }
  for (long n : {999L, 1000L, 1001L, 1002L, 1500L, 2000L, 10000L}) if (R.unit(S("binomial.%ld", n))) for (long k = 0; k <= n; k += (k < 4 || n - k < 5 ? 1 : T ? 7 : 97)) { if (!R.begin(S("%ld", k))) continue;
    exactly(R, S("binomial(%ld,%ld)", n, k), ef::binomial((std::uint32_t)n, (std::uint32_t)k), Dec(ref::bin(n, k))); R.state(S("b%ld,%ld", n, k)); }
  // with real arguments
  auto g1 = [](const MP& x) { return ref::gamma(x + MP(1L)); };
  vector<string> X = {"0.5", "1.25", "7.75", "30.1", "0.000001", "99.5", "250.3", "3", "40", "-0.5", "-2.5", "-7.3"}, Y = {"0.5", "2.25", "6.8", "31.4", "0.00003", "100.5", "5", "41.5", "-0.75", "-3.4", "1e-30"};
  for (size_t i = 0; i < X.size(); ++i) if (R.unit(S("binomial.real.%zu", i))) {
    Pt x = pt(X[i]);
    for (auto& ys : Y) { Pt y = pt(ys); if (!R.begin(S("xy %s", ys.c_str()))) continue; precision_for(3 * D10 + 80);
      MP d = mpv(x.v) - mpv(y.v); { Dec dd = ref::sub(x.v.d, y.v.d).norm(); if (dd.e >= 0 && dd.sign() < 0) continue; }
      value(R, S("binomial(%s, %s)", X[i].c_str(), ys.c_str()).c_str(), ef::binomial(arg(x), arg(y)), {mpv(x.v), mpv(y.v)}, [&](const vector<MP>& a) { return g1(a[0]) / (g1(a[1]) * g1(a[0] - a[1])); }); R.state(S("x%zu y%s", i, ys.c_str())); }
    for (long k : {0L, 1L, 2L, 3L, 10L, 37L, 100L, 300L}) { if (!R.begin(S("xk %ld", k))) continue; precision_for(3 * D10 + 80);
      { Dec dd = ref::sub(x.v.d, Dec(k)).norm(); if (dd.e >= 0 && dd.sign() < 0) continue; }
      value(R, S("binomial(%s, %ld)", X[i].c_str(), k).c_str(), ef::binomial(arg(x), (std::uint32_t)k), {mpv(x.v)}, [&](const vector<MP>& a) { return g1(a[0]) / (ref::gamma(MP(k + 1)) * g1(a[0] - MP(k))); }); R.state(S("x%zu k%ld", i, k)); }
    for (long n : {0L, 1L, 2L, 5L, 12L, 50L, 101L, 300L}) { if (!R.begin(S("nx %ld", n))) continue; precision_for(3 * D10 + 80);
      { Dec dd = ref::sub(Dec(n), x.v.d).norm(); if (dd.e >= 0 && dd.sign() < 0) continue; }
      value(R, S("binomial(%ld, %s)", n, X[i].c_str()).c_str(), ef::binomial((std::uint32_t)n, arg(x)), {mpv(x.v)}, [&](const vector<MP>& a) { return ref::gamma(MP(n + 1)) / (g1(a[0]) * g1(MP(n) - a[0])); }); R.state(S("n%ld x%zu", n, i)); }
  }
  // Pochhammer symbols
  vector<string> B = {"1", "2", "0.5", "-0.5", "3.75", "-3.75", "10", "120.25", "-70.5", "1e-20", "-1e-20", "1e20", "-3", "-55", "0", "0.333333333333333333333333333333", "1e5"};
  for (size_t i = 0; i < B.size(); ++i) if (R.unit(S("poch.%zu", i))) {
    Pt x = pt(B[i]);
    for (long n = 0; n <= 120; n += (T || n < 70 ? 1 : 10)) { if (!R.begin(S("n %ld", n))) continue;
      Dec w(1); for (long j = 0; j < n; ++j) w = ref::mul(w, ref::add(x.v.d, Dec(j)));
      e_float got = ef::pochhammer(arg(x), (std::uint32_t)n); precision_for(3 * D10 + 80);
      value(R, S("pochhammer(%s, %ld)", B[i].c_str(), n).c_str(), got, {mpv(x.v)}, [&](const vector<MP>& a) { MP w(1L); for (long j = 0; j < n; ++j) w = w * (a[0] + MP(j)); return w; }); R.state(S("p%zu n%ld", i, n)); }
    for (auto as : {"0.5", "2.5", "17.25", "-0.25", "60.75"}) { Pt a0 = pt(string(as)); if (!R.begin(S("a %s", as))) continue; precision_for(3 * D10 + 80);
      Dec xx = Dec(x.v.d).norm(), s = ref::add(x.v.d, a0.v.d).norm(); if ((xx.e >= 0 && xx.sign() <= 0) || (s.e >= 0 && s.sign() <= 0) || xx.order() > 6) continue;
      value(R, S("pochhammer(%s, %s)", B[i].c_str(), as).c_str(), ef::pochhammer(arg(x), arg(a0)), {mpv(x.v), mpv(a0.v)}, [&](const vector<MP>& a) { return ref::gamma(a[0] + a[1]) / ref::gamma(a[0]); }); R.state(S("p%zu a%s", i, as)); }
  }
}

static MP bernoulli(long n) { return n == 0 ? MP(1L) : n == 1 ? MP(-1L) / MP(2L) : n % 2 ? MP(0L) : bern(n); }
static bool isprime(unsigned long n) { if (n < 2) return false; for (unsigned long d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
static void number(Run& R) {
  const bool T = R.thorough;
  vector<long> ns; for (long n = 0; n <= (T ? 2500 : 1300); ++n) ns.push_back(n);
  for (long n : {1998L, 1999L, 2000L, 2001L, 2002L, 2003L, 2004L, 2500L, 3001L, 5000L}) ns.push_back(n);
  for (long n : ns) if (R.unit(S("bernoulli.%ld", n))) { if (!R.begin("b")) continue; precision_for(2 * D10 + 200);
    e_float b = ef::bernoulli((std::uint32_t)n); value(R, S("bernoulli(%ld)", n).c_str(), b, {}, [&](const vector<MP>&) { return bernoulli(n); }); R.state(S("B%ld", n)); }
  for (long n = 0; n <= (T ? 300 : 120); ++n) if (R.unit(S("table.%ld", n))) { if (!R.begin("t")) continue;
    precision_for(2 * D10 + 200); vector<e_float> bn(3, e_float(7)); ef::bernoulli_table(bn, (std::uint32_t)n);
    if ((long)bn.size() < n + 1) { R.fail("bernoulli_table(%ld) gives only %zu numbers", n, bn.size()); continue; }
    for (size_t i = 0; i < bn.size(); ++i) if (!value(R, S("bernoulli_table(%ld)[%zu]", n, i).c_str(), bn[i], {}, [&](const vector<MP>&) { return bernoulli((long)i); })) break;
    R.state(S("T%ld", n)); }
  if (R.unit("bernoulli.zero")) if (R.begin("odd")) for (long n = 3; n < 4000; n += 2) { R.step(); if (!ef::iszero(ef::bernoulli((std::uint32_t)n))) R.fail("bernoulli(%ld) is not zero", n); }
  // lists of primes of every length
  vector<unsigned> P; for (unsigned long k = 2; P.size() < 200001; ) { static vector<bool> sv; if (sv.empty()) { sv.assign(2800000, true); for (size_t i = 2; i < sv.size(); ++i) if (sv[i]) for (size_t j = i * i; j < sv.size(); j += i) sv[j] = false; } if (sv[k]) P.push_back((unsigned)k); ++k; }
  vector<long> pl; for (long n = 0; n <= 7000; n += (T || n < 300 || (n > 6500 && n < 6600) ? 1 : 13)) pl.push_back(n); for (long n : {10000L, 65535L, 65536L, 100000L, 200000L}) pl.push_back(n);
  for (size_t i = 0; i < pl.size(); i += 32) if (R.unit(S("primes.%zu", i))) for (size_t j = i; j < std::min(pl.size(), i + 32); ++j) { if (!R.begin(S("%ld", pl[j]))) continue;
    std::deque<std::uint32_t> q(2, 77); ef::prime((std::uint32_t)pl[j], q); R.step(); R.state(S("P%ld", pl[j]));
    if ((long)q.size() != pl[j]) { R.fail("prime(%ld) gives %zu numbers", pl[j], q.size()); continue; }
    for (size_t k = 0; k < q.size(); ++k) if (q[k] != P[k]) { R.fail("prime(%ld): number %zu is %u, the prime is %u", pl[j], k, q[k], P[k]); break; } }
  // factorizations
  vector<std::uint32_t> F;
  for (int k = 1; k <= 32; ++k) for (long d = -20; d <= 20; ++d) { long long v = (1LL << k) + d; if (v >= 0 && v < (1LL << 32)) F.push_back((std::uint32_t)v); }
  for (unsigned a : {2u, 3u, 7u, 251u, 257u, 65497u, 65519u, 65521u}) for (unsigned b : {2u, 3u, 5u, 241u, 251u, 257u, 9973u, 65413u, 65497u, 65519u, 65521u, 65537u, 65539u}) { unsigned long long v = (unsigned long long)a * b; if (v < (1ULL << 32)) { F.push_back((std::uint32_t)v); if (v * a < (1ULL << 32)) F.push_back((std::uint32_t)(v * a)); } }
  for (unsigned p = 3; p < 65536; p += 2) if (isprime(p) && (T || p > 65000 || p < 1500)) F.push_back(p * p);
  const std::uint32_t lim = T ? 4000000 : 120000; const size_t CH = 4000;
  auto one = [&](std::uint32_t n) {
    std::deque<Util::point<std::uint32_t>> pf(1, Util::point<std::uint32_t>(9u, 9u)); ef::prime_factors(n, pf); R.step();
    unsigned long long prod = 1; std::uint32_t last = 0; string s; bool ok = true;
    for (auto& f : pf) { s += S(" %u^%u", f.x, f.y); if (f.x <= last || f.y == 0 || !isprime(f.x)) ok = false; last = f.x; for (std::uint32_t i = 0; i < f.y && prod < (1ULL << 33); ++i) prod *= f.x; }
    if (n < 2 ? !(pf.size() == 1 && pf[0].x == n && pf[0].y == 1) : !(ok && prod == n)) { R.fail("prime_factors(%u) is%s", n, s.c_str()); return false; }
    return true;
  };
  for (size_t c = 0; c < lim; c += CH) if (R.unit(S("factors.%zu", c))) for (size_t n = c; n < c + CH; ++n) { if (!R.begin(S("%zu", n))) continue; one((std::uint32_t)n); R.state(S("F%zu", n)); }
  for (size_t c = 0; c < F.size(); c += 64) if (R.unit(S("factors.list.%zu", c))) for (size_t i = c; i < std::min(F.size(), c + 64); ++i) { if (!R.begin(S("%u", F[i]))) continue; one(F[i]); R.state(S("F%u", F[i])); }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "number")) mode = "number";
  Run R(argc, argv);
  precision_for(2 * D10 + 80);
  if (mode == "fact") fact(R); else number(R);
  return R.finish();
}
