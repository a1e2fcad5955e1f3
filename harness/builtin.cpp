// Built-in types: mixed arithmetic (arith), ordering and classification (cmp), conversion in both directions (conv).
#include "pat.h"
#include <climits>
static std::string mode;

static void obs(Run& R, const char* what, const e_float& r, const Dec& want, const Dec& slack) {
  R.step();
  Val o = observe(r);
  if (o.cls == 0) R.state(o.d.norm().str());
  if (!near(o, want, slack)) R.fail("%s: library %s, exact %s", what, o.brief().c_str(), want.brief().c_str());
}
static std::vector<Dec> operands(bool thorough) {
  const long D = D10;
  std::vector<Dec> v = {Dec(0), Dec(1), Dec(2), Dec(Z(99999999L)), Dec(Z(100000000L)), Dec(Z(100000001L)), Dec(Z(5L), -1), Dec(Z(1L), -8), Dec(Z(99999999L), -8), Dec(Z("18446744073709551615")), Dec(Z("9223372036854775808")),
    Dec(Z(repn("9", D)), 0), Dec(Z(repn("9", D)), -D), Dec(Z(repn("123456789", D)), -D / 2), Dec(Z(3L), 40), Dec(Z(7L), -60), Dec(Z("1" + std::string(D - 2, '0') + "1"), -8), Dec(Z("42949672965"), -1)};
  if (thorough) for (int k = 0; k < 40; ++k) { v.push_back(Dec(Z(repn("9", 1 + k)), -(k % 9))); v.push_back(Dec(Z("1" + std::string(k, '0') + "1"), -(k % 17))); }
  return v;
}
static Dec sl(const Dec& w, const Dec& u, const Dec& n) { return ref::add(rel(w), ref::add(rel(u, D10 + 8), rel(n, D10 + 8))); }

template<typename T> static void arith_type(Run& R, const char* tn) {
  auto V = operands(R.thorough); auto N = boundary<T>();
  for (size_t i = 0; i < V.size(); ++i) for (int sg = 0; sg < 2; ++sg) {
    if (sg && V[i].zero()) continue;
    if (!R.unit(S("%s.u%zu.%d", tn, i, sg))) continue;
    Dec u = sg ? -V[i] : V[i]; e_float eu = make(u);
    for (size_t j = 0; j < N.size(); ++j) {
      if (!R.begin(S("n%zu", j))) continue;
      T n = N[j]; Dec d = exact_of<T>(n); e_float t;
      Dec add = ref::add(u, d), sub = ref::sub(u, d), mul = ref::mul(u, d);
      obs(R, "u+n", eu + n, add, sl(add, u, d)); obs(R, "n+u", n + eu, add, sl(add, u, d));
      t = eu; t += n; obs(R, "u+=n", t, add, sl(add, u, d));
      obs(R, "u-n", eu - n, sub, sl(sub, u, d)); obs(R, "n-u", n - eu, -sub, sl(sub, u, d));
      t = eu; t -= n; obs(R, "u-=n", t, sub, sl(sub, u, d));
      obs(R, "u*n", eu * n, mul, rel(mul)); obs(R, "n*u", n * eu, mul, rel(mul));
      t = eu; t *= n; obs(R, "u*=n", t, mul, rel(mul));
      if (!d.zero()) {
        Dec q = ref::div(u, d, D10 + 20);
        obs(R, "u/n", eu / n, q, rel(q)); t = eu; t /= n; obs(R, "u/=n", t, q, rel(q));
      }
      if (!u.zero()) { Dec q = ref::div(d, u, D10 + 20); obs(R, "n/u", n / eu, q, rel(q)); }
    }
    R.sample(S("u=%s op every boundary value of %s (%zu)", u.brief().c_str(), tn, N.size()));
  }
}
// chains of mixed operations applied to one object, model in lock step
static void arith_chain(Run& R) {
  const long long ns[] = {0, 1, -1, 7, -99999999, 100000000, 1000000007LL, LLONG_MIN, LLONG_MAX};
  const unsigned long long us[] = {1, 99999999ULL, 18446744073709551615ULL};
  const int NOP = 4 * 9 + 4 * 3 + 2;
  auto V = operands(false);
  const int depth = R.thorough ? 3 : 2;
  for (size_t i = 0; i < V.size(); ++i) {
    if (!R.unit(S("chain.u%zu", i))) continue;
    std::vector<int> op(depth, 0);
    for (;;) {
      std::string key; for (int o : op) key += S("%d.", o);
      if (R.begin(key)) {
        Dec w = V[i]; e_float t = make(w); Dec err = Dec(0); bool ok = true;
        for (int o : op) {
          Dec n; Dec w2; int kind;
          if (o < 36) { n = Dec(Z::ll(ns[o / 4])); kind = o % 4; if (kind == 3 && ns[o / 4] == 0) { ok = false; break; }
            switch (kind) { case 0: t += ns[o / 4]; break; case 1: t -= ns[o / 4]; break; case 2: t *= ns[o / 4]; break; default: t /= ns[o / 4]; } }
          else if (o < 48) { unsigned long long u = us[(o - 36) / 4]; n = Dec(Z::u(u)); kind = o % 4;
            switch (kind) { case 0: t += u; break; case 1: t -= u; break; case 2: t *= u; break; default: t /= u; } }
          else { n = Dec(1); kind = o == 48 ? 0 : 1;
            if (o == 48) { e_float before = t; e_float r = t++; if (observe(r).d.norm().str() != observe(before).d.norm().str()) R.fail("t++ does not return the old value"); e_float q = before; ++q; if (q != t) R.fail("++t and t++ differ"); }
            else { e_float before = t; e_float r = t--; if (observe(r).d.norm().str() != observe(before).d.norm().str()) R.fail("t-- does not return the old value"); e_float q = before; --q; if (q != t) R.fail("--t and t-- differ"); } }
          if (kind == 0) w2 = ref::add(w, n); else if (kind == 1) w2 = ref::sub(w, n); else if (kind == 2) { w2 = ref::mul(w, n); err = ref::mul(err, ref::absd(n)); } else { w2 = ref::div(w, n, D10 + 60); err = err.zero() ? err : ref::div(err, ref::absd(n), 20); }
          err = ref::add(err, kind < 2 ? ref::add(rel(w2), ref::add(rel(w, D10 + 8), rel(n, D10 + 8))) : rel(w2));
          w = w2;
        }
        if (ok) { R.step(depth - 1); obs(R, "chain", t, w, ref::add(err, rel(w))); }
      }
      int k = 0; while (k < depth && ++op[k] == NOP) op[k++] = 0;
      if (k == depth) break;
    }
  }
}

// ---- comparison -----------------------------------------------------------
static void rel_check(Run& R, const char* what, int c, bool lt, bool le, bool eq, bool ne, bool ge, bool gt) {
  R.step(6);
  if (lt != (c < 0) || le != (c <= 0) || eq != (c == 0) || ne != (c != 0) || ge != (c >= 0) || gt != (c > 0))
    R.fail("%s: exact order %d, but < %d <= %d == %d != %d >= %d > %d", what, c, lt, le, eq, ne, ge, gt);
}
#define REL(what, c, a, b) rel_check(R, what, c, (a) < (b), (a) <= (b), (a) == (b), (a) != (b), (a) >= (b), (a) > (b))
static std::vector<Dec> ordered_values(bool thorough) {
  std::vector<Dec> v; const long D = D10;
  std::vector<std::string> m = {"1", "100000001", "99999999", repn("9", D), "1" + std::string(D - 2, '0') + "1", "1" + std::string(D / 2, '0') + "1", repn("123456789", D)};
  if (thorough) for (auto& s : digit_patterns(true)) m.push_back(s);
  std::vector<long> es = {-1000000, -D - 9, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9, 16, D, 1000000};
  for (auto& s : m) for (long e : es) v.push_back(Dec(Z(s), e - (long)s.size()));
  return v;
}
static void compare_all(Run& R) {
  auto A = ordered_values(R.thorough);
  std::vector<Dec> V = {Dec(0)}; for (auto& d : A) { V.push_back(d); V.push_back(-d); }
  std::vector<e_float> E; for (auto& d : V) E.push_back(make(d));
  for (size_t i = 0; i < V.size(); ++i) {
    if (!R.unit(S("pair%zu", i))) continue;
    for (size_t j = 0; j < V.size(); ++j) {
      if (!R.begin(S("%zu", j))) continue;
      int c = ref::cmp(V[i], V[j]);
      REL("a?b", c, E[i], E[j]);
      int k = E[i].cmp(E[j]), k2 = E[i].compare(E[j]);
      if ((k < 0) != (c < 0) || (k > 0) != (c > 0)) R.fail("cmp gives %d, exact order %d", k, c);
      if ((k2 < 0) != (c < 0) || (k2 > 0) != (c > 0)) R.fail("compare gives %d, exact order %d", k2, c);
      R.state(mc::fnv(S("%zu %zu", i, j)));
      if (R.case_failed) R.count("pairs wrong");
    }
    // classification of V[i]
    if (R.begin("class")) {
      const e_float& x = E[i]; Dec d = V[i]; Dec n = d; n.norm();
      bool integer = d.zero() || n.e >= 0;
      if (!DECIMAL && !integer && n.e < 0 && d.order() >= 0 && n.digits() > D10 - 2) integer = x.isint();   // fraction below the binary resolution of the stored text
      if (!DECIMAL && integer && d.order() > D10) integer = x.isint();
      R.step(12);
      if (x.iszero() != d.zero() || ef::iszero(x) != d.zero()) R.fail("iszero wrong");
      if (x.isneg() != (d.sign() < 0) || ef::isneg(x) != (d.sign() < 0) || x.ispos() == (d.sign() < 0) || ef::ispos(x) == (d.sign() < 0)) R.fail("sign test wrong for %s", d.brief().c_str());
      if (x.isint() != integer || ef::isint(x) != integer) R.fail("isint is %d for %s", x.isint(), d.brief().c_str());
      if (x.isone() != (d == Dec(1)) || ef::isone(x) != (d == Dec(1))) R.fail("isone is %d for %s", x.isone(), d.brief().c_str());
      if (!x.isfinite() || x.isnan() || x.isinf() || !ef::isfinite(x) || ef::isnan(x) || ef::isinf(x)) R.fail("finite class wrong");
      if (ef::sgn(x) != d.sign()) R.fail("sgn is %d for %s", ef::sgn(x), d.brief().c_str());
      if (ef::fabs(x) < ef::zero() || ref::cmp(observe(ef::fabs(x)).d, ref::absd(observe(x).d)) != 0 || ef::abs(x) != ef::fabs(x)) R.fail("fabs wrong for %s", d.brief().c_str());
      if (!(-(-x) == x) || (+x != x) || (!d.zero() && (-x).isneg() == x.isneg())) R.fail("negation wrong");
      if (ef::real(x) != x || !ef::iszero(ef::imag(x))) R.fail("real/imag of a real number");
      long o = (long)x.order();
      if (!d.zero() && (DECIMAL ? o != d.order() : labs(o - d.order()) > 1)) R.fail("order is %ld for %s", o, d.brief().c_str());
    }
  }
  // neighbours: values that differ only in the digit at position k
  auto P = digit_patterns(true);
  for (size_t ia = 0; ia < P.size(); ++ia) {
    if (!R.unit(S("near.a%zu", ia))) continue;
    std::string s = P[ia]; s += std::string(D10 - (long)s.size(), '0');
    for (long off : {0L, -13L, 5L, -D10}) {
      Dec a(Z(s), off); e_float ea = make(a);
      for (long k = 0; k < D10; ++k) for (int sg = 0; sg < 4; ++sg) {
        if (!R.begin(S("o%ld.k%ld.%d", off, k, sg))) continue;
        Dec b = ref::add(a, Dec(Z(sg & 1 ? -1L : 1L), off + k)); Dec n = b; if (n.norm().digits() > D10) continue;
        e_float eb = make(b); int c = ref::cmp(a, b);
        if (sg & 2) { REL("-a?-b", -c, -ea, -eb); } else { REL("a?b", c, ea, eb); }
      }
    }
  }
}
// integers of every length, with and without one fractional digit at every position that the precision holds
static void integer_all(Run& R) {
  for (long I = 1; I < D10; ++I) {
    if (!R.unit(S("int%ld", I))) continue;
    for (const std::string& ip : {"1" + std::string(I - 1, '0'), std::string(I, '9'), "7" + std::string(I - 1, '3'), std::string(I / 2 + 1, '5') + std::string(I - I / 2 - 1, '0')})
      for (long j = 0; I + j <= D10; ++j) for (int sg = 0; sg < 2; ++sg) {
        if (j > 12 && I + j < D10 - 26 && j % 7 && !R.thorough) continue;
        if (!R.begin(S("%c%ld.%d", ip[0], j, sg))) continue;
        Dec d = Dec(Z(ip)); if (j) d = ref::add(d, Dec(Z(1L), -j)); if (sg) d = -d;
        e_float x = make(d); R.step(2);
        if (x.isint() != (j == 0) || ef::isint(x) != (j == 0)) R.fail("isint is %d for %s", x.isint(), d.brief().c_str());
        // the same value as a sum
        if (j) { e_float y = make(Dec(Z(ip))) + make(Dec(Z(1L), -j)); if (sg) y = -y; if (y.isint()) R.fail("isint is true for the sum %s", d.brief().c_str()); }
        R.state(d.norm().str());
      }
  }
}
template<typename T> static void compare_builtin(Run& R, const char* tn) {
  auto N = boundary<T>();
  for (size_t j = 0; j < N.size(); ++j) {
    if (!R.unit(S("%s.n%zu", tn, j))) continue;
    T n = N[j]; Dec d = exact_of<T>(n);
    Dec nd = d; nd.norm();
    std::vector<Dec> us = {Dec(0), Dec(1), Dec(-1), Dec(Z("18446744073709551616")), Dec(Z("-18446744073709551616")), Dec(Z(1L), -40), Dec(Z(-1L), -40), Dec(Z(1L), 45), Dec(Z(-1L), 45)};
    Dec unit(Z(1L), std::max(-60L, d.order() - 30));
    if (nd.digits() <= D10 - 16) { us.push_back(d); for (int s : {1, -1}) us.push_back(ref::add(d, s > 0 ? unit : -unit)); }
    for (auto& m : N) { Dec e = exact_of<T>(m); if (std::is_integral<T>::value) us.push_back(e); }
    for (size_t k = 0; k < us.size(); ++k) {
      if (!R.begin(S("%zu", k))) continue;
      if (Dec(us[k]).norm().digits() > D10) continue;
      e_float u = make(us[k]); int c = ref::cmp(us[k], d);
      if (!DECIMAL && c == 0 && nd.e < 0) continue;               // decimal text of a binary fraction: nearest value, not necessarily identical
      if (DECIMAL && c == 0 && std::is_floating_point<T>::value && nd.e < 0 && nd.digits() > 100) continue;
      REL("u?n", c, u, n); REL("n?u", -c, n, u);
      R.state(mc::fnv(S("%s %zu %zu", tn, j, k)));
    }
  }
}

// ---- conversion -----------------------------------------------------------
template<typename T> static void construct(Run& R, const char* tn) {
  auto N = boundary<T>();
  if (!R.unit(S("make.%s", tn))) return;
  for (size_t j = 0; j < N.size(); ++j) {
    if (!R.begin(S("n%zu", j))) continue;
    T n = N[j]; Dec d = exact_of<T>(n);
    e_float x(n);
    obs(R, S("e_float(%s)", tn).c_str(), x, d, std::is_integral<T>::value || Dec(d).norm().digits() <= D10 ? Dec(0) : rel(d));  // exact whenever the value has no more than the guaranteed digits
    if (observe(-x).d.sign() != -d.sign()) R.fail("sign of e_float(%s %s)", tn, d.brief().c_str());
    R.step(2);
    // and back, through the extraction that covers the type
    if constexpr (std::is_same<T, float>::value || std::is_same<T, double>::value) { double b = x.extract_double(); if (b != (double)n || ef::to_double(x) != (double)n) R.fail("%s %s comes back as %.20g", tn, d.brief().c_str(), b); }
    else if constexpr (std::is_same<T, long double>::value) { long double b = x.extract_long_double(); if (b != n) R.fail("long double %s comes back as %.25Lg", d.brief().c_str(), b); }
    else if constexpr (std::is_unsigned<T>::value) { auto b = x.extract_unsigned_long_long(); if (b != n) R.fail("%s %s comes back as %llu", tn, d.brief().c_str(), b); }
    else { auto b = x.extract_signed_long_long(); if (b != n) R.fail("%s %s comes back as %lld", tn, d.brief().c_str(), b); }
  }
}
static void extract_all(Run& R) {
  // values around every power of two and ten and the type limits, with fractions
  std::vector<Dec> base;
  for (int k = 0; k <= 66; ++k) base.push_back(Dec(Z::pow(2, k)));
  for (int k = 0; k <= 22; ++k) base.push_back(Dec(Z::pow(10, k)));
  for (const char* s : {"0", "9223372036854775807", "18446744073709551615", "2147483647", "4294967295", "99999999", "9999999999999999"}) base.push_back(Dec(Z(s)));
  std::vector<Dec> fr = {Dec(0), Dec(Z(5L), -1), Dec(Z(25L), -2), Dec(Z(1L), -9), Dec(Z(repn("9", 40)), -40), Dec(Z(1L), -40), Dec(Z(99999999L), -8)};
  const Z lmin = -Z("9223372036854775808"), lmax("9223372036854775807"), umax("18446744073709551615"), imin(-2147483648L), imax(2147483647L);
  for (size_t i = 0; i < base.size(); ++i) {
    if (!R.unit(S("ext%zu", i))) continue;
    for (int dl = -2; dl <= 2; ++dl) for (size_t f = 0; f < fr.size(); ++f) for (int sg = 0; sg < 2; ++sg) {
      Dec d = ref::add(ref::add(base[i], Dec(dl)), fr[f]); if (d.sign() < 0 || Dec(d).norm().digits() > D10) continue;
      if (sg) d = -d;
      if (!R.begin(S("%d.%zu.%d", dl, f, sg))) continue;
      e_float x = make(d);
      Z t = d.e >= 0 ? d.m * ref::p10(d.e) : d.m / ref::p10(-d.e);       // toward zero
      auto clamp = [](const Z& v, const Z& a, const Z& b) { return v < a ? a : b < v ? b : v; };
      Z s64 = clamp(t, lmin, lmax), s32 = clamp(t, imin, imax);
      R.step(4);
      if (Z::ll(x.extract_signed_long_long()) != s64) R.fail("signed long long of %s is %lld", d.brief().c_str(), x.extract_signed_long_long());
      if (Z::ll(ef::to_int64(x)) != s64) R.fail("to_int64 of %s is %lld", d.brief().c_str(), (long long)ef::to_int64(x));
      if (Z::ll(ef::to_int32(x)) != s32) R.fail("to_int32 of %s is %d", d.brief().c_str(), (int)ef::to_int32(x));
      Z u = t < Z(0) ? Z::u((unsigned long long)strtoll(s64.str().c_str(), 0, 10)) : clamp(t, Z(0), umax);
      if (Z::u(x.extract_unsigned_long_long()) != u) R.fail("unsigned long long of %s is %llu", d.brief().c_str(), x.extract_unsigned_long_long());
      R.state(d.norm().str());
    }
  }
}
static void extract_floating(Run& R) {
  // decimal values over the whole exponent range of double / long double: nearest to one unit in the last place
  const char* ms[] = {"1", "9999999999999999999999999", "17976931348623157", "3333333333333333333333333333333", "2225073858507201400000000001", "5000000000000000000000001", "123456789012345678901234567890123"};
  for (int ex = -5200; ex <= 5200; ex += (R.thorough ? 7 : 41)) {
    if (!R.unit(S("flt%d", ex))) continue;
    for (int m = 0; m < 7; ++m) for (int sg = 0; sg < 2; ++sg) {
      if (!R.begin(S("m%d.%d", m, sg))) continue;
      Dec d(Z(ms[m]), ex - (long)strlen(ms[m])); if (sg) d = -d;
      e_float x = make(d); R.step(2);
      auto chk = [&](long double got, long double mx, long double mn, int dig, const char* nm) {
        Dec a = ref::absd(d), M = exact(mx), mi = exact(mn);
        if (std::isnan(got)) { R.fail("%s of %s is NaN", nm, d.brief().c_str()); return; }
        if (std::isinf(got)) { if (ref::cmp(a, M) < 0 || (got < 0) != (sg == 1)) R.fail("%s of %s is %Lg", nm, d.brief().c_str(), got); return; }
        if (got != 0 && (got < 0) != (sg == 1)) { R.fail("%s of %s has the wrong sign", nm, d.brief().c_str()); return; }
        if (ref::cmp(a, M) > 0 && !(exact(got) == (sg ? -M : M))) { R.fail("%s of %s is finite: %Lg", nm, d.brief().c_str(), got); return; }
        if (ref::cmp(a, mi) < 0) { if (ref::cmp(ref::absd(ref::sub(exact(got), d)), mi) > 0) R.fail("%s of tiny %s is %Lg", nm, d.brief().c_str(), got); return; }
        Dec err = ref::absd(ref::sub(exact(got), d)), lim = ref::div(a, Dec(Z::pow(2, dig - 1)), 20);     // one unit in the last place
        if (ref::cmp(err, lim) > 0) R.fail("%s of %s is %.25Lg", nm, d.brief().c_str(), got);
      };
      chk(x.extract_double(), std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 53, "double");
      chk(x.extract_long_double(), std::numeric_limits<long double>::max(), std::numeric_limits<long double>::min(), 64, "long double");
      // mantissa/exponent parts
      double mm; std::int64_t ee; ef::to_parts(x, mm, ee); R.step();
      Dec p = exact(mm); p.e += ee; if (ref::cmp(ref::absd(ref::sub(p, d)), Dec(ref::abs(d.m), d.e - 10)) > 0) R.fail("to_parts of %s gives %.17g * 10^%lld", d.brief().c_str(), mm, (long long)ee);
      R.state(d.norm().str());
    }
  }
}
// mantissa and decimal exponent, and lists of eight-digit elements
static void parts_all(Run& R) {
  const double ms[] = {1, 10, 100, 1000, 9.5, 0.1, 0.001, 9.999999999999998, 99999999.0, 100000000.0, 123456789.0, 1e15, 1e16, 1e22, 1e-8, 1e-16, 3.3333333333333335, 1.7e308, 2.3e-308 * 4};
  const long E = std::numeric_limits<e_float>::max_exponent10; const Dec mx = ref::pow10(E + 1), mn = ref::pow10(std::numeric_limits<e_float>::min_exponent10);
  for (size_t i = 0; i < sizeof ms / sizeof *ms; ++i) if (R.unit(S("parts%zu", i)))
    for (long e : {0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 15L, 16L, 17L, 23L, 100L, 999L, 123456L, E / 2, E - 700, E + 700, E * 2 + 9, (long)LLONG_MAX}) for (int sg = 0; sg < 4; ++sg) {
      const long x10 = sg & 1 ? (e == (long)LLONG_MAX ? (long)LLONG_MIN : -e) : e; if (!R.begin(S("e%ld.%d", x10, sg))) continue;
      const double m = sg & 2 ? -ms[i] : ms[i]; e_float x(m, (std::int64_t)x10); R.step(6); Val o = observe(x); const bool neg = sg & 2;
      if (!DECIMAL && e > E && e <= 2 * E + 700 && ef::isfinite(x) && !x.iszero()) { Dec d = exact(m); d.e += x10; if (!near(o, d, Dec(ref::abs(d.m), d.e - 13)) || x.isneg() != neg) R.fail("e_float(%.17g, %ld) is %s", m, x10, o.brief().c_str()); R.count("finite beyond the documented range"); continue; }
      if (e > E) { if (x10 > 0 ? !ef::isinf(x) || x.isneg() != neg : !x.iszero()) R.fail("e_float(%.17g, %ld) is %s", m, x10, o.brief().c_str()); R.state(o.brief()); continue; }
      Dec d = exact(m); d.e += x10; if (!near(o, d, Dec(ref::abs(d.m), d.e - 13))) R.fail("e_float(%.17g, %ld) is %s", m, x10, o.brief().c_str());
      else if (x.isneg() != neg || !ef::isfinite(x) || x.iszero()) R.fail("e_float(%.17g, %ld): sign or class", m, x10);
      else if (DECIMAL && (make(o.d) != x || x.order() != o.d.order())) R.fail("e_float(%.17g, %ld) = %s differs from the same number read from text, or has the wrong order %lld", m, x10, o.brief().c_str(), (long long)x.order());
      else if (!GMPB && (x + x - x != x || x * ef::one() != x || (DECIMAL && x - make(o.d) != ef::zero()))) R.fail("e_float(%.17g, %ld) does not compute like the number it is", m, x10);
      R.state(o.brief()); }
  typedef std::uint32_t u; struct L { std::initializer_list<u> v; }; static const std::initializer_list<u> ls[] = {{1}, {50000000}, {99999999}, {1, 0, 1}, {12345678, 87654321, 1}, {10, 99999999, 99999999}, {7, 1, 0}, {2, 0, 0, 50000000}};
  for (size_t i = 0; i < sizeof ls / sizeof *ls; ++i) if (R.unit(S("limbs%zu", i))) for (long e : {0L, 8L, -8L, 16L, -16L, 800L, -800L, 8000000L, -8000000L}) for (int neg = 0; neg < 2; ++neg) {
    if (!R.begin(S("e%ld.%d", e, neg))) continue;
    Dec d(0); long k = 0; for (u l : ls[i]) { d = ref::add(d, Dec(Z((long)l), e - 8 * k)); ++k; } if (Dec(d).norm().digits() > D10) { R.count("longer than the precision"); continue; } if (neg) d = -d;
    e_float x(ls[i], (std::int64_t)e, (bool)neg); R.step(2); if (!near(observe(x), d, DECIMAL ? Dec(0) : rel(d)) || (DECIMAL && x != make(d))) R.fail("e_float({%zu elements}, %ld) is %s, not %s", ls[i].size(), e, observe(x).brief().c_str(), d.brief().c_str()); R.state(d.str()); }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "arith") || !strcmp(argv[i], "cmp") || !strcmp(argv[i], "conv")) mode = argv[i];
  Run R(argc, argv);
  if (mode == "arith") {
    each_integral([&](auto t, const char* n) { arith_type<typename decltype(t)::type>(R, n); });
    each_floating([&](auto t, const char* n) { arith_type<typename decltype(t)::type>(R, n); });
    arith_chain(R);
  } else if (mode == "cmp") {
    compare_all(R); integer_all(R);
    each_integral([&](auto t, const char* n) { compare_builtin<typename decltype(t)::type>(R, n); });
    each_floating([&](auto t, const char* n) { compare_builtin<typename decltype(t)::type>(R, n); });
  } else {
    each_integral([&](auto t, const char* n) { construct<typename decltype(t)::type>(R, n); });
    each_floating([&](auto t, const char* n) { construct<typename decltype(t)::type>(R, n); });
    extract_all(R); extract_floating(R); parts_all(R);
  }
  return R.finish();
}
