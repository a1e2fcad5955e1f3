// P31: boost::multiprecision::number over e_float in lock step with e_float itself.
#include <boost/math/bindings/e_float.hpp>
#include <boost/math/constants/constants.hpp>
#include "func.h"
using std::string; using std::vector; namespace bm = boost::multiprecision;
typedef bm::number<boost::math::ef::e_float, bm::et_off> NOff;
typedef bm::number<boost::math::ef::e_float, bm::et_on> NOn;
template<class N> static const e_float& in(const N& x) { return x.backend().crepresentation(); }
template<class N> static N mk(const e_float& x) { return N(boost::math::ef::e_float(x)); }
static string full(const e_float& x) { std::ostringstream o; o << std::scientific << std::setprecision((int)MD10 + 40) << x; return o.str(); }
static void same(Run& R, const char* what, const e_float& got, const e_float& want) { R.step(); string a = full(got), b = full(want); R.state(a); if (a != b) R.fail("%s: %s, e_float gives %s", what, observe(got).brief().c_str(), observe(want).brief().c_str()); }
// equal within one unit of the last guaranteed digit of the larger of the values involved
static void close(Run& R, const char* what, const e_float& got, const Dec& want, const Dec& scale) { R.step(); Val o = observe(got); if (!near(o, want, rel(scale))) R.fail("%s: %s, exact %s", what, o.brief().c_str(), want.brief().c_str()); }
static void is(Run& R, const char* what, long got, long want) { R.step(); if (got != want) R.fail("%s is %ld, should be %ld", what, got, want); }
static vector<Pt> values(bool T) {
  vector<Pt> v = specials(); const long D = D10;
  for (const char* s : {"1", "2", "3", "-1", "-3", "7", "-6", "6", "0.5", "-2.5", "12345678901234567890", "1e8", "99999999", "1e-30", "-1e25", "1e60", "123456.789"}) v.push_back(pt(s));
  for (Dec d : {Dec(Z(repn("9", D)), -D / 2), Dec(Z(repn("31415926535897932384626433832795", D)), 1 - D), Dec(Z("-1" + string(D - 2, '0') + "1"), 1 - D), Dec(Z(repn("123456789", D)), -D - 20), Dec(Z(5L), 100000000), Dec(Z(-7L), -100000000)}) v.push_back(pt(d));
  if (T) for (auto& s : digit_patterns(true)) for (long e : {-150L, -8L, 3L}) { v.push_back(pt(Dec(Z(s), e))); v.push_back(pt(Dec(-Z(s), e))); }
  return v;
}
template<class N> static void pairs(Run& R, const char* en) {
  auto V = values(R.thorough);
  for (size_t i = 0; i < V.size(); ++i) if (R.unit(S("%s.pair.%zu", en, i))) for (size_t j = 0; j < V.size(); ++j) {
    if (!R.begin(S("%zu", j))) continue;
    const e_float x = arg(V[i]), y = arg(V[j]); const N a = mk<N>(x), b = mk<N>(y); N t;
    const bool fin = V[i].v.cls == 0 && V[j].v.cls == 0;
    same(R, "a+b", in(N(a + b)), x + y); same(R, "a-b", in(N(a - b)), x - y); same(R, "a*b", in(N(a * b)), x * y);
    e_float q(x); q /= y; same(R, "a/b", in(N(a / b)), q);
    t = a; t += b; same(R, "a+=b", in(t), x + y); t = a; t -= b; same(R, "a-=b", in(t), x - y); t = a; t *= b; same(R, "a*=b", in(t), x * y); t = a; t /= b; same(R, "a/=b", in(t), q);
    t = b; t = a - t; same(R, "b=a-b", in(t), x - y); t = b; t = a / t; same(R, "b=a/b", in(t), q); t = b; t = t * t; same(R, "b=b*b", in(t), y * y); t = b; t -= t; same(R, "b-=b", in(t), y - y);
    t = a; t = std::move(t); same(R, "move", in(t), x); N u(std::move(t)); same(R, "move", in(u), x); t = b; swap(t, u); same(R, "swap", in(t), x); same(R, "swap", in(u), y); t.swap(u); same(R, "swap", in(t), y);
    if (V[i].v.cls != 2 && V[j].v.cls != 2) { is(R, "a<b", a < b, x < y); is(R, "a>b", a > b, x > y); is(R, "a<=b", a <= b, x <= y); is(R, "a>=b", a >= b, x >= y); } is(R, "a==b", a == b, x == y); is(R, "a!=b", a != b, x != y);
    is(R, "sign of compare", (a.compare(b) > 0) - (a.compare(b) < 0), (x.compare(y) > 0) - (x.compare(y) < 0));
    if (fin && labs(V[i].v.d.order()) < 1000 && labs(V[j].v.d.order()) < 1000) {
      const Dec &A = V[i].v.d, &B = V[j].v.d; const Dec AB = ref::mul(A, B), AA = ref::mul(A, A), s2 = ref::add(ref::absd(A), ref::absd(B));
      close(R, "a*b+a", in(N(a * b + a)), ref::add(AB, A), ref::add(ref::absd(AB), s2)); close(R, "a-b*a", in(N(a - b * a)), ref::sub(A, AB), ref::add(ref::absd(AB), s2));
      close(R, "-(a*b)", in(N(-(a * b))), -AB, AB); close(R, "a*a-b*b", in(N(a * a - b * b)), ref::sub(AA, ref::mul(B, B)), ref::add(AA, ref::mul(B, B))); close(R, "(a+b)*(a-b)", in(N((a + b) * (a - b))), ref::mul(ref::add(A, B), ref::sub(A, B)), ref::mul(s2, s2));
      t = a; t += a * b; close(R, "t+=t0*b", in(t), ref::add(A, AB), ref::add(ref::absd(AB), s2)); t = a; t = t * b - t; close(R, "t=t*b-t", in(t), ref::sub(AB, A), ref::add(ref::absd(AB), s2)); t = b; t = a - t * 3; close(R, "t=a-t*3", in(t), ref::sub(A, ref::mul(B, Dec(3))), ref::add(s2, ref::mul(s2, Dec(3))));
      t = a; t *= a + b; close(R, "t*=t0+b", in(t), ref::mul(A, ref::add(A, B)), ref::mul(s2, s2)); t = b; t = 2 * t + a * t - 1; close(R, "t=2t+at-1", in(t), ref::sub(ref::add(ref::mul(Dec(2), B), AB), Dec(1)), ref::add(ref::add(ref::absd(AB), Dec(1)), ref::mul(s2, Dec(2))));
      if (!B.zero()) { close(R, "a/b+b", in(N(a / b + b)), ref::add(ref::div(A, B, D10 + 40), B), ref::add(ref::absd(ref::div(A, B, 40)), ref::absd(B)));
        // the remainder has the sign of a and differs from a by a multiple of b
        if (A.order() - B.order() < D10 / 2) {
          Dec r; { long e = std::min(A.e, B.e); Z p = A.m * ref::p10(A.e - e), q2 = B.m * ref::p10(B.e - e); r = Dec(Z(p % q2), e); }
          N f = fmod(a, b); Val o = observe(in(f)); R.step();
          Dec slack = rel(ref::add(ref::absd(A), ref::absd(B)));
          if (o.cls != 0) R.fail("fmod: %s, exact %s", o.brief().c_str(), r.brief().c_str());
          else { Dec d = ref::absd(ref::sub(o.d, r)); Dec d2 = ref::absd(ref::sub(d, ref::absd(B)));   // a rounded quotient may make it b instead of 0, and conversely
            const bool rz = ref::absd(r) < slack || ref::absd(ref::sub(ref::absd(r), ref::absd(B))) < slack, exactq = r.zero() && A.digits() < 25 && B.digits() < 25;
            if (slack < d && !(rz && !exactq && !(slack < d2))) R.fail("fmod: %s, exact %s", o.brief().c_str(), r.brief().c_str());
            else if (!o.d.zero() && !A.zero() && o.d.sign() != A.sign() && !rz) R.fail("fmod: %s has the wrong sign", o.brief().c_str()); } } }
    }
    if (!(V[i].v.cls == 0 && V[i].v.d.zero() && V[j].v.cls == 0 && V[j].v.d.zero())) same(R, "atan2", in(N(atan2(a, b))), ef::atan2(x, y));
    same(R, "pow", in(N(pow(a, b))), ef::pow(x, y));
  }
}
template<class N> static void unary(Run& R, const char* en) {
  auto V = values(R.thorough); spread(V, -D10 - 10, D10 + 10, 2, R.thorough); around(V, Dec(1), R.thorough); around(V, Dec(Z(-25L), -1), false); around(V, Dec(1000), false);
  for (size_t k = 0; k < V.size(); k += 16) if (R.unit(S("%s.unary.%zu", en, k / 16))) for (size_t i = k; i < std::min(k + 16, V.size()); ++i) {
    if (!R.begin(S("%s", V[i].t.substr(0, 60).c_str()) + S("_%zu", i))) continue;
    const e_float x = arg(V[i]); const N a = mk<N>(x); const bool fin = V[i].v.cls == 0; N t; const Dec A = V[i].v.d;
    same(R, "-a", in(N(-a)), -x); same(R, "+a", in(N(+a)), x); same(R, "abs", in(N(abs(a))), ef::fabs(x)); same(R, "fabs", in(N(fabs(a))), ef::fabs(x));
    if (fin) { same(R, "floor", in(N(floor(a))), ef::floor(x)); same(R, "ceil", in(N(ceil(a))), ef::ceil(x)); same(R, "trunc", in(N(trunc(a))), ef::integer_part(x)); }
    t = a; ++t; same(R, "++a", in(t), x + 1); t = a; t++; same(R, "a++", in(t), x + 1); t = a; --t; same(R, "--a", in(t), x - 1); t = a; N old = t--; same(R, "a--", in(old), x);
    t = a; t.backend().negate(); same(R, "negate", in(t), -x); t = a; t *= t; same(R, "a*=a", in(t), x * x); t = a; t += t; same(R, "a+=a", in(t), x + x);
    is(R, "isnan", isnan(a), V[i].v.cls == 2); is(R, "isinf", isinf(a), labs(V[i].v.cls) == 1); is(R, "isfinite", isfinite(a), fin); is(R, "isnormal", isnormal(a), fin && !A.zero());
    is(R, "fpclassify", fpclassify(a), V[i].v.cls == 2 ? FP_NAN : V[i].v.cls ? FP_INFINITE : A.zero() ? FP_ZERO : FP_NORMAL);
    if (V[i].v.cls != 2) { const int sg = V[i].v.cls ? V[i].v.cls : A.sign(); is(R, "sign", a.sign(), sg); is(R, "signbit", !!signbit(a), sg < 0); is(R, "is_zero", a.is_zero(), fin && A.zero()); }
    if (fin) {
      same(R, "sqrt", in(N(sqrt(a))), ef::sqrt(x)); same(R, "atan", in(N(atan(a))), ef::atan(x)); same(R, "tanh", in(N(tanh(a))), ef::tanh(x));
      same(R, "log", in(N(log(a))), ef::log(x)); same(R, "log10", in(N(log10(a))), ef::log10(x));
      if (A.order() < 9) { same(R, "exp", in(N(exp(a))), ef::exp(x)); same(R, "sinh", in(N(sinh(a))), ef::sinh(x)); same(R, "cosh", in(N(cosh(a))), ef::cosh(x)); }
      if (A.order() < 30) { same(R, "sin", in(N(sin(a))), ef::sin(x)); same(R, "cos", in(N(cos(a))), ef::cos(x)); same(R, "tan", in(N(tan(a))), ef::tan(x)); }
      same(R, "asin", in(N(asin(a))), ef::asin(x)); same(R, "acos", in(N(acos(a))), ef::acos(x));
      if (!A.zero()) { long o = (long)ilogb(a); is(R, "ilogb", DECIMAL || labs(o - A.order()) > 1 ? o : A.order(), A.order()); }
      for (int e : {0, 1, -1, 8, -9, 100}) { if (labs(A.order()) < 1000) { close(R, "scalbn", in(N(scalbn(a, e))), ref::mul(A, ref::pow10(e)), ref::mul(A, ref::pow10(e)));
          const Dec p = e >= 0 ? Dec(Z::pow(2, e)) : ref::div(Dec(1), Dec(Z::pow(2, -e)), D10 + 60); close(R, "ldexp", in(N(ldexp(a, e))), ref::mul(A, p), ref::mul(A, p)); close(R, "ldexp (long exponent)", in(N(ldexp(a, (std::int64_t)e))), ref::mul(A, p), ref::mul(A, p)); } }
      if (!A.zero() && labs(A.order()) < 1000) for (std::int64_t e : {INT64_C(4294967301), INT64_C(-4294967301), INT64_C(5000000000), INT64_C(-8589934590)}) { N q; boost::math::ef::eval_scalbn(q.backend(), a.backend(), e); same(R, "scalbn beyond the range", in(q), e < 0 ? e_float(0) : A.sign() < 0 ? -std::numeric_limits<e_float>::infinity() : std::numeric_limits<e_float>::infinity()); }
      if (!A.zero() && labs(A.order()) < 1000) { same(R, "ldexp beyond int", in(N(ldexp(a, (std::int64_t)5000000000LL))), x * ef::pow2(5000000000LL));
        int n; std::int64_t n64; N m = frexp(a, &n); e_float h = ef::fabs(in(m)); R.step(); if (!(h >= 0.5) || !(h < 1)) R.fail("frexp: mantissa %s", observe(in(m)).brief().c_str()); Dec p = n >= 0 ? Dec(Z::pow(2, n)) : ref::div(Dec(1), Dec(Z::pow(2, -n)), D10 + 60); close(R, "frexp", in(m) * ef::one(), ref::div(A, p, D10 + 40), ref::div(A, p, 40)); N m2 = frexp(a, &n64); same(R, "frexp (long exponent)", in(m2), in(m)); is(R, "frexp exponents", n64, n); }
      if (A.order() < 17) { Z q = ref::trunc_sig(A, 400).m; Dec tr = A.e >= 0 ? A : Dec(Z(A.m / ref::p10(-A.e))); is(R, "to long long", static_cast<long long>(a), MP(tr).fin() ? std::atoll(Dec(tr).norm().e >= 0 ? (Dec(tr).m * ref::p10(Dec(tr).e)).str().c_str() : "0") : 0); if (A.order() < 9) is(R, "to int", static_cast<int>(a), std::atol((tr.m * ref::p10(tr.e)).str().c_str())); if (A.sign() >= 0 && A.order() < 9) is(R, "to unsigned", static_cast<unsigned>(a), std::atol((tr.m * ref::p10(tr.e)).str().c_str())); (void)q; }
      R.step(); if (static_cast<double>(a) != x.extract_double()) { double d = static_cast<double>(a), w = x.extract_double(); if (!(std::fabs(d - w) <= std::fabs(w) * 4e-16)) R.fail("to double: %g, e_float %g", d, w); }
      R.step(); if (static_cast<long double>(a) != x.extract_long_double()) R.fail("to long double: %Lg, e_float %Lg", static_cast<long double>(a), x.extract_long_double());
      // text: as many digits as asked for, all of them if none; reading gives the number back
      string s = a.str(0, std::ios::scientific); Val o = ref::parse(s); if (DECIMAL ? !near(o, A, rel(A, D10 + 1)) : !near(o, A, rel(A))) R.fail("str(): %s", o.brief().c_str());
      { N r(s); Val p = observe(in(r)); if (!near(p, A, rel(A))) R.fail("read from str(): %s", p.brief().c_str()); }
    }
    for (int p : {1, 5, 17, 40}) for (auto f : {std::ios::fmtflags(0), std::ios::scientific, std::ios::fixed}) { if (f == std::ios::fixed && fin && labs(A.order()) > 300) continue; if (A.order() < -100000 && f == std::ios::fixed) continue; std::ostringstream o, w; o.flags(f); w.flags(f); o.precision(p); w.precision(p); o << a; w << x; R.step(); if (o.str() != w.str()) R.fail("written as %s, e_float as %s", o.str().substr(0, 200).c_str(), w.str().substr(0, 200).c_str()); if (a.str(p, f) != w.str()) R.fail("str(%d) is %s, e_float's text %s", p, a.str(p, f).substr(0, 200).c_str(), w.str().substr(0, 200).c_str()); }
    for (int w : {3, 60}) for (auto adj : {std::ios::left, std::ios::right, std::ios::internal}) { std::ostringstream o; o << std::setprecision(12) << std::setw(w) << std::setfill('*'); o.setf(adj, std::ios::adjustfield); std::ostringstream b; b << std::setprecision(12) << x; o << a; string t2 = b.str(); R.step(); size_t n = 0; for (char c : o.str()) n += c == '*'; if (o.str().size() != std::max<size_t>(t2.size(), w) || n != (t2.size() < (size_t)w ? w - t2.size() : 0)) R.fail("width %d: [%s]", w, o.str().c_str()); }
    if (fin) { std::istringstream is_(V[i].t + " 17"); N r, nx; is_ >> r >> nx; same(R, "read from a stream", in(r), x); same(R, "next number", in(nx), e_float(17)); same(R, "from text", in(N(V[i].t)), x); t.assign(V[i].t); same(R, "assigned text", in(t), x); t.backend() = V[i].t; same(R, "assigned text", in(t), x); t.backend() = V[i].t.c_str(); same(R, "assigned text", in(t), x); }
  }
}
template<class N, class T> static void builtin(Run& R, const char* en, const char* tn) {
  auto B = boundary<T>(); auto V = values(false);
  for (size_t i = 0; i < V.size(); ++i) if (R.unit(S("%s.%s.%zu", en, tn, i))) for (size_t j = 0; j < B.size(); ++j) {
    if (!R.begin(S("n%zu", j))) continue;
    const T n = B[j]; const Dec d = exact_of<T>(n); const e_float x = arg(V[i]), y = e_float(n); const N a = mk<N>(x); N t(n), u;
    if (i == 0) { same(R, "N(n)", in(t), y); u = n; same(R, "=n", in(u), y); R.step(); Val o = observe(in(t)); if (!near(o, d, rel(d, D10))) R.fail("N(n): %s, exact %s", o.brief().c_str(), d.brief().c_str());
      if (std::is_integral<T>::value) { R.step(); if (static_cast<T>(t) != n) R.fail("back to %s: %.25Lg, was %.25Lg", tn, (long double)static_cast<T>(t), (long double)n); }
      else if (d.zero() || std::fabs((double)n) > 1e-290) { R.step(); long double g = static_cast<T>(t); if (std::fabs(g - n) > std::fabs((long double)n) * std::numeric_limits<T>::epsilon() * 2) R.fail("back to %s: %.25Lg, was %.25Lg", tn, g, (long double)n); } }
    const bool fin = V[i].v.cls == 0; const Dec& A = V[i].v.d;
    is(R, "a==n", a == n, x == y); is(R, "n!=a", n != a, y != x); if (V[i].v.cls != 2) { is(R, "a<n", a < n, x < y); is(R, "n<a", n < a, y < x); is(R, "a>n", a > n, x > y); is(R, "n>a", n > a, y > x); is(R, "a<=n", a <= n, x <= y); is(R, "n>=a", n >= a, y >= x); }
    if (!fin) { same(R, "a+n", in(N(a + n)), x + y); same(R, "n-a", in(N(n - a)), y - x); same(R, "a*n", in(N(a * n)), x * y); if (!d.zero()) same(R, "a/n", in(N(a / n)), x / y); same(R, "n/a", in(N(n / a)), y / x); continue; }
    if (labs(A.order()) > 10000) continue;
    const Dec s = ref::add(ref::absd(A), ref::absd(d)), p = ref::mul(A, d);
    close(R, "a+n", in(N(a + n)), ref::add(A, d), s); close(R, "n+a", in(N(n + a)), ref::add(A, d), s); close(R, "a-n", in(N(a - n)), ref::sub(A, d), s); close(R, "n-a", in(N(n - a)), ref::sub(d, A), s);
    close(R, "a*n", in(N(a * n)), p, p); close(R, "n*a", in(N(n * a)), p, p); t = a; t += n; close(R, "a+=n", in(t), ref::add(A, d), s); t = a; t -= n; close(R, "a-=n", in(t), ref::sub(A, d), s); t = a; t *= n; close(R, "a*=n", in(t), p, p);
    close(R, "a*n+a", in(N(a * n + a)), ref::add(p, A), ref::add(ref::absd(p), s));
    if (!d.zero()) { Dec q = ref::div(A, d, D10 + 40); close(R, "a/n", in(N(a / n)), q, q); t = a; t /= n; close(R, "a/=n", in(t), q, q); } if (!A.zero()) { Dec q = ref::div(d, A, D10 + 40); close(R, "n/a", in(N(n / a)), q, q); }
  }
}
template<class N> static void limits(Run& R, const char* en) {
  if (!R.unit(S("%s.limits", en))) return; typedef std::numeric_limits<N> L; typedef std::numeric_limits<e_float> E;
  if (R.begin("static")) { is(R, "digits10", L::digits10, E::digits10); is(R, "max_digits10", L::max_digits10, E::max_digits10); is(R, "max_exponent10", L::max_exponent10, E::max_exponent10); is(R, "min_exponent10", L::min_exponent10, E::min_exponent10); is(R, "radix", L::radix, 10); is(R, "is_specialized", L::is_specialized, 1); is(R, "is_signed", L::is_signed, 1); is(R, "is_integer", L::is_integer, 0); is(R, "is_exact", L::is_exact, 0); is(R, "has_infinity", L::has_infinity, 1); is(R, "has_quiet_NaN", L::has_quiet_NaN, 1); }
  if (R.begin("max")) same(R, "max", in((L::max)()), (E::max)());
  if (R.begin("min")) same(R, "min", in((L::min)()), (E::min)());
  if (R.begin("lowest")) same(R, "lowest", in(L::lowest()), -(E::max)());
  if (R.begin("epsilon")) same(R, "epsilon", in(L::epsilon()), E::epsilon());
  if (R.begin("infinity")) same(R, "infinity", in(L::infinity()), E::infinity());
  if (R.begin("NaN")) same(R, "NaN", in(L::quiet_NaN()), E::quiet_NaN());
  if (R.begin("round_error")) same(R, "round_error", in(L::round_error()), ef::half());
  if (D10 <= 1000) for (int k = 0; k < 4; ++k) if (R.begin(S("constant%d", k))) { precision_for(D10 + 60); MP w = k == 0 ? ref::pi() : k == 1 ? ref::exp(MP(1L)) : k == 2 ? ref::ln2() : ref::sqrt(MP(2L)); N g = k == 0 ? boost::math::constants::pi<N>() : k == 1 ? boost::math::constants::e<N>() : k == 2 ? boost::math::constants::ln_two<N>() : boost::math::constants::root_two<N>(); close(R, "boost::math::constants", in(g), w.dec(D10 + 30), w.dec(20)); }
}
template<class N> static void all(Run& R, const char* en) {
  limits<N>(R, en); pairs<N>(R, en); unary<N>(R, en);
  each_integral([&](auto t, const char* n) { if (string(n) != "char") builtin<N, typename decltype(t)::type>(R, en, n); }); each_floating([&](auto t, const char* n) { builtin<N, typename decltype(t)::type>(R, en, n); });
}
int main(int argc, char** argv) { Run R(argc, argv); all<NOff>(R, "off"); all<NOn>(R, "on"); return R.finish(); }
