// Numeric utilities and the generic functions (P33).
#include "mc.h"
#include <climits>
#include "cval.h"
#include <e_float/e_float_functions_complex.h>
#include <numeric>
#include <map>
#include <utility/util_alternating_sum.h>
#include <utility/util_coefficient_expansion.h>
#include <utility/util_digit_scale.h>
#include <utility/util_find_root_bisect.h>
#include <utility/util_find_root_newton_raphson.h>
#include <utility/util_function_derivative.h>
#include <utility/util_interpolate.h>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <utility/util_power_j_pow_x.h>
#include <utility/util_trapezoid.h>
#include <generic_functions/elementary/generic_functions_elementary.h>
#include <generic_functions/constants/generic_functions_constants.h>
#include <boost/math/bindings/e_float.hpp>
typedef ef::complex<e_float> EC;
typedef boost::multiprecision::number<boost::math::ef::e_float, boost::multiprecision::et_off> BN;
static vector<Pt> pts(std::initializer_list<const char*> l) { vector<Pt> r; for (auto s : l) { Pt p = pt(string(s)); if (D10 >= 60 || (long)p.t.size() <= D10) r.push_back(p); } return r; }
// ---- casts
template<class T> static void casts(Run& R, const char* name) {
  if (!R.unit(S("cast.%s", name))) return;
  const __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  std::set<__int128> V; auto put = [&](__int128 x) { for (int d = -2; d <= 2; ++d) if (x + d >= lo && x + d <= hi) V.insert(x + d); };
  put(lo); put(hi); put(0); __int128 p = 1; for (int k = 0; k < 64; ++k, p *= 2) { put(p); put(-p); } p = 1; for (int k = 0; k < 19; ++k, p *= 10) { put(p); put(-p); put(7 * p); }
  for (__int128 x : V) {
    T t = (T)x; const bool chr = sizeof(T) == 1; string s; { __int128 y = x < 0 ? -x : x; do { s.insert(s.begin(), char('0' + (int)(y % 10))); y /= 10; } while (y); if (x < 0) s.insert(s.begin(), '-'); }
    if (!R.begin(s)) continue; R.step(3); R.state(string(name) + s);
    if (!chr && Util::lexical_cast(t) != s) R.fail("lexical_cast<%s> gives %s for %s", name, Util::lexical_cast(t).c_str(), s.c_str());
    T g = Util::numeric_cast<T>(s); if (g != t) R.fail("numeric_cast<%s>(%s) gives %lld", name, s.c_str(), (long long)g);
    if (x >= 0 && Util::numeric_cast<T>("+" + s) != t) R.fail("numeric_cast<%s>(+%s)", name, s.c_str());
    if (Util::numeric_cast<T>(s + "e5") != t) R.fail("numeric_cast<%s>(%se5) does not stop after the number", name, s.c_str());
  }
}
// ---- functions of one variable
template<class T> struct Poly { vector<long> c; T operator()(const T& x) const { T r(0); for (size_t i = c.size(); i--;) r = r * x + T((double)c[i]); return r; } T d(const T& x) const { T r(0); for (size_t i = c.size(); i-- > 1;) r = r * x + T((double)(c[i] * (long)i)); return r; } };
template<class T> struct Bisect : Util::FindRootBisect<T> { Poly<T> p; Bisect(const Poly<T>& q, const T& a, const T& b, const T& e) : Util::FindRootBisect<T>(a, b, e), p(q) { } T my_function(const T& x) const { return p(x); } };
template<class T> struct Newton : Util::FindRootNewtonRaphson<T> { Poly<T> p; Newton(const Poly<T>& q, const T& a, const T& b, const T& e) : Util::FindRootNewtonRaphson<T>(a, b, e), p(q) { } T my_function(const T& x) const { return p(x); } void my_function_derivative(const T& x, T& f, T& d) const { f = p(x); d = p.d(x); } };
template<class T> struct Deriv : Util::FunctionDerivative<T> { Poly<T> p; Deriv(const Poly<T>& q, const T& x, const T& dx) : Util::FunctionDerivative<T>(x, dx), p(q) { } Deriv(const Poly<T>& q, const T& x) : Util::FunctionDerivative<T>(x), p(q) { } T my_function(const T& x) const { return p(x); } };
template<class T> struct Trap : Util::RecursiveTrapezoidRule<T> { std::function<T(const T&)> f; Trap(std::function<T(const T&)> g, const T& a, const T& b, const T& e) : Util::RecursiveTrapezoidRule<T>(a, b, e), f(g) { } Trap(std::function<T(const T&)> g, const T& a, const T& b) : Util::RecursiveTrapezoidRule<T>(a, b, Util::RecursiveTrapezoidRule<T>::my_tol()), f(g) { } T my_function(const T& x) const { return f(x); } };
template<class T> static long digits() { return std::numeric_limits<T>::digits10; }
template<class T> static T tenth(long n) { T r(1); for (long i = 0; i < n; ++i) r /= T(10); return r; }
template<class T> static T absv(const T& x) { return x < T(0) ? T(-x) : x; }
template<class T> static string txt(const T& x) { std::ostringstream o; o << std::setprecision(25) << x; return o.str(); }
template<class T> static void numeric(Run& R, const char* name) {
  const long D = digits<T>();
  // roots of (x - a)(x - b)(x - c) inside brackets
  for (int a = -3; a <= 0; ++a) for (int b = a + 1; b <= 2; ++b) for (int c = b + 1; c <= 5; ++c) {
    if (!R.unit(S("roots.%s.%d.%d.%d", name, a, b, c))) continue;
    Poly<T> p; p.c = {-(long)a * b * c, (long)a * b + (long)b * c + (long)a * c, -(long)(a + b + c), 1};
    for (int r : {a, b, c}) for (int e : {1, 3, 7}) for (int side = 0; side < 3; ++side) {
      const T eps = tenth<T>(D - 4), lo = T(r) - T(e) / T(16), hi = T(r) + T(side == 0 ? e : side == 1 ? 2 : 5) / T(16);
      if (!R.begin(S("bisect %d %d %d", r, e, side))) continue; R.step(2); R.state(S("%s b %d%d%d %d %d %d", name, a, b, c, r, e, side));
      Bisect<T> B(p, lo, hi, eps); T x = B.operation();
      if (!B.success() || absv(T(x - T(r))) > eps * T(2)) R.fail("bisection of (x%+d)(x%+d)(x%+d) between %s and %s: %s", -a, -b, -c, txt(lo).c_str(), txt(hi).c_str(), txt(x).c_str());
      if (B.function(lo) != p(lo)) R.fail("function(lo)");
      // from the middle of the bracket Newton's method converges to the root unless it leaves the bracket
      Newton<T> N(p, lo, hi, eps); T y = N.operation(); T m = (lo + hi) / T(2); bool in = true; for (int k = 0; k < 300; ++k) { T dx = p(m) / p.d(m); m -= dx; if ((lo - m) * (m - hi) < T(0)) { in = false; break; } if (absv(dx) < eps) break; }
      if (N.success() != in) R.fail("Newton's method: success %d, expected %d", N.success(), in);
      else if (in ? absv(T(y - T(r))) > eps : y != T(0)) R.fail("Newton's method for (x%+d)(x%+d)(x%+d) between %s and %s: %s", -a, -b, -c, txt(lo).c_str(), txt(hi).c_str(), txt(y).c_str());
      T f, d; N.function_derivative(T(2), f, d); if (f != p(T(2)) || d != p.d(T(2))) R.fail("function_derivative");
    }
    if (!R.begin("no root")) continue; R.step(); Bisect<T> B(p, T(c + 1), T(c + 2), tenth<T>(5)); if (B.operation() != T(0)) R.fail("bisection of an interval without root gives %s", txt(B.operation()).c_str());
  }
  // derivatives: the rule is exact for polynomials up to degree 6 apart from rounding
  for (int d = 0; d <= 6; ++d) { if (!R.unit(S("derivative.%s.%d", name, d))) continue;
    for (int x = -4; x <= 4; ++x) for (int h : {1, 3}) { if (!R.begin(S("x%d h%d", x, h))) continue; R.step(2); R.state(S("%s d %d %d %d", name, d, x, h)); Poly<T> p; for (int i = 0; i <= d; ++i) p.c.push_back((i * 5 + 3) % 7 - 3);
      T want = p.d(T(x)), tol = tenth<T>(D - 8) ; Deriv<T> q(p, T(x), T(h) / T(8)); T g = q.operation(); if (!q.success() || absv(T(g - want)) > tol) R.fail("derivative of degree %d at %d: %s instead of %s", d, x, txt(g).c_str(), txt(want).c_str());
      if (D > 20) { Deriv<T> q2(p, T(x)); T g2 = q2.operation(); T t2 = tenth<T>(D * 2 / 3); if (absv(T(g2 - want)) > t2) R.fail("derivative of degree %d at %d with the default step: %s instead of %s", d, x, txt(g2).c_str(), txt(want).c_str()); } } }
  // integrals: linear functions exactly; smooth periodic ones to the tolerance squared
  if (R.unit(S("integral.%s", name))) {
    for (int a = -3; a <= 3; ++a) for (int b = a + 1; b <= 4; ++b) for (int u = -2; u <= 2; ++u) for (int v = -2; v <= 2; ++v) { if (u * (b * b - a * a) + 2 * v * (b - a) == 0) continue; if (!R.begin(S("%d..%d %dx%+d", a, b, u, v))) continue; R.step(); R.state(S("%s i %d %d %d %d", name, a, b, u, v));
      Trap<T> t([&](const T& x) { return T(T(u) * x + T(v)); }, T(a), T(b), tenth<T>(D / 2)); T I = t.operation(), want = T(u * (b * b - a * a) + 2 * v * (b - a)) / T(2); if (!t.success() || absv(T(I - want)) > tenth<T>(D - 3)) R.fail("integral of %dx%+d from %d to %d: %s", u, v, a, b, txt(I).c_str()); }
    for (int k = 0; k < 4; ++k) if (R.begin(S("x^2-like %d", k))) { R.step(); Trap<T> t([&](const T& x) { T r(1); for (int i = 0; i < k + 2; ++i) r *= x; return r; }, T(0), T(1), tenth<T>(5)); T I = t.operation(); if (!t.success() || absv(T(I * T(k + 3) - T(1))) > tenth<T>(4)) R.fail("integral of x^%d: %s", k + 2, txt(I).c_str()); }
  }
  // interpolation through every set of up to 4 of the points 0, 1, 3, 4, 8 (differences: powers of two), values of a small set
  { const int xs[] = {0, 2, 3, 4, 8}; 
    for (int mask = 0; mask < 32; ++mask) { if (!R.unit(S("interpolate.%s.%d", name, mask))) continue; vector<int> X; for (int i = 0; i < 5; ++i) if (mask >> i & 1) X.push_back(xs[i]);
      bool ok = true; for (size_t i = 1; i < X.size(); ++i) { int d = X[i] - X[i - 1]; if (d & (d - 1)) ok = false; } if (!ok) continue;
      for (int v = 0; v < 9; ++v) { vector<Util::point<T>> P; vector<int> Y; for (size_t i = 0; i < X.size(); ++i) { Y.push_back((int)((v * (i + 2) * 7 + i * 3) % 11) - 5); P.push_back(Util::point<T>(T(X[i]), T(Y[i]))); }
        if (!R.begin(S("v%d", v))) continue;
        for (int q = -8; q <= 80; ++q) { R.step(); R.state(S("%s p %d %d %d", name, mask, v, q)); T x = T(q) / T(8), want(0);
          if (X.empty()) want = T(0); else if (q <= X[0] * 8 || X.size() == 1) want = T(Y[0]); else if (q >= X.back() * 8) want = T(Y.back()); else for (size_t i = 1; i < X.size(); ++i) if (q > X[i - 1] * 8 && q <= X[i] * 8) { want = T(Y[i - 1]) + T((Y[i] - Y[i - 1]) * (q - X[i - 1] * 8)) / T(8 * (X[i] - X[i - 1])); break; }
          T got = Util::linear_interpolate<T>::interpolate(x, P); if (got != want) R.fail("interpolation at %s through %zu points: %s instead of %s", txt(x).c_str(), X.size(), txt(got).c_str(), txt(want).c_str()); } } } }
  // sums
  if (R.unit(S("sums.%s", name))) for (int n = 0; n <= 5; ++n) { int N = 1; for (int i = 0; i < n; ++i) N *= 3; for (int w = 0; w < N; ++w) { vector<T> c; vector<long> ci; int y = w; for (int i = 0; i < n; ++i) { ci.push_back(y % 3 * 2 - 1); c.push_back(T((double)ci.back())); y /= 3; } if (!R.begin(S("%d %d", n, w))) continue; R.step(4); R.state(S("%s s %d %d", name, n, w));
    for (int neg = 0; neg < 2; ++neg) { long want = 7; for (int i = 0; i < n; ++i) want += ((i + neg) & 1 ? -ci[i] : ci[i]); T g = std::accumulate(c.begin(), c.end(), T(7), Util::alternating_sum<T>(neg)); if (g != T((double)want)) R.fail("alternating sum of %d terms: %s instead of %ld", n, txt(g).c_str(), want); }
    for (int x : {-3, 2}) for (int st = 0; st < 2; ++st) { long want = 1, p = st ? x : 1; for (int i = 0; i < n; ++i) { want += ci[i] * p; p *= x; } T g = st ? std::accumulate(c.begin(), c.end(), T(1), Util::coefficient_expansion<T>(T(x), T(x))) : std::accumulate(c.begin(), c.end(), T(1), Util::coefficient_expansion<T>(T(x))); if (g != T((double)want)) R.fail("expansion of %d terms in %d: %s instead of %ld", n, x, txt(g).c_str(), want); } } }
}
// ---- generic functions for built-in types, e_float, and a number type they know nothing about
namespace gf = generic_functions;
template<class T> static T from(const string& s);
template<> float from<float>(const string& s) { return strtof(s.c_str(), nullptr); } template<> double from<double>(const string& s) { return strtod(s.c_str(), nullptr); } template<> long double from<long double>(const string& s) { return strtold(s.c_str(), nullptr); }
template<> e_float from<e_float>(const string& s) { return e_float(s); } template<> BN from<BN>(const string& s) { return BN(s); }
static MP mpx(const e_float& x) { Val v = observe(x); return mpv(v); } static MP mpx(const BN& x) { return mpx(x.backend().crepresentation()); } template<class T> static MP mpx(T x) { return MP(exact((long double)x)); }
template<class T> static MP epsof() { return MP(exact((long double)std::numeric_limits<T>::epsilon())) * MP(4L); } template<> MP epsof<e_float>() { return ten_to(-D10); } template<> MP epsof<BN>() { return ten_to(-D10 + 3); }
template<class T> static void near1(Run& R, const char* what, const T& got, const MP& want, long slack = 1) { R.step(); MP g = mpx(got), d = ref::abs(g - want); if (!g.fin() || ref::abs(want) * epsof<T>() * MP(slack) < d) R.fail("%s: %s, expected %s", what, g.str(25).c_str(), want.str(25).c_str()); }
template<class T> static void generic(Run& R, const char* name) {
  const bool big = D10 == std::numeric_limits<T>::digits10; const long mag = std::is_same<T, float>::value ? 30 : 200; precision_for(2 * D10 + 60 + 250);
  vector<string> V; for (long e : {-mag, -mag + 1, -17L, -4L, -1L, 0L, 1L, 2L, 5L, 16L, mag - 1, mag}) for (const char* m : {"1", "2", "7.25", "1.5", "9.999", "3.0517578125", "1.00001"}) V.push_back(string(m) + "e" + std::to_string(e));
  if (R.unit(S("generic.constants.%s", name)) && R.begin("pi ln2 gamma")) { near1(R, "pi", gf::pi<T>(), ref::pi(), 30); near1(R, "ln2", gf::ln2<T>(), ref::log(MP(2L)), 300); near1(R, "pi again", gf::pi<T>(), ref::pi(), 30); if (!std::is_same<T, BN>::value) near1(R, "euler_gamma", gf::euler_gamma<T>(), ref::euler()); }
  if (R.unit(S("generic.pown.%s", name))) for (std::int64_t p : {(std::int64_t)LLONG_MIN, (std::int64_t)LLONG_MIN + 1, (std::int64_t)LLONG_MAX, (std::int64_t)LLONG_MAX - 1, (std::int64_t)INT_MIN, (std::int64_t)INT_MAX, (std::int64_t)1 << 62, -((std::int64_t)1 << 62)}) for (int b : {1, -1}) { if (!R.begin(S("%d^%ld", b, (long)p))) continue; R.step(); if (gf::pown<T>(T(b), p) != T(b > 0 || p % 2 == 0 ? 1 : -1)) R.fail("pown(%d, %ld)", b, (long)p); R.state(S("pown%d.%ld", b, (long)p)); }
  for (auto& s : V) {
    if (!R.unit(S("generic.%s.%s", name, s.c_str()))) continue; const T x = from<T>(s); const MP X = mpx(x);
    if (R.begin("sqrt")) near1(R, S("sqrt(%s)", s.c_str()).c_str(), gf::sqrt<T>(x), ref::sqrt(X), 10);
    for (int p : {1, 2, 3, 4, 5, 7, 12, 24, -1, -2, -3, -5}) if (R.begin(S("rootn %d", p))) near1(R, S("rootn(%s, %d)", s.c_str(), p).c_str(), gf::rootn<T>(x, p), ref::exp(ref::log(X) / MP((long)p)), 300);
    if (R.begin("log")) { MP l = ref::log(X); MP d = ref::abs(mpx(gf::log<T>(x)) - l), t = epsof<T>() * MP(10000L) * (ref::abs(l) + MP(big ? 2L : 0L)); if (t < d) R.fail("log(%s): %s, expected %s", s.c_str(), mpx(gf::log<T>(x)).str(25).c_str(), l.str(25).c_str()); R.step(); }
    for (int p : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, -1, -2, -5, 31}) { MP w = ref::powi(X, p); MP l = ref::abs(ref::log(w)); if (l > MP(mag * 2)) continue; if (R.begin(S("pown %d", p))) near1(R, S("pown(%s, %d)", s.c_str(), p).c_str(), gf::pown<T>(x, p), w, 300); }
    if (R.begin("frexp10")) { std::int64_t e = -99999; double m = gf::frexp10<T>(x, &e); R.step(); MP w = X / ref::powi(MP(10L), (long)e); MP d = ref::abs(MP(exact((long double)m)) - w); if (!(m >= 1 && m < 10.0000001) || MP(exact(1e-14L)) * MP(std::is_same<T, float>::value ? 100L : 1L) < d) R.fail("frexp10(%s) is %.17g e%ld", s.c_str(), m, (long)e); }
    if (R.begin("small")) { MP lim = ref::exp(ref::log(MP(exact((long double)1))) ); (void)lim; bool got = gf::small_arg<T>(x); MP ep = mpx(std::numeric_limits<T>::epsilon()), l6 = ref::powi(X, 6); R.step(); MP lo = ep * MP(99L) / MP(100L), hi = ep * MP(101L) / MP(100L); if (l6 < lo ? !got : hi < l6 ? got : false) R.fail("small_arg(%s) is %d", s.c_str(), got); if (gf::fabs<T>(T(-x)) != x || gf::fabs<T>(x) != x || gf::isneg<T>(x) || !gf::isneg<T>(T(-x)) || gf::iszero<T>(x) || !gf::iszero<T>(T(0)) || !gf::isone<T>(T(1)) || (gf::isone<T>(x) != (s == "1e0"))) R.fail("classification of %s", s.c_str()); }
  }
}
int main(int argc, char** argv) {
  Run R(argc, argv); const bool T = R.thorough;
  // powers of integers, alone and with a table used before for other bases
  vector<std::uint32_t> J; for (std::uint32_t j = 1; j <= (T ? 400u : 72u); ++j) J.push_back(j);
  for (std::uint32_t j : {97u, 128u, 243u, 256u, 343u, 360u, 625u, 720u, 961u, 1024u, 2187u, 5040u, 6561u, 9973u, 9999u, 10000u, 10001u, 65536u, 65537u, 1048576u, 362880u, 510510u, 2147483647u, 2147483648u, 4294967291u, 4294967295u, 3486784401u, 4292870400u}) J.push_back(j);
  vector<Pt> X = pts({"0", "1", "-1", "2", "-2", "3", "7", "-11", "40", "-75", "0.5", "-0.5", "2.25", "-7.125", "33.3", "-0.001", "1e-10", "-1e-25", "1e9", "100000.5", "-1000000000"});
  vector<Pt> Y = pts({"0", "1", "-0.5", "14.13", "1e-12"});
  for (size_t a = 0; a < X.size(); ++a) for (size_t b = 0; b <= Y.size(); ++b) {                    // b == Y.size(): real
    std::map<std::uint32_t, e_float> rm; std::map<std::uint32_t, EC> cm;
    if (b < Y.size() && labs(X[a].v.d.order()) > 3 && !X[a].v.d.zero()) continue;
    if (!R.unit(S("jpow.%zu.%zu", a, b))) continue;
    for (std::uint32_t j : J) {
      if (!R.begin(S("j%u", j)) && false) continue;
      precision_for(2 * D10 + 60); MP L = ref::log(MP(Z::u(j).str().size() < 19 ? Dec(Z::u(j)) : Dec(Z::u(j))));
      if (b == Y.size()) {
        const e_float x = arg(X[a]); MP xx = mpv(X[a].v); long slack = std::max(0L, X[a].v.d.order() + 1); std::map<std::uint32_t, e_float> fresh; e_float g1 = Util::j_pow_x(j, x, fresh), g2 = Util::j_pow_x(j, x, rm); R.state(S("j %zu %u", a, j));
        for (auto* g : {&g1, &g2}) { if (labs((long)(xx * L).d()) > 2000000000L / 2) { R.step(); continue; } value(R, S("%u^(%s)%s", j, X[a].t.c_str(), g == &g2 ? " with table" : "").c_str(), *g, {xx}, [&](const vector<MP>& q) { return ref::exp(q[0] * L); }, D10 - slack / 4); }
      } else {
        const EC z(arg(X[a]), arg(Y[b])); CM zz(mpv(X[a].v), mpv(Y[b].v)); std::map<std::uint32_t, EC> fresh; EC g1 = Util::j_pow_x(j, z, fresh), g2 = Util::j_pow_x(j, z, cm); R.state(S("c %zu %zu %u", a, b, j));
        for (auto* g : {&g1, &g2}) cvalue<e_float>(R, S("%u^(%s, %s)%s", j, X[a].t.c_str(), Y[b].t.c_str(), g == &g2 ? " with table" : ""), *g, {zz}, [&](const vector<CM>& q) { return cexp(q[0] * CM(L)); });
      }
    }
  }
  casts<int>(R, "int"); casts<unsigned>(R, "unsigned"); casts<long>(R, "long"); casts<unsigned long>(R, "unsigned long"); casts<long long>(R, "long long"); casts<unsigned long long>(R, "unsigned long long"); casts<short>(R, "short"); casts<unsigned short>(R, "unsigned short"); casts<signed char>(R, "signed char"); casts<unsigned char>(R, "unsigned char");
  if (R.unit("cast.e_float")) for (auto& p : X) { if (!R.begin(p.t)) continue; R.step(); e_float x = Util::numeric_cast<e_float>(p.t); if (x != arg(p)) R.fail("numeric_cast<e_float>(%s) gives %s", p.t.c_str(), txt(x).c_str()); if (std::fabs(strtod(Util::lexical_cast(x).c_str(), nullptr) / strtod(p.t.c_str(), nullptr) - 1) > 1e-5) R.fail("lexical_cast(%s) gives %s", p.t.c_str(), Util::lexical_cast(x).c_str()); }
  if (R.unit("digit scale") && R.begin("value")) { R.step(); double d = (double)std::numeric_limits<e_float>::digits10, w = d <= 50 ? 1.0 / 6 : d <= 100 ? 1.0 / 6 + (d - 50) / 50 / 6 : d <= 200 ? 1.0 / 3 + (d - 100) / 100 / 6 : d < 300 ? 0.5 + (d - 200) / 200 : 1.0; if (std::fabs(Util::DigitScale() - w) > 1e-12) R.fail("DigitScale is %.17g instead of %.17g", Util::DigitScale(), w); }
  numeric<double>(R, "double"); numeric<e_float>(R, "e_float");
  generic<float>(R, "float"); generic<double>(R, "double"); generic<long double>(R, "long double"); generic<e_float>(R, "e_float"); if (DECIMAL || true) generic<BN>(R, "number");
  return R.finish();
}
