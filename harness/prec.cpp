// P27: changing the working precision of an object at run time.
#include "mc.h"
#include "func.h"
using std::vector; using std::string;
// digits granted for a request: whole limbs, the last of them not guaranteed
static long grant(long n) { return std::min(D10, std::max(1L, DECIMAL ? n - 16 : n - 3)); }
int main(int argc, char** argv) {
  Run R(argc, argv); const bool T = R.thorough; const long W = D10; precision_for(2 * W + 60);
  vector<string> P = {"1", repn("9", W), repn("31415926535897932384626433832795028841971", W - 1) + "3", "1" + string(W - 2, '0') + "1", repn("9999999900000000", W - 1) + "7", "725", "4" + repn("9", W - 1)};
  struct O { Dec d; e_float x; }; vector<O> Q; for (auto& p : P) for (long e : T ? vector<long>{0, 1, 3, 5, 7} : vector<long>{0, 3}) { Dec d(Z(p), 0); d.e = e - d.order(); Q.push_back({d, make(d)}); }
  vector<long> N; for (long n = 1; n <= W + 30; ++n) if (T || n < 26 || n % 8 < 2 || n % 8 == 7 || n >= W - 2) N.push_back(n); N.push_back(10 * W); N.push_back(1000000);
  auto rl = [](const Dec& x, long n) { return Dec(ref::abs(x.m), x.e - n); };
  auto chk = [&](const string& what, const e_float& r, const Dec& w, const Dec& slack) { R.step(); Val o = observe(r); if (!near(o, w, slack)) R.fail("%s: library %s, exact %s", what.c_str(), o.brief().c_str(), w.brief().c_str()); };
  const Dec PI = ref::pi().dec(W + 20);
  for (size_t i = 0; i < Q.size(); ++i) for (long n : N) if (R.unit(S("%zu.%ld", i, n))) for (size_t j = 0; j < Q.size(); ++j) for (long m : {n, W, 12L + n / 2}) {
    if (!T && (i * 3 + j + n) % 4) continue;
    if (!R.begin(S("%zu.%ld", j, m))) continue;
    const Dec &a = Q[i].d, &b = Q[j].d; const long g = std::min(grant(n), grant(m)); const Dec mx = a < b ? b : a;
    e_float x(Q[i].x), y(Q[j].x), z(Q[i].x); x.precision((std::int32_t)n); y.precision((std::int32_t)m);
    R.state(S("%zu %ld %zu %ld", i, n, j, m));
    chk("value after precision()", x, a, rl(a, grant(n)));
    { e_float t(x); t += y; chk("x += y", t, ref::add(a, b), rl(mx, g)); }
    { e_float t(x); t -= y; chk("x -= y", t, ref::sub(a, b), rl(mx, g)); }
    { e_float t(x); t *= y; Dec w = ref::mul(a, b); chk("x *= y", t, w, rl(w, g)); }
    { e_float t(x); t /= y; Dec w = ref::div(a, b, W + 20); chk("x /= y", t, w, rl(w, g)); }
    { e_float t(x); t *= 12345679; Dec w = ref::mul(a, Dec(12345679)); chk("x *= int", t, w, rl(w, grant(n))); }
    { e_float t(x); t /= 97; Dec w = ref::div(a, Dec(97), W + 20); chk("x /= int", t, w, rl(w, grant(n))); }
    { e_float t(x); t += 7; Dec w = ref::add(a, Dec(7)); chk("x += int", t, w, rl(w, grant(n))); }
    if (j % 3 == 0) { e_float t(x); t.calculate_inv(); Dec w = ref::div(Dec(1), a, W + 20); chk("inverse", t, w, rl(w, grant(n))); t = x; t.calculate_sqrt(); w = ref::sqrt(MP(a)).dec(W + 20); chk("square root", t, w, rl(w, grant(n))); }
    { bool c = x < y, e = a < b; if (c != e && ref::absd(ref::sub(a, b)).sign() && !(ref::absd(ref::sub(a, b)) < rl(mx, g))) R.fail("%s < %s is %d at %ld and %ld digits", a.brief().c_str(), b.brief().c_str(), (int)c, n, m); R.step(); }
    // other objects keep their precision, and assignment brings full precision back
    chk("an equal object", z, a, Dec(0)); { e_float t(z); t *= Q[j].x; Dec w = ref::mul(a, b); chk("product of others", t, w, rel(w)); chk("pi", ef::pi(), PI, rel(PI)); }
    { e_float t(x); t = Q[j].x; chk("assigned value", t, b, Dec(0)); t /= Q[i].x; Dec w = ref::div(b, a, W + 20); chk("quotient after assignment", t, w, rel(w)); }
    { e_float t(x); e_float u(Q[j].x); t = std::move(u); chk("moved value", t, b, Dec(0)); t *= Q[i].x; Dec w = ref::mul(a, b); chk("product after move", t, w, rel(w)); }
    { e_float t(x), u(Q[j].x); t.swap(u); chk("swap: swapped in", t, b, Dec(0)); t /= Q[i].x; Dec w = ref::div(b, a, W + 20); chk("swap: quotient with the swapped in", t, w, rel(w)); chk("swap: swapped out", u, a, rl(a, grant(n))); u *= Q[j].x; w = ref::mul(a, b); chk("swap: product with the swapped out", u, w, rl(w, grant(n))); }
    { e_float t(x), u(Q[j].x); u.swap(t); chk("swap back: swapped in", t, b, Dec(0)); t /= Q[i].x; Dec w = ref::div(b, a, W + 20); chk("swap back: quotient", t, w, rel(w)); chk("swap back: swapped out", u, a, rl(a, grant(n))); }
    { e_float t(x), u(Q[j].x); std::swap(t, u); chk("swapped in", t, b, Dec(0)); t += Q[i].x; Dec w = ref::add(a, b); chk("sum after swap", t, w, rel(mx)); chk("swapped out", u, a, rl(a, grant(n))); }
    // back to full precision: operations are exact again for the value the object has
    { e_float t(x); t *= y; t.precision(1000000); Val o = observe(t); if (o.cls == 0) { t *= Q[j].x; Dec w = ref::mul(o.d, b); chk("product after restoring", t, w, rel(w)); t = x; t.precision(1000000); o = observe(t); t += Q[j].x; w = ref::add(o.d, b); chk("sum after restoring", t, w, rel(ref::absd(o.d) < b ? b : ref::absd(o.d))); } }
    // a copy keeps the precision asked for or has more
    { e_float t(x), u; u = t; u *= Q[j].x; Dec w = ref::mul(a, b); chk("product of a copy", u, w, rl(w, grant(n))); }
  }
  // results of functions take part in later arithmetic at full precision
  struct F { const char* n; std::function<e_float(const e_float&)> f; };
#define FN(n) {#n, [](const e_float& x) { return ef::n(x); }}
  vector<F> fs = {FN(sqrt), FN(cbrt), FN(exp), FN(log), FN(log10), FN(log1p), FN(sin), FN(cos), FN(tan), FN(asin), FN(acos), FN(atan), FN(sinh), FN(cosh), FN(tanh), FN(asinh), FN(acosh), FN(atanh), FN(inv), FN(floor), FN(ceil), FN(fabs), FN(integer_part), FN(decimal_part), FN(csc), FN(sec), FN(cot),
    {"rootn 3", [](const e_float& x) { return ef::rootn(x, 3); }}, {"rootn 7", [](const e_float& x) { return ef::rootn(x, 7); }}, {"rootn -2", [](const e_float& x) { return ef::rootn(x, -2); }}, {"rootn_inverse 5", [](const e_float& x) { return ef::rootn_inverse(x, 5); }}, {"pow", [](const e_float& x) { return ef::pow(x, ef::pi()); }}, {"pown", [](const e_float& x) { return ef::pow(x, 13); }}, {"atan2", [](const e_float& x) { return ef::atan2(x, ef::ten()); }}, {"fmod", [](const e_float& x) { return ef::fmod(x, ef::third()); }}, {"ldexp", [](const e_float& x) { return ef::ldexp(x, -5); }}, {"frexp", [](const e_float& x) { int n; return ef::frexp(x, &n); }}, {"pow2", [](const e_float& x) { return ef::pow2(ef::to_int64(x * 10)); }}, {"powi", [](const e_float& x) { return ef::pow(x, -3); }}, {"loga", [](const e_float& x) { return ef::loga(ef::three(), x); }}
  };
  for (auto& f : fs) if (R.unit(string("after.") + f.n)) for (const char* at : {"0.3", "0.75", "1.25", "3.5", "17", "1e30", "-0.6", "1e-5", "0.001234", "-44.25"}) { if (!R.begin(at)) continue;
    e_float x{string(at)}, r = f.f(x); Val o = observe(r); if (o.cls != 0 || o.d.zero()) continue; R.state(S("%s %s", f.n, at));
    const Dec b = Q[4].d; const e_float& y = Q[4].x;
    e_float t(r); t *= r; Dec w = ref::mul(o.d, o.d); chk(S("square of %s(%s)", f.n, at), t, w, DECIMAL ? rel(w) : rel(w, W - 1));
    t = r; t *= y; w = ref::mul(o.d, b); chk(S("product with %s(%s)", f.n, at), t, w, rel(w)); t = y * r; chk(S("product by %s(%s)", f.n, at), t, w, rel(w));
    t = y / r; w = ref::div(b, o.d, W + 20); chk(S("quotient by %s(%s)", f.n, at), t, w, rel(w)); t = r * 99999999; w = ref::mul(o.d, Dec(99999999)); chk(S("%s(%s) * int", f.n, at), t, w, rel(w));
    t = r / 7; w = ref::div(o.d, Dec(7), W + 20); chk(S("%s(%s) / int", f.n, at), t, w, rel(w)); Val p = observe(x); R.step(); if (!near(p, ref::parse(at).d, rel(p.d))) R.fail("argument changed"); }
  return R.finish();
}
