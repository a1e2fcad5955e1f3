// Non-finite algebra (nonfinite) and the ends of the exponent range (limits).
#include "pat.h"
#include <climits>
#include <functional>

// Model value: a class and, when finite, the exact number with an error bound.
struct MV {
  int cls = 0;              // 0 finite, +-1 infinity, 2 NaN, 5 infinity of unspecified sign
  Dec d, err;
  bool lit0 = false;        // a zero known to be the literal (positive) zero
};
static MV fin(const Dec& d) { MV m; m.d = d; m.lit0 = d.zero(); return m; }
static MV cls(int c) { MV m; m.cls = c; return m; }
static MV inf(int s) { return cls(s == 0 ? 5 : s > 0 ? 1 : -1); }
static int isg(const MV& a) { return a.cls == 5 ? 0 : a.cls == 0 ? a.d.sign() : a.cls; }   // 0: unknown or zero
static bool isinf(const MV& a) { return a.cls == 1 || a.cls == -1 || a.cls == 5; }
static bool unk = false;     // the model cannot say (infinities of unspecified sign met)
static MV neg(const MV& a) { MV r = a; if (a.cls == 0) { r.d = -a.d; r.lit0 = false; } else if (a.cls == 1 || a.cls == -1) r.cls = -a.cls; return r; }
static MV madd(const MV& a, const MV& b) {
  if (a.cls == 2 || b.cls == 2) return cls(2);
  if (isinf(a) && isinf(b)) { if (a.cls == 5 || b.cls == 5) { unk = true; return cls(2); } return a.cls == b.cls ? a : cls(2); }
  if (isinf(a)) return a;
  if (isinf(b)) return b;
  MV r = fin(ref::add(a.d, b.d)); r.lit0 = false;
  r.err = ref::add(ref::add(a.err, b.err), ref::add(rel(r.d), ref::add(rel(a.d, D10 + 7), rel(b.d, D10 + 7))));
  return r;
}
static MV mmul(const MV& a, const MV& b) {
  if (a.cls == 2 || b.cls == 2) return cls(2);
  if (isinf(a) || isinf(b)) {
    if ((a.cls == 0 && a.d.zero()) || (b.cls == 0 && b.d.zero())) return cls(2);
    return inf(isg(a) * isg(b));
  }
  MV r = fin(ref::mul(a.d, b.d)); r.lit0 = false;
  r.err = ref::add(rel(r.d), ref::add(ref::absd(ref::mul(a.err, b.d)), ref::absd(ref::mul(b.err, a.d))));
  return r;
}
static MV mdiv(const MV& a, const MV& b) {
  if (a.cls == 2 || b.cls == 2) return cls(2);
  if (isinf(a) && isinf(b)) return cls(2);
  if (isinf(a)) { if (b.d.zero()) return inf(b.lit0 ? isg(a) : 0); return inf(isg(a) * isg(b)); }
  if (isinf(b)) { MV r = fin(Dec(0)); r.lit0 = false; return r; }
  if (b.d.zero()) { if (a.d.zero()) return cls(2); return inf(b.lit0 ? a.d.sign() : 0); }
  MV r = fin(ref::div(a.d, b.d, D10 + 30)); r.lit0 = false;
  Dec q = ref::absd(r.d);
  r.err = ref::add(rel(r.d), ref::add(a.err.zero() ? Dec(0) : ref::div(a.err, ref::absd(b.d), 20), b.err.zero() ? Dec(0) : ref::mul(q, ref::div(b.err, ref::absd(b.d), 20))));
  return r;
}
// range of each back end: |x| <= max is representable; beyond `far` it must be infinite
static Dec MAXV, FAR, MINV, FARMIN;
static void init_range() {
  long mx = std::numeric_limits<e_float>::max_exponent10, mn = std::numeric_limits<e_float>::min_exponent10;
  MAXV = Dec(Z(repn("9", D10 - 1)), mx - (D10 - 2)); MINV = Dec(Z(1L), mn);
  if (!strcmp(BACKEND, "efx")) { FAR = Dec(Z(10L), mx); FARMIN = Dec(Z(1L), mn - 9); }
  else if (!strcmp(BACKEND, "gmp")) { FAR = Dec(Z(1L), (long)(std::numeric_limits<e_float>::max_exponent * 0.30103) + 2); FARMIN = Dec(Z(1L), (long)(std::numeric_limits<e_float>::min_exponent * 0.30103) - 2); }
  else { FAR = Dec(Z(1L), LONG_MAX / 4); FARMIN = Dec(Z(1L), LONG_MIN / 4); }
}
static std::string mvs(const MV& m) { return m.cls == 0 ? m.d.brief() : m.cls == 2 ? "nan" : m.cls == 5 ? "inf of either sign" : m.cls > 0 ? "+inf" : "-inf"; }
// does the observed value agree with the model value?
static bool agree(const Val& o, const MV& m) {
  if (m.cls == 2) return o.cls == 2;
  if (m.cls == 5) return o.cls == 1 || o.cls == -1;
  if (m.cls != 0) return o.cls == m.cls;
  Dec a = ref::absd(m.d);
  if (a < MAXV) {
    if (!(a < ref::add(MINV, rel(MINV))) || a.zero()) return near(o, m.d, m.err);
    return o.cls == 0 && (o.d.zero() || near(o, m.d, m.err));            // below min: zero or the number itself
  }
  if (FAR < a) return o.cls == m.d.sign();
  return o.cls == m.d.sign() || near(o, m.d, m.err);                      // between max and the end of the range
}
static bool check(Run& R, const char* what, const e_float& x, const MV& m) {
  R.step();
  Val o = observe(x);
  if (o.cls == 0) R.state(o.d.norm().str()); else R.state(S("c%d", o.cls));
  bool f = o.cls == 0;
  if (x.isnan() != (o.cls == 2) || x.isinf() != (o.cls == 1 || o.cls == -1) || x.isfinite() != f) { R.fail("%s: predicates of the result contradict its text %s", what, o.brief().c_str()); return false; }
  if (!f && (x.iszero() || x.isone() || x.isint())) { R.fail("%s: a non-finite result (%s) claims to be zero, one or an integer", what, o.brief().c_str()); return false; }
  if (!agree(o, m)) { R.fail("%s: library %s, expected %s", what, o.brief().c_str(), mvs(m).c_str()); return false; }
  return true;
}
struct Opd { std::string name; MV m; std::function<void(e_float&, int)> apply; };   // apply: x op= operand (0..3: + - * /), 4..7 reversed operand op x
template<typename T> static void bin(e_float& x, int k, const T& n) {
  switch (k) { case 0: x += n; break; case 1: x -= n; break; case 2: x *= n; break; case 3: x /= n; break;
    case 4: x = n + x; break; case 5: x = n - x; break; case 6: x = n * x; break; case 7: x = n / x; break;
    case 8: x = x + n; break; case 9: x = x - n; break; case 10: x = x * n; break; default: x = x / n; }
}
static MV model(int k, const MV& x, const MV& n) {
  switch (k & 3) { case 0: return madd(x, n); case 1: return k == 5 ? madd(n, neg(x)) : madd(x, neg(n)); case 2: return mmul(x, n); default: return k == 7 ? mdiv(n, x) : mdiv(x, n); }
}
static std::vector<Opd> alphabet(bool full) {
  std::vector<Opd> v;
  auto ef = [&](const char* n, const e_float& x, const MV& m) { v.push_back({n, m, [x](e_float& t, int k) { bin(t, k, x); }}); };
  ef("nan", std::numeric_limits<e_float>::quiet_NaN(), cls(2));
  ef("inf", std::numeric_limits<e_float>::infinity(), cls(1));
  ef("-inf", -std::numeric_limits<e_float>::infinity(), cls(-1));
  for (const char* s : {"0", "1", "-1", "2.5", "-3e40", "-7e-90"}) ef(s, e_float(s), fin(ref::parse(s).d));
  if (full) for (const char* s : {"1e100000", "-1e-100000", "-99999999"}) ef(s, e_float(s), fin(ref::parse(s).d));
  each_floating([&](auto ty, const char* tn) {
    typedef typename decltype(ty)::type T; typedef std::numeric_limits<T> L;
    auto add = [&](const char* n, T x, const MV& m) { v.push_back({S("%s(%s)", tn, n), m, [x](e_float& t, int k) { bin(t, k, x); }}); };
    add("nan", L::quiet_NaN(), cls(2)); add("inf", L::infinity(), cls(1)); add("-inf", -L::infinity(), cls(-1));
    add("0", T(0), fin(Dec(0))); add("-2.5", T(-2.5), fin(Dec(Z(-25L), -1)));
    if (full) { add("1", T(1), fin(Dec(1))); add("max", L::max(), fin(exact(L::max()))); add("-min", -L::min(), fin(exact(-L::min()))); }
  });
  each_integral([&](auto ty, const char* tn) {
    typedef typename decltype(ty)::type T; typedef std::numeric_limits<T> L;
    if (!full && strcmp(tn, "int") && strcmp(tn, "ullong") && strcmp(tn, "llong")) return;
    std::set<T> s = {T(0), T(1), L::min(), L::max()};
    for (T x : s) v.push_back({S("%s(%s)", tn, std::to_string(x).c_str()), fin(exact_of<T>(x)), [x](e_float& t, int k) { bin(t, k, x); }});
  });
  return v;
}

static void nonfinite(Run& R) {
  auto start = alphabet(true);
  auto A = alphabet(true), B = alphabet(false);
  for (size_t i = 0; i < start.size(); ++i) {
    if (start[i].name.find('(') != std::string::npos) continue;
    if (!R.unit(S("from.%s", start[i].name.c_str()))) continue;
    const MV m0 = start[i].m;
    auto build = [&]() { e_float t("0"); if (m0.cls == 0) t = make(m0.d); else t = m0.cls == 2 ? std::numeric_limits<e_float>::quiet_NaN() : m0.cls > 0 ? std::numeric_limits<e_float>::infinity() : -std::numeric_limits<e_float>::infinity(); return t; };
    // unary operations
    if (R.begin("unary")) {
      e_float x = build();
      check(R, "copy", x, m0); check(R, "+x", +x, m0); check(R, "-x", -x, neg(m0)); check(R, "-(-x)", -(-x), m0);
      e_float t = x; t.negate(); check(R, "negate", t, neg(m0));
      t = x; ++t; check(R, "++x", t, madd(m0, fin(Dec(1)))); t = x; --t; check(R, "--x", t, madd(m0, fin(Dec(-1))));
      t = x; { e_float o = t++; check(R, "x++ value", o, m0); check(R, "x++ effect", t, madd(m0, fin(Dec(1)))); }
      t = x; { e_float o = t--; check(R, "x-- value", o, m0); check(R, "x-- effect", t, madd(m0, fin(Dec(-1)))); }
      check(R, "fabs", ef::fabs(x), m0.cls == 2 ? m0 : (isg(m0) < 0 ? neg(m0) : m0));
      check(R, "abs", ef::abs(x), m0.cls == 2 ? m0 : (isg(m0) < 0 ? neg(m0) : m0));
      t = x; t.calculate_inv(); { MV w = mdiv(fin(Dec(1)), m0); check(R, "calculate_inv", t, w); }
      e_float p = build(), q = p; t = build();
      // an object as both operands
      t = x; t += t; check(R, "x+=x", t, madd(m0, m0)); t = x; t -= t; check(R, "x-=x", t, madd(m0, neg(m0)));
      t = x; t *= t; check(R, "x*=x", t, mmul(m0, m0)); t = x; t /= t; check(R, "x/=x", t, mdiv(m0, m0));
      t = x; t = t; check(R, "x=x", t, m0);
      e_float o(3); t = x; std::swap(t, o); check(R, "swap", o, m0); check(R, "swap other", t, fin(Dec(3)));
      { e_float a(std::move(p)); check(R, "move construction", a, m0); e_float b(7); b = std::move(a); check(R, "move assignment", b, m0); b = q; check(R, "assignment", b, m0); a = q; check(R, "assignment to a moved-from object", a, m0); }
    }
    for (auto& a : A) for (int k = 0; k < 12; ++k) {
      if (a.m.cls == 0 && m0.cls == 0 && a.name.find('(') == std::string::npos && start.size() > 40 && (k >= 8)) continue;
      if (R.begin(S("%d.%s", k, a.name.c_str()))) {
        e_float t = build(); a.apply(t, k); unk = false; MV m = model(k, m0, a.m);
        if (!check(R, S("%s op%d %s", start[i].name.c_str(), k, a.name.c_str()).c_str(), t, m)) continue;
      }
      else if (!R.only) continue;
      if (k >= 8) continue;
      unk = false; MV m = model(k, m0, a.m);
      if (m.cls == 0 && m0.cls == 0 && a.m.cls == 0) continue;       // nothing non-finite met yet: covered elsewhere
      if (m.cls == 0) m.lit0 = false;
      for (auto& b : B) for (int l = 0; l < 8; ++l) {
        if (!R.begin(S("%d.%s,%d.%s", k, a.name.c_str(), l, b.name.c_str()))) continue;
        unk = false; MV w = model(l, m, b.m); if (unk) { R.count("skipped: infinity of unspecified sign"); continue; }
        e_float t = build(); a.apply(t, k); b.apply(t, l);
        if (!check(R, S("%s op%d %s op%d %s", start[i].name.c_str(), k, a.name.c_str(), l, b.name.c_str()).c_str(), t, w)) continue;
        if (R.thorough) {
          if (w.cls == 0) w.lit0 = false;
          for (auto& c : B) for (int o = 0; o < 8; o += (o == 3 ? 2 : 1)) { unk = false; MV y = model(o, w, c.m); if (unk) continue; e_float z = t; c.apply(z, o); if (!check(R, S("%s op%d %s op%d %s op%d %s", start[i].name.c_str(), k, a.name.c_str(), l, b.name.c_str(), o, c.name.c_str()).c_str(), z, y)) break; }
        }
      }
    }
    R.sample(S("%s, then every operation with every operand, then every second operation", start[i].name.c_str()));
  }
}

static void limits(Run& R) {
  typedef std::numeric_limits<e_float> L;
  const long mx = L::max_exponent10, mn = L::min_exponent10;
  if (R.unit("constants")) {
    if (R.begin("max")) { Val o = observe((L::max)()); R.step(); if (o.cls || o.d < MAXV || Dec(Z(10L), mx) < o.d) R.fail("max() is %s, max_exponent10 %ld", o.brief().c_str(), mx); }
    if (R.begin("min")) { Val o = observe((L::min)()); R.step(); if (!near(o, Dec(Z(1L), mn), rel(Dec(Z(1L), mn)))) R.fail("min() is %s, min_exponent10 %ld", o.brief().c_str(), mn); }
    if (R.begin("lowest")) { Val o = observe(L::lowest()); R.step(); if (o.cls || !(o.d.sign() < 0) || L::lowest() != -(L::max)()) R.fail("lowest() is %s, not -max()", o.brief().c_str()); }
    if (R.begin("epsilon")) {
      e_float e = L::epsilon(); R.step(5);
      if (!(e > e_float(0)) || !((e_float(1) + e) > e_float(1)) || !((e_float(1) - e) < e_float(1))) R.fail("1 +- epsilon is not distinguishable from 1");
      Val o = observe(e); Dec want(Z(1L), -(D10 - 1)); if (!near(o, want, rel(want))) R.fail("epsilon is %s, expected 10^(1-digits10)", o.brief().c_str());
    }
    if (R.begin("classes")) { check(R, "infinity", L::infinity(), cls(1)); check(R, "quiet_NaN", L::quiet_NaN(), cls(2)); check(R, "round_error", L::round_error(), fin(Dec(Z(5L), -1))); }
    if (R.begin("static")) {
      R.step(8);
      if (!L::is_specialized || !L::is_signed || L::is_integer || L::is_exact || !L::has_infinity || !L::has_quiet_NaN) R.fail("numeric_limits flags");
      if (L::max_digits10 <= L::digits10 || L::max_exponent10 <= 0 || L::min_exponent10 >= 0) R.fail("numeric_limits digit counts");
#ifdef E_FLOAT_VERIF_DIGITS10
      if (L::digits10 != E_FLOAT_VERIF_DIGITS10) R.fail("digits10 is %d, configured %d", L::digits10, (int)E_FLOAT_VERIF_DIGITS10);
#endif
    }
  }
  // values around both ends of the range, and ordinary ones
  std::vector<Dec> V;
  const char* ms[] = {"1", "15", "9", "99999999", "100000001", "33333333333333333333"};
  std::vector<long> es;
  for (long o : {0L, -1L, -7L, -8L, -9L, -40L}) es.push_back(mx + o);
  for (long o : {0L, 1L, 7L, 8L, 9L, 40L}) es.push_back(mn + o);
  for (long o : {0L, 1L, 8L, -8L, 30L, 1000L, -1000L}) es.push_back(o);
  es.push_back(mx / 2); es.push_back(mx / 2 + 4); es.push_back(mx / 2 + 9); es.push_back(mn / 2); es.push_back(mn / 2 - 4); es.push_back(mn / 2 - 9);
  for (long e : es) for (const char* m : ms) { Dec d(Z(std::string(m)), 0); d.e = e - d.order(); if (MAXV < d || d < MINV) continue; V.push_back(d); }
  V.push_back(MAXV); V.push_back(Dec(1)); V.push_back(Dec(2)); V.push_back(Dec(3));
  std::vector<e_float> EV; for (auto& d : V) EV.push_back(make(d));
  auto par = [](const Dec& d) { MV m = fin(d); if (!DECIMAL) m.err = rel(d, D10 + 7); return m; };
  const long nsm[] = {1, 2, 3, 10, 99999999, 100000000, 123456789012L};
  for (size_t i = 0; i < V.size(); ++i) {
    if (!R.unit(S("v%zu", i))) continue;
    if (R.begin("self")) check(R, "value", EV[i], par(V[i]));
    for (size_t j = 0; j < V.size(); ++j) for (int s = 0; s < 4; ++s) {
      if (!R.begin(S("w%zu.%d", j, s))) continue;
      MV a = par(s & 1 ? -V[i] : V[i]), b = par(s & 2 ? -V[j] : V[j]);
      e_float x = s & 1 ? -EV[i] : EV[i], y = s & 2 ? -EV[j] : EV[j];
      check(R, "x*y", x * y, mmul(a, b));
      check(R, "x/y", x / y, mdiv(a, b));
      check(R, "x+y", x + y, madd(a, b));
      if (s < 2) check(R, "x-y", x - y, madd(a, neg(b)));
      if (i == j && s == 0) { e_float t = x; t *= t; check(R, "x*=x", t, mmul(a, a)); t = x; t.calculate_inv(); check(R, "1/x", t, mdiv(fin(Dec(1)), a)); t = x; t += t; check(R, "x+=x", t, madd(a, a)); }
    }
    for (size_t j = 0; j < sizeof nsm / sizeof *nsm; ++j) for (int s = 0; s < 4; ++s) {
      if (!R.begin(S("n%zu.%d", j, s))) continue;
      long n = s & 2 ? -nsm[j] : nsm[j]; MV a = par(s & 1 ? -V[i] : V[i]), b = fin(Dec(n)); e_float x = s & 1 ? -EV[i] : EV[i], t;
      check(R, "x*n", x * n, mmul(a, b)); check(R, "x/n", x / n, mdiv(a, b)); check(R, "n/x", n / x, mdiv(b, a)); check(R, "x+n", x + n, madd(a, b));
      t = x; t *= n; check(R, "x*=n", t, mmul(a, b)); MV c = mmul(a, b);
      t = x * 2 * n; { MV w = mmul(mmul(a, fin(Dec(2))), b); if (!(MAXV < ref::absd(mmul(a, fin(Dec(2))).d))) check(R, "x*2*n", t, w); }
      e_float u = x / n / n; { MV w = mdiv(mdiv(a, b), b); if (!(ref::absd(mdiv(a, b).d) < MINV)) check(R, "x/n/n", u, w); }
    }
    // repeated multiplication past the end of the range ends in infinity (or zero) and stays there
    for (int s = 0; s < 2; ++s) if (R.begin(S("powers.%d", s))) {
      MV m = par(V[i]); e_float x = EV[i]; if (s) { m = neg(m); x = -x; }
      MV acc = m; e_float t = x;
      for (int k = 0; k < 6; ++k) { acc = mmul(acc, m); t *= x; if (!check(R, S("power %d", k + 2).c_str(), t, acc)) break; Dec ad = ref::absd(acc.d); if (MAXV < ad || ad < MINV) break; }
      Val o = observe(t);
      if (o.cls == 1 || o.cls == -1) { e_float u = t + x; check(R, "inf+x", u, cls(o.cls)); u = t / x; check(R, "inf/x", u, cls(o.cls * V[i].sign() * (s ? -1 : 1))); }
    }
    R.sample(S("%s against %zu values", V[i].brief().c_str(), V.size()));
  }
  // text beyond either end of the range
  const long far[] = {mx + 1, mx + 8, mx + 1000, 3000000000L, 9999999999L, 999999999999L};
  for (int m = 0; m < 6; ++m) if (R.unit(S("text.m%d", m))) for (size_t k = 0; k < sizeof far / sizeof *far; ++k) for (int s = 0; s < 4; ++s) {
    if (!R.begin(S("e%zu.%d", k, s))) continue;
    std::string t = std::string(s & 1 ? "-" : "") + ms[m] + "e" + std::to_string(s & 2 ? -far[k] : far[k]);
    e_float x(t); MV w = fin(ref::parse(t).d);
    check(R, ("reading " + t).c_str(), x, w);
  }
}

int main(int argc, char** argv) {
  std::string mode = "nonfinite";
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "limits")) mode = "limits";
  Run R(argc, argv);
  init_range();
  if (mode == "limits") limits(R); else nonfinite(R);
  return R.finish();
}
