// Multiplication (P02) and division / reciprocal (P03) against exact decimal arithmetic.
#include "pat.h"
static bool DIV = false;

static void observe_check(Run& R, const char* what, const e_float& r, const Dec& want, const Dec& slack) {
  R.step();
  Val o = observe(r);
  if (o.cls == 0) R.state(o.d.norm().str());
  if (!near(o, want, slack)) R.fail("%s: library %s, exact %s", what, o.brief().c_str(), want.brief().c_str());
}

static Dec slack_mul(const Dec& w) {
  Dec n = w; n.norm();
  if (DECIMAL ? n.digits() <= D10 : (n.e >= 0 && n.order() < D10)) return Dec(0);
  return rel(w);
}

static void one_mul(Run& R, const Dec& a, const Dec& b, const e_float& ea, const e_float& eb) {
  Dec w = ref::mul(a, b), s = slack_mul(w);
  if (!DECIMAL && (a.e < 0 || b.e < 0)) s = rel(w);
  e_float p = ea * eb;
  observe_check(R, "a*b", p, w, s);
  e_float t;
  t = eb; t *= ea; R.step(); if (t != p) observe_check(R, "b*=a", t, w, s);
  t = -ea; t *= eb; R.step(); if (t != -p) observe_check(R, "(-a)*b", t, -w, s);
  t = (-eb) * (-ea); R.step(); if (t != p) observe_check(R, "(-b)*(-a)", t, w, s);
}

static void one_div(Run& R, const Dec& a, const Dec& b, const e_float& ea, const e_float& eb) {
  Dec w = ref::div(a, b, D10 + 20), s = rel(w);
  e_float q = ea / eb;
  observe_check(R, "a/b", q, w, s);
  e_float t;
  t = ea; t /= eb; R.step(); if (t != q) observe_check(R, "a/=b", t, w, s);
  t = (-ea) / eb; R.step(); if (t != -q) observe_check(R, "(-a)/b", t, -w, s);
  t = (-ea); t /= (-eb); R.step(); if (t != q) observe_check(R, "(-a)/(-b)", t, w, s);
  // the quotient times the divisor gives the dividend back
  t = q * eb; observe_check(R, "(a/b)*b", t, a, ref::add(rel(a), rel(a)));
}

static void recip(Run& R, const Dec& a, const e_float& ea) {
  Dec w = ref::div(Dec(1), a, D10 + 20), s = rel(w);
  e_float t(ea); t.calculate_inv(); observe_check(R, "calculate_inv", t, w, s);
  t = ef::one() / ea; observe_check(R, "1/a", t, w, s);
  t = 1 / ea; observe_check(R, "int 1/a", t, w, s);
  t = ea / ea; observe_check(R, "a/a", t, Dec(1), Dec(0));
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "div")) DIV = true;
  Run R(argc, argv);
  auto one = DIV ? one_div : one_mul;
  const bool big = D10 > 2000;
  // 1. digit patterns x all limb phases of both operands
  auto P = digit_patterns(true);
  std::vector<long> ph;
  if (big) ph = R.thorough ? std::vector<long>{0, 1, 3, 7} : std::vector<long>{0, 3};
  else if (R.thorough) ph = {0, 1, 2, 3, 4, 5, 6, 7, -1, -400, 1000001};
  else if (DIV) ph = {0, 1, 4, 7, -13};
  else ph = {0, 1, 2, 4, 7, -3, 1000001};
  for (size_t ia = 0; ia < P.size(); ++ia) for (long pa : ph) {
    if (!R.unit(S("pat.a%zu.p%ld", ia, pa))) continue;
    Dec a(Z(P[ia]), pa); e_float ea = make(a);
    if (DIV && R.begin("recip")) recip(R, a, ea);
    for (size_t ib = 0; ib < P.size(); ++ib) for (long pb : ph) {
      if (!R.begin(S("b%zu.p%ld", ib, pb))) continue;
      Dec b(Z(P[ib]), pb); e_float eb = make(b);
      one(R, a, b, ea, eb);
    }
    R.sample(S("a=%s against %zu operands", a.brief().c_str(), P.size() * ph.size()));
  }
  // 2. every pair of limb vectors
  if (!big) {
    auto V = limb_vectors(R.thorough ? 4 : 3);
    std::string tail = repn("9999999900000001", D10 - 33);
    for (size_t ia = 0; ia < V.size(); ++ia) {
      if (!R.unit(S("limb.a%zu", ia))) continue;
      for (int tl = 0; tl < 2; ++tl) {
        Dec a(Z(tl ? V[ia] + tail : V[ia]), 0); e_float ea = make(a);
        for (size_t ib = 0; ib < V.size(); ++ib) {
          if (DIV && !R.thorough && (ib & 1)) continue;
          if (!R.begin(S("t%d.b%zu", tl, ib))) continue;
          Dec b(Z(V[ib]), 0); one(R, a, b, ea, make(b));
        }
      }
    }
  }
  // 3. operand lengths: 99..9 (i digits) times/over 99..9 or 7..7 (j digits), all i, j up to the precision
  {
    const long step = big ? (R.thorough ? 211 : 797) : R.thorough ? 1 : 3;
    for (long i = 1; i <= D10; i += step) {
      if (!R.unit(S("len.i%ld", i))) continue;
      Dec a(Z(std::string(i, '9')), 0); e_float ea = make(a);
      for (long j = 1; j <= D10; j += step) {
        if (!R.begin(S("j%ld", j))) continue;
        Dec b(Z(std::string(j, (i + j) % 2 ? '7' : '9')), 0);
        one(R, a, b, ea, make(b));
      }
    }
  }
  // 4. chains: repeated operation by the same operand, error carried by the model
  for (size_t ia = 0; ia < P.size(); ++ia) {
    if (!R.unit(S("chain.a%zu", ia))) continue;
    for (size_t ib = 0; ib < P.size(); ++ib) {
      if (!R.begin(S("b%zu", ib))) continue;
      Dec a(Z(P[ia]), -(long)P[ia].size()), b(Z(P[ib]), 1 - (long)P[ib].size());
      e_float t = make(a), eb = make(b); Dec w = a;
      const int n = big ? 3 : R.thorough ? 40 : 12;
      for (int k = 1; k <= n; ++k) {
        if (DIV) { t /= eb; w = ref::div(w, b, D10 + 40); } else { t *= eb; w = ref::trunc_sig(ref::mul(w, b), D10 + 40); }
        Dec s = rel(w); s.m = s.m * Z((long)(2 * k + 2));
        observe_check(R, DIV ? "a/b/b.." : "a*b*b..", t, w, s);
      }
    }
  }
  // 5. nearly equal operands / factors near a power of ten: differences at every digit position
  for (size_t ia = 0; ia < P.size(); ++ia) {
    if (!R.unit(S("near.a%zu", ia))) continue;
    Dec a(Z(P[ia] + std::string(D10 - P[ia].size() < 0 ? 0 : std::max(0L, D10 - (long)P[ia].size()), '0')), 0); e_float ea = make(a);
    for (long k = 0; k < D10 - 1; k += big ? 641 : 1) for (int sg = 0; sg < 2; ++sg) {
      if (!R.begin(S("k%ld.%d", k, sg))) continue;
      Dec dl = ref::pow10(k); if (sg) dl = -dl;
      Dec b = ref::add(a, dl);
      if (b.zero() || b.norm().digits() > D10) continue;
      one(R, a, b, ea, make(b));
    }
  }
  // 6. squaring in place (aliased operands)
  if (!DIV) for (size_t ia = 0; ia < P.size(); ++ia) {
    if (!R.unit(S("sq.a%zu", ia))) continue;
    for (long pa : ph) {
      if (!R.begin(S("p%ld", pa))) continue;
      Dec a(Z(P[ia]), pa); e_float x = make(a); Dec w = ref::mul(a, a), s = slack_mul(w);
      if (!DECIMAL && a.e < 0) s = rel(w);
      e_float y = x; y *= y; observe_check(R, "x*=x", y, w, s); y = -x; y *= y; observe_check(R, "(-x)*=(-x)", y, w, s);
      observe_check(R, "x*x", x * x, w, s);
    }
  }
  return R.finish();
}
