// P13: integer and fractional parts, floor, ceil, remainder, binary scaling.
#include "mc.h"
#include "func.h"
using std::vector; using std::string;

// toward zero
static Dec trunc_dec(const Dec& d) { if (d.e >= 0) return d; return Dec(Z(d.m / ref::p10(-d.e))); }
static void exact_or(Run& R, const char* w, const e_float& got, const Dec& want, const Dec& slack) {
  Val o = observe(got); R.step();
  if (!near(o, want, slack)) R.fail("%s: library %s, exact %s", w, o.brief().c_str(), want.brief().c_str());
}
static void parts(Run& R) {
  vector<string> fr = {"", "1", "5", "9", "25", "00000001", "99999999", "000000001", "000000000000000000000000000001", "99999999999999999999999999999", "123456789"};
  for (long I = 0; I <= D10; ++I) {
    if (!R.thorough && D10 > 101 && I % 8 > 1) continue;
    vector<string> ip = {string(std::max(I, 1L), '9')};
    if (I == 0) ip = {"0"}; else { ip.push_back("1" + string(I - 1, '0')); ip.push_back("7" + string(I - 1, '3')); ip.push_back(repn("12345678901", I)); if (I > 1) ip.push_back("1" + string(I - 2, '0') + "1"); }
    for (size_t j = 0; j < ip.size(); ++j) {
      if (!R.unit(S("int%ld.%zu", I, j))) continue;
      vector<string> fs = fr;
      for (long k = 1; k <= D10 - I; ++k) if (R.thorough || k < 10 || k > D10 - I - 6 || k % 8 == 0 || k % 8 == 7) { fs.push_back(string(k - 1, '0') + "1"); fs.push_back(string(k, '9')); fs.push_back("4" + string(k - 1, '9')); }
      if (I == 0) for (long k : {200L, 1000L, 100000L}) fs.push_back(string(k - 1, '0') + "1");
      for (size_t f = 0; f < fs.size(); ++f) for (int sg = 0; sg < 2; ++sg) {
        Dec d(Z(ip[j] + fs[f]), -(long)fs[f].size()); if (Dec(d).norm().digits() > D10) continue; if (sg && d.zero()) continue; if (sg) d = -d;
        if (!R.begin(S("f%zu.%d", f, sg))) continue;
        e_float x = make(d); Dec t = trunc_dec(d), fp = ref::sub(d, t), zero(0);
        Dec fl = t, ce = t; if (!fp.zero()) { if (sg) fl = ref::sub(t, Dec(1)); else ce = ref::add(t, Dec(1)); }
        Dec sl = DECIMAL ? zero : rel(d);
        exact_or(R, "integer_part", ef::integer_part(x), t, zero); exact_or(R, "extract_integer_part", x.extract_integer_part(), t, zero);
        exact_or(R, "floor", ef::floor(x), fl, zero); exact_or(R, "ceil", ef::ceil(x), ce, zero);
        exact_or(R, "decimal_part", ef::decimal_part(x), fp, sl); exact_or(R, "extract_decimal_part", x.extract_decimal_part(), fp, sl);
        exact_or(R, "-floor(-x)", -ef::floor(-x), ce, zero); exact_or(R, "-ceil(-x)", -ef::ceil(-x), fl, zero);
        e_float sum = ef::integer_part(x) + ef::decimal_part(x); if (DECIMAL ? sum != x : !near(observe(sum), d, rel(d))) R.fail("parts do not add up to %s", d.brief().c_str());
        R.state(d.norm().str());
      }
    }
  }
  for (auto& s : specials()) if (R.unit("special." + s.t)) { R.begin("x"); e_float x = arg(s); for (auto y : {ef::floor(x), ef::ceil(x), ef::integer_part(x)}) { R.step(); Val o = observe(y); if (o.cls != s.v.cls) R.fail("floor/ceil/integer_part of %s is %s", s.t.c_str(), o.brief().c_str()); } }
}
static void remainder_all(Run& R) {
  vector<Dec> bs; for (const char* s : {"1", "2", "3", "7", "8", "10", "99", "100000000", "99999999", "123456789", "0.1", "0.25", "0.3", "0.007", "12.5", "1.0000000000000001", "3333333333333333", "1e20", "1e-20", "314159.2653589793", "0.99999999999999999999"}) bs.push_back(ref::parse(s).d);
  vector<Dec> rs; for (const char* s : {"0", "0.5", "0.125", "0.99", "0.001"}) rs.push_back(ref::parse(s).d);
  vector<Dec> qs; for (long q : {0L, 1L, 2L, 3L, 5L, 9L, 10L, 99L, 100L, 12345L, 99999999L, 100000000L, 100000001L}) qs.push_back(Dec(q));
  for (const char* s : {"999999999999999999999999", "1000000000000000000000000", "33333333333333333333333333333333"}) qs.push_back(ref::parse(s).d);
  for (long k = 5; k < D10 - 25; k += 9) { qs.push_back(Dec(Z(1L), k)); qs.push_back(ref::sub(Dec(Z(1L), k), Dec(1))); qs.push_back(ref::add(Dec(Z(7L), k), Dec(3))); }
  for (size_t b = 0; b < bs.size(); ++b) for (size_t q = 0; q < qs.size(); ++q) {
    if (!R.unit(S("mod.b%zu.q%zu", b, q))) continue;
    for (size_t r = 0; r < rs.size(); ++r) for (int sg = 0; sg < 4; ++sg) for (int dl = -1; dl <= 1; ++dl) {
      Dec rr = ref::mul(rs[r], bs[b]), a = ref::add(ref::mul(qs[q], bs[b]), rr);
      if (dl) a = ref::add(a, Dec(Z((long)dl), bs[b].e - 3));          // just off a multiple
      if (a.sign() <= 0) continue;
      long lo = std::min(a.e, bs[b].e), span = std::max(a.order(), bs[b].order()) - lo + 1; if (span > D10 - 2) continue;
      // exact remainder
      Z ai = a.m * ref::p10(a.e - lo), bi = bs[b].m * ref::p10(bs[b].e - lo); Dec want(Z(ai % bi), lo);
      Dec A = a, B = bs[b]; if (sg & 1) { A = -A; want = -want; } if (sg & 2) B = -B;
      if (!R.begin(S("r%zu.%d.%d", r, sg, dl))) continue;
      e_float y = ef::fmod(make(A), make(B)); R.step(); Val o = observe(y);
      bool ex = DECIMAL || (a.e >= 0 && bs[b].e >= 0);
      if (ex) { if (!near(o, want, Dec(0))) R.fail("fmod(%s, %s): library %s, exact %s", A.brief().c_str(), B.brief().c_str(), o.brief().c_str(), want.brief().c_str()); }
      else { // operands are rounded: the remainder of operands that differ in the last guaranteed digit
        Dec sl = ref::add(rel(a), rel(bs[b])), babs = bs[b]; Dec w2 = ref::add(want, A.sign() < 0 ? babs : -babs), w3 = ref::sub(want, A.sign() < 0 ? babs : -babs);
        bool edge2 = !(ref::cmp(ref::absd(w2), sl) > 0), edge3 = !(ref::cmp(ref::absd(want), sl) > 0);
        if (!(near(o, want, sl) || (edge2 && near(o, Dec(0), sl)) || (edge3 && near(o, w3, sl)))) R.fail("fmod(%s, %s): library %s, exact %s", A.brief().c_str(), B.brief().c_str(), o.brief().c_str(), want.brief().c_str());
        if (o.cls == 0 && (ref::cmp(ref::absd(o.d), ref::add(babs, sl)) > 0 || (o.d.sign() && o.d.sign() != A.sign() && ref::cmp(ref::absd(o.d), sl) > 0))) R.fail("fmod(%s, %s) is %s, outside the divisor's range or with the wrong sign", A.brief().c_str(), B.brief().c_str(), o.brief().c_str());
      }
      R.state(S("%s %s", A.str().c_str(), B.str().c_str()));
    }
  }
  if (R.unit("mod.special")) for (auto& c : vector<std::array<string, 3>>{{"1", "0", "nan"}, {"inf", "2", "nan"}, {"-inf", "2", "nan"}, {"nan", "2", "nan"}, {"2", "nan", "nan"}, {"2.5", "inf", "2.5"}, {"-2.5", "inf", "-2.5"}, {"2.5", "-inf", "2.5"}, {"0", "3", "0"}, {"0", "-3", "0"}, {"inf", "inf", "nan"}}) {
    if (!R.begin(c[0] + "," + c[1])) continue; R.step(); Val w = ref::parse(c[2]), o = observe(ef::fmod(arg(pt(c[0])), arg(pt(c[1])))); if (o.cls != w.cls || (w.cls == 0 && !(o.d == w.d))) R.fail("fmod(%s, %s) is %s", c[0].c_str(), c[1].c_str(), o.brief().c_str());
  }
}
static void binary(Run& R) {
  vector<Pt> v; spread(v, -1000, 1000, 2, true); for (auto s : {"1e100003", "-7e-100003", "3e1000000", "1e100000000", "-1e-100000000", "0"}) v.push_back(pt(string(s)));
  for (long n = -70; n <= 70; ++n) { v.push_back(pt(n >= 0 ? Dec(Z::pow(2, n)) : Dec(Z::pow(5, -n), n))); if (n >= 0) v.push_back(pt(ref::sub(Dec(Z::pow(2, n)), Dec(1)))); }
  for (size_t c = 0; c * 24 < v.size(); ++c) {
    if (!R.unit(S("bin%zu", c))) continue;
    for (size_t i = c * 24; i < std::min(v.size(), (c + 1) * 24); ++i) {
      const Dec& d = v[i].v.d; if (Dec(d).norm().digits() > D10) continue;
      e_float x = arg(v[i]);
      if (R.begin(S("frexp%zu", i))) {
        int e = 12345; e_float m = ef::frexp(x, &e); R.step(); Val o = observe(m); precision_for(2 * D10 + 60);
        if (d.zero()) { if (o.cls || !o.d.zero() || e != 0) R.fail("frexp(0) is %s, %d", o.brief().c_str(), e); }
        else {
          MP a = o.cls ? MP(0L) : ref::abs(MP(o.d)), tol = ten_to(-D10);
          if (o.cls || o.d.sign() != d.sign() || a < MP(1L) / MP(2L) - tol || !(a < MP(1L) + tol)) R.fail("frexp(%s): mantissa %s is not in [1/2, 1)", d.brief().c_str(), o.brief().c_str());
          else if (ref::abs(a * ref::powi(MP(2L), e) / ref::abs(MP(d)) - MP(1L)) > tol) R.fail("frexp(%s): %s * 2^%d is not the value", d.brief().c_str(), o.brief().c_str(), e);
        }
        R.state(S("frexp %zu", i));
      }
      for (int n : {0, 1, -1, 2, 3, 7, -8, 26, 27, 31, -31, 32, 63, 64, 65, -65, 100, 333, -333, 1024, -1074, 10000, -10000, 1000003}) {
        if (!R.begin(S("ldexp%zu.%d", i, n))) continue;
        e_float y = ef::ldexp(x, n); precision_for(2 * D10 + 60);
        value(R, S("ldexp(%s, %d)", d.brief().c_str(), n).c_str(), y, {MP(d)}, [&](const vector<MP>& a) { return a[0] * ref::powi(MP(2L), n); });
      }
    }
  }
}
int main(int argc, char** argv) { Run R(argc, argv); parts(R); remainder_all(R); binary(R); return R.finish(); }
