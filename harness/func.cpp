// P13 - P17: elementary functions of one and two real arguments against MPFR at more than twice the precision.
#include "mc.h"
#include "func.h"
using std::vector; using std::string;
static string mode = "root";

struct F1 { string name; std::function<e_float(const e_float&)> lib; std::function<MP(const MP&)> refn; vector<Pt> pts; };
static const size_t CH = 24;
static long need(const Pt& p) { return p.v.cls == 0 ? std::max(0L, std::min(p.v.d.order(), 4 * D10)) : 0; }
static void run1(Run& R, F1& f, long extra = 0) {
  for (auto& s : specials()) f.pts.push_back(s);
  for (size_t c = 0; c * CH < f.pts.size(); ++c) {
    if (!R.unit(S("%s.%zu", f.name.c_str(), c))) continue;
    for (size_t i = c * CH; i < std::min(f.pts.size(), (c + 1) * CH); ++i) {
      if (!R.begin(S("p%zu", i))) continue;
      const Pt& p = f.pts[i];
      precision_for(2 * D10 + 80 + extra + need(p));
      e_float x = arg(p), keep(x);
      e_float y = f.lib(x);
      value(R, S("%s(%s)", f.name.c_str(), p.v.brief().c_str()).c_str(), y, {mpv(p.v)}, [&](const vector<MP>& a) { return f.refn(a[0]); });
      if (p.v.cls == 0 && !(x == keep)) R.fail("%s changes its argument", f.name.c_str());
      R.state(S("%s %zu", f.name.c_str(), i));
      if (i == 0) R.sample(S("%s(%s) = %s", f.name.c_str(), p.t.substr(0, 40).c_str(), text(y).substr(0, 40).c_str()));
    }
  }
}
struct F2 { string name; std::function<e_float(const e_float&, const e_float&)> lib; std::function<MP(const MP&, const MP&)> refn; vector<std::pair<Pt, Pt>> pts; };
static void run2(Run& R, F2& f, long extra = 0) {
  for (size_t c = 0; c * CH < f.pts.size(); ++c) {
    if (!R.unit(S("%s.%zu", f.name.c_str(), c))) continue;
    for (size_t i = c * CH; i < std::min(f.pts.size(), (c + 1) * CH); ++i) {
      if (!R.begin(S("p%zu", i))) continue;
      const Pt &p = f.pts[i].first, &q = f.pts[i].second;
      precision_for(2 * D10 + 80 + extra + std::max(need(p), need(q)));
      e_float y = f.lib(arg(p), arg(q));
      value(R, S("%s(%s, %s)", f.name.c_str(), p.v.brief().c_str(), q.v.brief().c_str()).c_str(), y, {mpv(p.v), mpv(q.v)}, [&](const vector<MP>& a) { return f.refn(a[0], a[1]); });
      R.state(S("%s %zu", f.name.c_str(), i));
    }
  }
}
// functions with an integer parameter
static void runi(Run& R, const string& name, const std::function<e_float(const e_float&, long)>& lib, const std::function<MP(const MP&, long)>& refn, const vector<Pt>& pts, const vector<long>& ns) {
  for (size_t j = 0; j < ns.size(); ++j) for (size_t c = 0; c * CH < pts.size(); ++c) {
    if (!R.unit(S("%s%ld.%zu", name.c_str(), ns[j], c))) continue;
    for (size_t i = c * CH; i < std::min(pts.size(), (c + 1) * CH); ++i) {
      if (!R.begin(S("p%zu", i))) continue;
      precision_for(2 * D10 + 80);
      e_float y = lib(arg(pts[i]), ns[j]);
      value(R, S("%s(%s, %ld)", name.c_str(), pts[i].v.brief().c_str(), ns[j]).c_str(), y, {mpv(pts[i].v)}, [&](const vector<MP>& a) { return refn(a[0], ns[j]); });
      R.state(S("%s %zu %ld", name.c_str(), i, ns[j]));
    }
  }
}
#define UN(n) F1 f_##n{#n, [](const e_float& x) { return ef::n(x); }, [](const MP& x) { return ref::n(x); }, {}}
static const MP one() { return MP(1L); }

// arguments towards the ends of the range
static void far(vector<Pt>& v, int sg, bool small = true) {
  for (long o : {160000003L, 161600000L, 300000007L, 323000000L, 323190000L, 500000001L, 640000003L, 646380000L, 1073000000L, 1073741900L, 1500000001L, 2147400004L, 2147482600L}) if (o <= RANGE) for (auto m : {"1", "-725", "3.25"}) {
    Dec d = ref::parse(m).d; if (sg != 2 && d.sign() < 0) d = -d;
    Dec e = d; e.e += o - 3; v.push_back(pt(e)); if (small) { e = d; e.e -= o - 3; v.push_back(pt(e)); }
  }
}
static void roots(Run& R) {
  const bool T = R.thorough || D10 <= 101;
  UN(sqrt); spread(f_sqrt.pts, -120000000, 120000000, 1, true); around(f_sqrt.pts, Dec(1), T); around(f_sqrt.pts, Dec(Z(4L)), false);
  for (long n = 0; n <= (T ? 2000 : 300); ++n) f_sqrt.pts.push_back(pt(Dec(n * n)));
  far(f_sqrt.pts, 1); f_sqrt.pts.push_back(pt("-1")); f_sqrt.pts.push_back(pt("-1e-90")); f_sqrt.pts.push_back(pt("-4e80"));
  for (auto& p : {"99", "9801", "998001"}) for (long k = 0; k < D10; k += 2) f_sqrt.pts.push_back(pt(Dec(Z(p), k)));
  run1(R, f_sqrt);
  UN(cbrt); far(f_cbrt.pts, 1); spread(f_cbrt.pts, -120000000, 120000000, 1, true); around(f_cbrt.pts, Dec(1), T);
  for (long n = 1; n <= 100; ++n) f_cbrt.pts.push_back(pt(Dec(n * n * n)));
  { // negative infinity and NaN are covered by the shared list; the cube root of a negative number is not specified
    for (size_t c = 0; c * CH < f_cbrt.pts.size(); ++c) {
      if (!R.unit(S("cbrt.%zu", c))) continue;
      for (size_t i = c * CH; i < std::min(f_cbrt.pts.size(), (c + 1) * CH); ++i) { if (!R.begin(S("p%zu", i))) continue; auto& p = f_cbrt.pts[i]; precision_for(2 * D10 + 80);
        value(R, S("cbrt(%s)", p.v.brief().c_str()).c_str(), ef::cbrt(arg(p)), {mpv(p.v)}, [](const vector<MP>& a) { return ref::cbrt(a[0]); }); R.state(S("cbrt %zu", i)); }
    }
  }
  vector<Pt> P; spread(P, -300, 300, 1, false); { vector<Pt> Q; for (size_t i = 0; i < P.size(); ++i) if (T || i % 3 == 0) Q.push_back(P[i]); P = Q; }
  for (const char* s : {"1", "32", "243", "1024", "1e30", "1e-60", "0.00001", "1e1000", "7e-1001", "1e100003", "3e-100003"}) P.push_back(pt(string(s)));
  auto rf = [](const MP& x, long p) { return p > 0 ? ref::rootn(x, p) : one() / ref::rootn(x, -p); };
  vector<long> ns = {1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 100, 1000, -1, -2, -3, -5, -10}; if (T) for (long n : {6, 9, 11, 12, 13, 64, 99, 101, 255, 256, 1001, -4, -7, -64, -1000}) ns.push_back(n);
  far(P, 1);
  vector<Pt> Z0 = P; Z0.push_back(pt("0"));
  runi(R, "rootn", [](const e_float& x, long p) { return ef::rootn(x, (std::int32_t)p); }, rf, Z0, ns);
  runi(R, "rootn_inverse", [](const e_float& x, long p) { return ef::rootn_inverse(x, (std::int32_t)p); }, [&](const MP& x, long p) { return rf(x, -p); }, P, ns);
  for (const char* s : {"inf", "nan", "-1", "-8e30"}) if (R.unit(S("odd.%s", s))) for (long p : {2L, 4L, 10L, -2L}) { if (!R.begin(S("%ld", p))) continue; Pt q = pt(string(s));
      value(R, S("rootn(%s, %ld)", s, p).c_str(), ef::rootn(arg(q), (int)p), {mpv(q.v)}, [&](const vector<MP>& a) { return rf(a[0], p); }); }
}

static void explog(Run& R) {
  const bool T = R.thorough || D10 <= 101;
  UN(exp); spread(f_exp.pts, -3000, 8, 2, T); for (long n = -60; n <= 60; ++n) f_exp.pts.push_back(pt(Dec(n)));
  for (long n : {100L, -100L, 709L, 710L, -745L, -746L, 1000L, 2302L, 2303L, 23025L, 100000L, -100000L, 10000000L, 99999999L, -99999999L, 100000001L}) { f_exp.pts.push_back(pt(Dec(n))); f_exp.pts.push_back(pt(Dec(Z(n * 10 + 3), -1))); }
  for (const char* s : {"1e10", "-1e10", "1e18", "-1e18", "1e19", "3e50", "-3e50", "1.5e11", "-1e100000", "1e100000"}) f_exp.pts.push_back(pt(string(s)));
  for (const char* s : {"1073741824.5", "1400000000.5", "1488000000.25", "1480000000", "2147483616", "2147483616.5", "2147483647", "2147483648.5", "3000000000", "3000000000.5", "4294967296.5", "4900000000", "4944000000.5", "4944760000.25", "744000000", "744000000.5", "744190000.5"}) { f_exp.pts.push_back(pt(string(s))); f_exp.pts.push_back(pt(string("-") + s)); }
  precision_for(3 * D10); Dec l2 = ref::ln2().dec(D10);
  for (long n : {1, 2, 3, 10, 100}) around(f_exp.pts, ref::mul(l2, Dec(n)), false, D10);
  run1(R, f_exp, 20);
  UN(log); spread(f_log.pts, -120000000, 120000000, 1, T); around(f_log.pts, Dec(1), true); around(f_log.pts, Dec(10), false); around(f_log.pts, Dec(2), false);
  for (long n = 2; n < 60; ++n) f_log.pts.push_back(pt(Dec(n)));
  { Dec e1 = ref::exp(one()).dec(D10); f_log.pts.push_back(pt(e1)); }
  f_log.pts.push_back(pt("-1")); f_log.pts.push_back(pt("-1e-50"));
  far(f_log.pts, 1);
  for (const char* s : {"3e323000000", "7e-323000000", "1.5e640000000", "1.5e-640000000", "9e2147400000", "9e-2147400000", "2e1000000000", "2e-1000000000"}) if (labs(atol(strchr(s, 'e') + 1)) <= RANGE) f_log.pts.push_back(pt(string(s)));
  run1(R, f_log);
  UN(log10); spread(f_log10.pts, -100003, 100003, 1, false); around(f_log10.pts, Dec(1), false); around(f_log10.pts, Dec(Z(1L), 5), false); f_log10.pts.push_back(pt("-3"));
  run1(R, f_log10);
  UN(log1p); spread(f_log1p.pts, -1000, -1, 2, false); around(f_log1p.pts, Dec(Z(5L), -1), false, 20); around(f_log1p.pts, Dec(Z(-5L), -1), false, 20); spread(f_log1p.pts, 0, 60, 1, false);
  { vector<Pt> t; around(t, Dec(-1), false); for (auto& p : t) if (p.v.d.sign() < 0) f_log1p.pts.push_back(p); f_log1p.pts.push_back(pt("-2")); f_log1p.pts.push_back(pt("-1e30")); }
  run1(R, f_log1p);
  // powers
  F2 f_pow{"pow", [](const e_float& x, const e_float& a) { return ef::pow(x, a); }, [](const MP& x, const MP& a) { return ref::pow(x, a); }, {}};
  const char* bases[] = {"2", "0.5", "10", "0.1", "0.9", "0.899", "0.10001", "1.5", "7", "1e30", "1e-30", "3e200", "7e-1001", "1.0000000001", "0.9999999999", "123456.789", "1"};
  const char* exps[] = {"0.5", "-0.5", "1", "-1", "2", "-2", "3", "0.25", "1e-12", "-1e-12", "1e-40", "-1e-40", "0.1", "-0.1", "0.999", "-0.999", "1.5", "-1.5", "2.5", "-2.5", "10", "-10", "17.25", "-17.25", "100", "100.5", "-100.5", "1000", "3.3333333333333333333333333", "0", "1234.5", "-999.875"};
  for (auto b : bases) for (auto a : exps) f_pow.pts.push_back({pt(string(b)), pt(string(a))});
  for (long k = 1; k < D10; k += (T ? 1 : 4)) for (int s = 0; s < 4; ++s) { f_pow.pts.push_back({pt(ref::add(Dec(s & 1 ? 2 : 1), Dec(Z(s & 2 ? 1L : -1L), -k))), pt("2.5")}); f_pow.pts.push_back({pt("3"), pt(ref::add(Dec(s & 1 ? 3 : 1), Dec(Z(s & 2 ? 1L : -1L), -k)))}); f_pow.pts.push_back({pt("0.4"), pt(ref::add(Dec(s & 1 ? -3 : 0), Dec(Z(s & 2 ? 1L : -1L), -k)))}); }
  for (auto b : {"-2", "-0.5", "-10", "-1.5", "-1", "-7e30"}) for (auto a : {"2", "3", "-2", "-3", "10", "17", "-17", "100", "0.5", "-1.5", "2.25"}) f_pow.pts.push_back({pt(string(b)), pt(string(a))});
  for (auto b : {"0", "inf", "nan", "2", "0.5", "-2"}) for (auto a : {"0.5", "2", "3", "-0.5", "-2", "inf", "-inf", "nan"}) {
    string sb = b, sa = a;
    if (sb == "0" && sa[0] == '-') continue; // sign of zero is unspecified
    f_pow.pts.push_back({pt(sb), pt(sa)});
  }
  for (auto b : {"10", "3", "1e1000", "1e-1000", "1234567.5", "0.1"}) for (auto a : {"300000000.5", "-300000000.5", "320000", "-320000.25", "643000.5", "2147000.25", "-2147000", "2100000000.5", "-2100000000.5", "4000000000.125", "-4000000000.125"}) f_pow.pts.push_back({pt(string(b)), pt(string(a))});
  run2(R, f_pow, 40);
  vector<Pt> B; for (auto b : bases) B.push_back(pt(string(b))); for (auto b : {"-2", "-0.3", "-1", "-1e20", "1.1", "3.00000000000000000000000000000000000000000001", "0"}) B.push_back(pt(string(b)));
  vector<long> ns; for (long n = 0; n <= 40; ++n) { ns.push_back(n); if (n) ns.push_back(-n); } for (long n : {63L, 64L, 65L, 100L, 127L, 128L, 255L, 1000L, 1023L, 1024L, 4097L, 65535L, 65536L}) { ns.push_back(n); ns.push_back(-n); }
  { vector<Pt> Bn; for (auto& b : B) if (!b.v.d.zero()) Bn.push_back(b);
    runi(R, "pown", [](const e_float& x, long n) { return ef::pow(x, (std::int64_t)n); }, [](const MP& x, long n) { return ref::powi(x, n); }, Bn, ns); }
  vector<long> n0; for (long n : ns) if (n > 0) n0.push_back(n);
  vector<Pt> Zs = {pt("0"), pt("inf"), pt("nan"), pt("-inf")};
  runi(R, "pown_special", [](const e_float& x, long n) { return ef::pow(x, (std::int64_t)n); }, [](const MP& x, long n) { return ref::powi(x, n); }, Zs, n0);
  // 2^n and scaling by powers of two
  for (long c = -40; c <= 40; ++c) if (R.unit(S("pow2.%ld", c))) for (long n = c * 100; n < c * 100 + 100; ++n) { if (!R.begin(S("%ld", n))) continue; precision_for(2 * D10 + 80); value(R, S("pow2(%ld)", n).c_str(), ef::pow2(n), {}, [&](const vector<MP>&) { return ref::powi(MP(2L), n); }); R.state(S("pow2 %ld", n)); }
  if (R.unit("pow2.far")) for (long n : {65536L, -65536L, 100003L, -100003L, 1000000L, -1000000L, 600000000L, -600000000L, 1073741000L, -1073741000L, 2147000000L, -2147000000L, 4294967297L, -4294967297L, 7133700000L, -7133700000L}) { if (!R.begin(S("%ld", n))) continue; precision_for(2 * D10 + 80); value(R, S("pow2(%ld)", n).c_str(), ef::pow2(n), {}, [&](const vector<MP>&) { return ref::powi(MP(2L), n); }); }
  F2 f_la{"loga", [](const e_float& a, const e_float& x) { return ef::loga(a, x); }, [](const MP& a, const MP& x) { return ref::log(x) / ref::log(a); }, {}};
  for (auto a : {"2", "10", "0.5", "1.001", "1e50"}) for (auto x : {"2", "8", "1000", "0.25", "3e-40", "1.0000001", "7e500", "1"}) f_la.pts.push_back({pt(string(a)), pt(string(x))});
  run2(R, f_la);
}

static Dec PI() { precision_for(6 * D10 + 100); return ref::pi().dec(6 * D10); }
static void trig(Run& R) {
  const bool T = R.thorough || D10 <= 101;
  vector<Pt> A; spread(A, -1000, D10 - 1, 2, T);
  Dec pi = PI();
  for (long n : {1L, 2L, 3L, 4L, 5L, 7L, 8L, 101L, 1000L, 1000001L}) { vector<Pt> t; around(t, clip(ref::mul(pi, Dec(Z(n * 5), -1))), n < 5 && T, D10); for (auto& p : t) { A.push_back(p); if (n < 4) A.push_back(pt(-p.v.d)); } }
  for (long n = 1; n <= 16; ++n) { Dec q = clip(ref::div(ref::mul(pi, Dec(n)), Dec(12), 3 * D10)); A.push_back(pt(q)); A.push_back(pt(-q)); }
  for (long n = 1; n <= 30; ++n) { A.push_back(pt(Dec(n))); A.push_back(pt(Dec(-n))); }
  { vector<Pt> B; for (auto& p : A) if (Dec(p.v.d).norm().digits() <= D10) B.push_back(p); A = B; }
#define TR(n) { UN(n); f_##n.pts = A; run1(R, f_##n, D10); }
  TR(sin) TR(cos)
  vector<Pt> A3; for (size_t i = 0; i < A.size(); ++i) if (T || i % 5 == 0) A3.push_back(A[i]);
  A = A3;
  TR(tan)
  // reciprocals: poles at zero have no sign
  vector<F1> rec = {{"csc", [](const e_float& x) { return ef::csc(x); }, [](const MP& x) { return ref::csc(x); }, {}}, {"cot", [](const e_float& x) { return ef::cot(x); }, [](const MP& x) { return ref::cot(x); }, {}}};
  for (auto& f : rec) { f.pts = A;
    for (size_t c = 0; c * CH < f.pts.size(); ++c) if (R.unit(S("%s.%zu", f.name.c_str(), c))) for (size_t i = c * CH; i < std::min(f.pts.size(), (c + 1) * CH); ++i) { if (!R.begin(S("p%zu", i))) continue; auto& p = f.pts[i]; precision_for(3 * D10 + 80 + need(p)); value(R, S("%s(%s)", f.name.c_str(), p.v.brief().c_str()).c_str(), f.lib(arg(p)), {mpv(p.v)}, [&](const vector<MP>& a) { return f.refn(a[0]); }); R.state(S("%s %zu", f.name.c_str(), i)); }
  }
  TR(sec)
  // the pair function, with either pointer absent
  for (size_t c = 0; c * CH < A.size(); ++c) if (R.unit(S("sincos.%zu", c))) for (size_t i = c * CH; i < std::min(A.size(), (c + 1) * CH); ++i) {
    if (!R.begin(S("p%zu", i))) continue; e_float x = arg(A[i]), s1(77), c1(77), s2(77), c2(77); ef::sincos(x, &s1, &c1); ef::sincos(x, &s2, nullptr); ef::sincos(x, nullptr, &c2); ef::sincos(x, nullptr, nullptr); R.step(3);
    precision_for(3 * D10 + 80 + need(A[i]));
    value(R, "sincos: sine", s1, {mpv(A[i].v)}, [](const vector<MP>& a) { return ref::sin(a[0]); }); value(R, "sincos: cosine", c1, {mpv(A[i].v)}, [](const vector<MP>& a) { return ref::cos(a[0]); });
    if (s1 != s2 || c1 != c2) R.fail("sincos differs when one result is not asked for");
  }
  vector<Pt> B; spread(B, -1000, -1, 2, T); for (auto c : {Dec(1), Dec(-1), Dec(Z(5L), -1), Dec(Z(-7L), -1)}) { vector<Pt> t; around(t, c, T); for (auto& p : t) B.push_back(p); }
  B.push_back(pt("2")); B.push_back(pt("-2")); B.push_back(pt("1e30")); B.push_back(pt("-1e30"));
  for (const char* s : {"0.70710678118654752440084436210484903928", "0.86602540378443864676372317075293618347", "0.1", "0.01", "0.999", "0.9999999999999", "0.25", "0.3333333333333333333333"}) { B.push_back(pt(string(s))); B.push_back(pt("-" + string(s))); }
  { UN(asin); f_asin.pts = B; run1(R, f_asin); }
  { UN(acos); f_acos.pts = B; run1(R, f_acos); }
  { UN(atan); far(f_atan.pts, 2); spread(f_atan.pts, -1000, 1000, 2, T); for (auto c : {Dec(1), Dec(-1), Dec(Z(5L), -1)}) around(f_atan.pts, c, false); for (long n = 2; n < 200; n += 7) { f_atan.pts.push_back(pt(Dec(n))); f_atan.pts.push_back(pt(Dec(-n))); } f_atan.pts.push_back(pt("1e100000")); f_atan.pts.push_back(pt("-1e100000")); f_atan.pts.push_back(pt("-1e-100000")); run1(R, f_atan); }
  F2 f2{"atan2", [](const e_float& y, const e_float& x) { return ef::atan2(y, x); }, [](const MP& y, const MP& x) { return ref::atan2(y, x); }, {}};
  vector<string> C = {"0", "1", "-1", "2.5", "-2.5", "1e-30", "-1e-30", "1e30", "-1e30", "0.001", "-0.001", "1e130", "-1e130", "3e-130", "-3e-130", "12345.678", "-12345.678", "0.999999999999999999999999999999", "99", "-99"};
  for (auto o : {"160000003", "323000000", "646380000", "1073741900", "2147482600"}) if (atol(o) <= RANGE) { C.push_back(string("3e") + o); C.push_back(string("-2e-") + o); }
  for (auto& y : C) for (auto& x : C) if (!(y == "0" && x == "0")) f2.pts.push_back({pt(y), pt(x)});
  for (auto& y : {"inf", "-inf", "nan", "1", "-1"}) for (auto& x : {"inf", "-inf", "nan", "1", "-1"}) f2.pts.push_back({pt(string(y)), pt(string(x))});
  run2(R, f2);
}

static void hyper(Run& R) {
  const bool T = R.thorough || D10 <= 101;
  vector<Pt> A; spread(A, -1000, 8, 2, T); for (auto c : {Dec(1), Dec(-1), Dec(3)}) around(A, c, false, 30);
  for (long n : {20L, 50L, 100L, 115L, 116L, 117L, 118L, 119L, 120L, 121L, 130L, 150L, 200L, 250L, 300L, 1000L, 10000L, 1000000L}) { A.push_back(pt(Dec(n))); A.push_back(pt(Dec(-n))); A.push_back(pt(Dec(Z(n * 100 + 37), -2))); }
  for (auto s : {"1e10", "-1e10", "1e19", "-1e19", "1e40", "-1e40", "744000000.5", "-744000000.5", "1488000000.25", "-1488000000.25", "2147483616.5", "-2147483617", "3000000000.5", "-3000000000", "4944000000.5", "-4944760000.25"}) A.push_back(pt(string(s)));
  far(A, 2);
#define HY(n, set) { UN(n); f_##n.pts = set; run1(R, f_##n, 20); }
  HY(sinh, A) HY(cosh, A) HY(tanh, A)
  vector<Pt> B; for (size_t i = 0; i < A.size(); ++i) if (T || i % 3 == 0) B.push_back(A[i]);
  for (size_t c = 0; c * CH < B.size(); ++c) if (R.unit(S("sinhcosh.%zu", c))) for (size_t i = c * CH; i < std::min(B.size(), (c + 1) * CH); ++i) {
    if (!R.begin(S("p%zu", i))) continue; e_float x = arg(B[i]), s1(77), c1(77), s2(77), c2(77); ef::sinhcosh(x, &s1, &c1); ef::sinhcosh(x, &s2, nullptr); ef::sinhcosh(x, nullptr, &c2); ef::sinhcosh(x, nullptr, nullptr); R.step(3);
    precision_for(3 * D10 + 80);
    value(R, "sinhcosh: sinh", s1, {mpv(B[i].v)}, [](const vector<MP>& a) { return ref::sinh(a[0]); }); value(R, "sinhcosh: cosh", c1, {mpv(B[i].v)}, [](const vector<MP>& a) { return ref::cosh(a[0]); });
    if (s1 != s2 || c1 != c2) R.fail("sinhcosh differs when one result is not asked for");
  }
  { UN(asinh); spread(f_asinh.pts, -1000, 1000, 2, T); around(f_asinh.pts, Dec(1), false); around(f_asinh.pts, Dec(0), false); f_asinh.pts.push_back(pt("1e100003")); far(f_asinh.pts, 2); f_asinh.pts.push_back(pt("-1e100003")); run1(R, f_asinh); }
  { UN(acosh); spread(f_acosh.pts, 0, 1000, 1, T); around(f_acosh.pts, Dec(1), true); around(f_acosh.pts, Dec(2), false); f_acosh.pts.push_back(pt("-1")); f_acosh.pts.push_back(pt("0.5")); f_acosh.pts.push_back(pt("-3e30")); f_acosh.pts.push_back(pt("1e100003")); far(f_acosh.pts, 1, false); run1(R, f_acosh); }
  { UN(atanh); spread(f_atanh.pts, -1000, -1, 2, T); for (auto c : {Dec(1), Dec(-1), Dec(Z(5L), -1)}) around(f_atanh.pts, c, T); f_atanh.pts.push_back(pt("2")); f_atanh.pts.push_back(pt("-2e40")); run1(R, f_atanh); }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) for (auto m : {"root", "explog", "trig", "hyper"}) if (!strcmp(argv[i], m)) mode = m;
  Run R(argc, argv);
  precision_for(2 * D10 + 80);
  if (mode == "root") roots(R); else if (mode == "explog") explog(R); else if (mode == "trig") trig(R); else hyper(R);
  return R.finish();
}
