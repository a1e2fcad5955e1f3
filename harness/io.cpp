// Text: parsing (parse), formatting (format), round trips (trip).
#include "pat.h"
#include <algorithm>
#include <malloc.h>
static std::string mode;

static Dec slack_in(const Dec& d) {
  Dec n = d; n.norm();
  bool exact = DECIMAL ? n.digits() <= D10 : (n.e >= 0 && n.order() < D10);
  return exact ? Dec(0) : rel(d);
}
static void expect(Run& R, const char* how, const std::string& s, const e_float& x, const Dec& want) {
  R.step();
  Val o = observe(x);
  if (o.cls == 0) R.state(o.d.norm().str());
  if (!near(o, want, slack_in(want)) || (!want.zero() && x.isneg() != (want.sign() < 0)))
    R.fail("%s \"%s\" gives %s", how, s.size() > 160 ? (s.substr(0, 70) + ".." + s.substr(s.size() - 70)).c_str() : s.c_str(), o.brief().c_str());
}
// all textual spellings of m * 10^e
static std::vector<std::string> spellings(const std::string& m, long e, bool thorough) {
  std::vector<std::string> r; const long n = (long)m.size();
  auto ex = [](long k, int f) { return k == 0 && f == 0 ? std::string() : (f & 1 ? "E" : "e") + std::string(k >= 0 && (f & 2) ? "+" : "") + (f & 4 ? (k < 0 ? "-00" : "00") + std::to_string(labs(k)) : std::to_string(k)); };
  std::vector<long> pts = {0, 1, n};
  for (long p = 2; p < n; ++p) if (thorough || p <= 18 || p >= n - 9 || p % 8 <= 1) pts.push_back(p);
  int f = 0;
  for (long p : pts) {
    std::string head = m.substr(0, p), tail = m.substr(p);
    long k = e + (n - p);
    r.push_back(head + "." + tail + ex(k, 0)); ++f;
    r.push_back((f % 2 ? "000" : "0") + head + "." + tail + std::string(f % 11, '0') + ex(k, f % 8 | 1));
    if (p == n) r.push_back(head + ex(k, f % 8));
  }
  if (labs(e) < 3000) {
    if (e >= 0) { r.push_back(m + std::string(e, '0')); r.push_back("00" + m + std::string(e, '0') + ".000"); }
    else if (-e < n) r.push_back(m.substr(0, n + e) + "." + m.substr(n + e));
    else { r.push_back("0." + std::string(-e - n, '0') + m); r.push_back("." + std::string(-e - n, '0') + m + "00"); r.push_back("00." + std::string(-e - n, '0') + m + ex(0, 1)); }
  }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static void parse_all(Run& R) {
  auto P = digit_patterns(true);
  P.push_back("0"); P.push_back(repn("1234567890", 2 * D10)); P.push_back(repn("9", 3 * D10)); P.push_back("1" + std::string(D10 + 40, '0') + "1"); P.push_back("3" + std::string(D10 + 9, '0')); P.push_back(repn("00000001", 80));
  for (auto& v : limb_vectors(2, {"00000000", "00000001", "10000000", "99999999", "00100000"})) P.push_back(v);
  std::vector<long> es = {0, 1, 7, 8, 9, -1, -7, -8, -9, -16, 23, -D10, D10, -D10 - 5, 1000, -1001, 123456, -654321};
  if (R.thorough) for (long e = -40; e <= 40; ++e) es.push_back(e);
  for (size_t ip = 0; ip < P.size(); ++ip) for (size_t ie = 0; ie < es.size(); ++ie) {
    if (!R.unit(S("p%zu.e%ld", ip, es[ie]))) continue;
    auto sp = spellings(P[ip], es[ie], R.thorough);
    for (size_t k = 0; k < sp.size(); ++k) for (int sg = 0; sg < 3; ++sg) {
      if (sg == 2 && k % 4) continue;
      if (!R.begin(S("s%zu.%d", k, sg))) continue;
      std::string s = (sg == 1 ? "-" : sg == 2 ? "+" : "") + sp[k];
      Dec want(Z(P[ip], 10), es[ie]); if (sg == 1) want = -want;
      e_float a(s.c_str()); expect(R, "const char*", s, a, want);
      e_float b(s); if (b != a) expect(R, "std::string", s, b, want); R.step();
      std::istringstream is(s); e_float c(k % 3 == 0 ? e_float(-123.25) : k % 3 == 1 ? e_float() : a); is >> c; R.step();
      if (c != a) expect(R, "operator>>", s, c, want);
    }
    R.sample(S("%zu spellings of %s", sp.size(), Dec(Z(P[ip], 10), es[ie]).brief().c_str()));
  }
}
// exponents far outside the range of the type, up to the limits of the built-in integers and beyond
static void parse_far(Run& R) {
  const char* ms[] = {"1", "9.5", "0.000001", "123456", "0.0123456789012345678901234567890", "99999999", "100000000", "12345678.87654321", ".5", "5.", "0", "0.00", "00"};
  const char* bs[] = {"10000000000", "1000000000000", "999999999999999", "1000000000000000", "9999999999999999", "10000000000000000", "99999999999999999", "1000000000000000000", "2776511644261678566", "2776511644261678592", "4611686018427387904", "9223372036854775799", "9223372036854775800", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775816", "9999999999999999999", "10000000000000000000", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457", "1000000000000000000000000000000000000000000000000000000000000000"};
  for (auto m : ms) if (R.unit(S("far.%s", m))) for (auto b : bs) for (int v = 0; v < 16; ++v) {
    if (!R.begin(S("%s.%d", b, v))) continue;
    const bool neg = v & 1, en = v & 2, zero = std::string(m).find_first_of("123456789") == std::string::npos;
    std::string s = std::string(neg ? "-" : "") + m + (v & 4 ? "E" : "e") + (en ? "-" : v & 4 ? "+" : "") + (v & 8 ? "000" : "") + b;
    e_float x(s), y(s.c_str()), z(3); std::istringstream is(s); is >> z; R.step(3);
    for (const e_float* p : {&x, &y, &z}) if (zero || en ? !p->iszero() || !p->isfinite() : !p->isinf() || p->isneg() != neg) { R.fail("'%s' is read as %s", s.c_str(), observe(*p).brief().c_str()); break; }
    R.state(s); }
}
// several tokens on one stream, read into one object that has a history
static void parse_streams(Run& R) {
  const char* tok[] = {"0", "-1.5", "+2e3", "7E-5", "99999999.00000001", "-0.000", "123456789012345678901234567890"};
  const int N = 7;
  for (int st = 0; st < 7; ++st) {
    if (!R.unit(S("stream.%d", st))) continue;
    for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) {
      if (!R.begin(S("%d.%d.%d", a, b, c))) continue;
      std::istringstream is(std::string(tok[a]) + " " + tok[b] + "\n\t " + tok[c]);
      e_float x;
      switch (st) { case 1: x = std::numeric_limits<e_float>::quiet_NaN(); break; case 2: x = std::numeric_limits<e_float>::infinity(); break; case 3: x = -std::numeric_limits<e_float>::infinity(); break; case 4: x = e_float(-7) / 3; break; case 5: x = e_float("-1e1000000"); break; case 6: x = e_float(2); x = ef::sqrt(x); x.precision(20); break; }
      int ids[3] = {a, b, c};
      for (int i = 0; i < 3; ++i) { is >> x; Dec w = ref::parse(tok[ids[i]]).d; if (!is && i < 2) R.fail("stream failed"); expect(R, S("token %d into object %d:", i, st).c_str(), tok[ids[i]], x, w); }
      if (!is.eof()) R.fail("eof not reached");
      // the object is fully usable afterwards
      e_float y = x + e_float(1) / e_float(3); Dec w = ref::add(ref::parse(tok[c]).d, ref::div(Dec(1), Dec(3), D10 + 20)); R.step();
      if (!near(observe(y), w, ref::add(rel(w), rel(Dec(1))))) R.fail("after reading %s, x + 1/3 is %s", tok[c], observe(y).brief().c_str());
      R.state(mc::fnv(S("%d %d %d %d", st, a, b, c)));
    }
    if (R.begin("footprint")) {
      // reading again and again into one object does not accumulate storage
      e_float x(3); size_t m[2];
      for (int k = 0; k < 2; ++k) { for (int i = 0; i < 400; ++i) { std::istringstream is("1.25e-3"); is >> x; } m[k] = mallinfo2().uordblks; }
      R.step(800);
      if (m[1] > m[0] + 4000) R.fail("reading 400 numbers into one object leaks %zu bytes", m[1] - m[0]);
    }
  }
}

// ---- formatting ------------------------------------------------------------
struct Fmt { int field; int prec; bool showpoint, showpos, upper; int width; int adj; char fill; };
static void check_format(Run& R, const Dec& d, const e_float& x, const Fmt& f, const char* id) {
  std::ostringstream os;
  if (f.field == 1) os << std::scientific; else if (f.field == 2) os << std::fixed;
  if (f.showpoint) os << std::showpoint; if (f.showpos) os << std::showpos; if (f.upper) os << std::uppercase;
  if (f.adj == 1) os << std::left; else if (f.adj == 2) os << std::right; else if (f.adj == 3) os << std::internal;
  os << std::setprecision(f.prec) << std::setfill(f.fill);
  auto fl = os.flags();
  os << std::setw(f.width) << x;
  R.step();
  if (os.width() != 0 || os.flags() != fl || os.precision() != f.prec || os.fill() != f.fill) { R.fail("%s: stream state changed", id); return; }
  std::string s = os.str(), t = s;
  auto bad = [&](const char* why) { R.fail("%s: %s (prec %d%s%s%s width %d fill '%c' adj %d) of %s prints \"%s\"", id, why, f.prec, f.showpoint ? " showpoint" : "", f.showpos ? " showpos" : "", f.upper ? " uppercase" : "", f.width, f.fill, f.adj, d.brief().c_str(), s.size() > 400 ? (s.substr(0, 200) + "..").c_str() : s.c_str()); };
  // padding
  if ((long)t.size() < f.width) return bad("shorter than the field width");
  if ((long)t.size() == f.width) { if (f.adj == 1) while (t.size() > 1 && t.back() == f.fill) t.pop_back(); else { size_t k = 0; while (k + 1 < t.size() && t[k] == f.fill) ++k; t = t.substr(k); } }
  if (f.width > 0 && (long)s.size() > f.width && t != s) return bad("padding");
  const char want_sign = d.sign() < 0 ? '-' : f.showpos ? '+' : 0;
  bool neg = false;
  if (!t.empty() && (t[0] == '-' || t[0] == '+')) { neg = t[0] == '-'; if (t[0] != want_sign && !(d.zero() && neg)) return bad("sign"); t = t.substr(1); }
  else if (want_sign) return bad("sign missing");
  // digits and exponent
  std::string ip, fp; bool dot = false; size_t k = 0;
  while (k < t.size() && isdigit((unsigned char)t[k])) ip += t[k++];
  if (k < t.size() && t[k] == '.') { dot = true; ++k; while (k < t.size() && isdigit((unsigned char)t[k])) fp += t[k++]; }
  bool sci = false; long ex = 0;
  if (k < t.size()) {
    if (t[k] != (f.upper ? 'E' : 'e')) return bad("exponent letter");
    sci = true; ++k;
    if (k >= t.size() || (t[k] != '+' && t[k] != '-')) return bad("exponent sign");
    std::string es = t.substr(k + 1);
    if (es.empty() || es.find_first_not_of("0123456789") != std::string::npos || es.size() % 3 != 0 || (es.size() > 3 && es.substr(0, 3) == "000")) return bad("exponent digits");
    ex = strtol(es.c_str(), 0, 10); if (t[k] == '-') ex = -ex;
  }
  if (ip.empty() || (ip.size() > 1 && ip[0] == '0')) return bad("integer part");
  Dec v(Z(ip + fp, 10), ex - (long)fp.size());
  const long p = f.prec <= 0 ? 6 : f.prec, o = d.order();
  long ulp;                                        // exponent of the last digit asked for
  if (f.field == 1) {
    if (!sci) return bad("not scientific");
    if ((long)fp.size() != p) return bad("number of decimals");
    if (ip.size() != 1 || (ip == "0" && !d.zero())) return bad("leading digit");
    if (d.zero() && ex != 0) return bad("zero with exponent");
    if (dot != (p > 0)) return bad("decimal point");
    ulp = ex - std::min(p, MD10);
  } else if (f.field == 2) {
    if (sci) return bad("not fixed");
    if ((long)fp.size() != p) return bad("number of decimals");
    ulp = std::max(-p, o - MD10);
  } else {
    const long n = std::min(p, MD10), hi = std::min(D10, std::max(p, 6L));
    Dec rd = ref::round_sig(d, n);
    if (!d.zero()) {
      bool lo_edge = o < -4 && rd.order() >= -4, hi_edge = o < hi && rd.order() >= hi;
      if (!lo_edge && !hi_edge && sci != (o < -4 || o >= hi)) return bad("style");
    } else if (sci) return bad("style");
    if (sci && (ip.size() != 1 || ip == "0")) return bad("leading digit");
    std::string all = ip + fp; size_t nz = all.find_first_not_of('0'); long sig = nz == std::string::npos ? 0 : (long)(all.size() - nz);
    if (!f.showpoint) {
      if (dot && (fp.empty() || fp.back() == '0')) return bad("trailing zeros");
      if (!fp.empty() && sig > n) return bad("too many digits");
    } else {
      if (!dot) return bad("decimal point missing");
      if (d.zero()) { if ((long)fp.size() != p && (long)fp.size() != p - 1) return bad("digits of zero"); }
      else if (sig != p && !((long)ip.size() > p && fp.empty())) return bad("number of digits");
    }
    ulp = v.zero() ? -400000000 : v.order() - n + 1;
    if (!d.zero() && v.zero()) return bad("vanishes");
  }
  if (neg) v.m = -v.m;
  // nearest value with that many digits (a tie may go either way)
  Dec err = ref::absd(ref::sub(v, d)), lim = ref::add(Dec(Z(5L), ulp - 1), DECIMAL ? Dec(0) : rel(d, D10 + 8));
  if (ulp - 1 < -300000000) lim = Dec(0);
  if (lim < err) return bad("not the nearest value");
  R.state(mc::fnv(s));
}
static std::vector<Dec> format_values(bool thorough) {
  std::vector<Dec> v = {Dec(0)};
  std::vector<std::string> m = {"1", "5", "9", "15", "25", "49", "45", "95", "99", "100000001", "149999", "4999999999", "99999999", "9999999949999999", "99999999999999995", "123456789", "12345678912345678", repn("9", 30), repn("9", D10), repn("9", D10 - 1) + "5", repn("123456789", D10), "1" + std::string(D10 - 2, '0') + "1", repn("4", D10), repn("49", 40), "5" + std::string(20, '0') + "1", repn("99999999", 24) + "00000001", "9999995", "999999499999", "99995", "9994"};
  if (thorough) for (auto& s : digit_patterns(true)) m.push_back(s);
  std::vector<long> o = {-1000000, -123, -D10, -20, -17, -16, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 30, D10 - 1, D10, D10 + 1, D10 + 9, 150, 1000, 1000000};
  for (auto& s : m) for (long k : o) v.push_back(Dec(Z(s), k - (long)s.size() + 1));
  return v;
}
static void format_all(Run& R) {
  auto V = format_values(R.thorough);
  std::vector<int> precs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 25, (int)D10 - 1, (int)D10, (int)MD10, (int)MD10 + 1, (int)MD10 + 30};
  if (R.thorough) for (int p = 10; p < (int)MD10 + 10; ++p) precs.push_back(p);
  precs.push_back(0); precs.push_back(-3);
  for (size_t i = 0; i < V.size(); ++i) {
    if (!R.unit(S("fmt%zu", i))) continue;
    for (int sg = 0; sg < 2; ++sg) {
      if (sg && V[i].zero()) continue;
      if (sg && i % 5) continue;
      Dec d = sg ? -V[i] : V[i]; e_float x = make(d);
      for (int fld = 0; fld < 3; ++fld) for (int p : precs) {
        if (fld == 2 && d.order() > 1000) continue;
        if (!R.begin(S("%d.f%d.p%d", sg, fld, p))) continue;
        for (int b = 0; b < 2; ++b) check_format(R, d, x, Fmt{fld, p, b != 0, false, false, 0, 0, ' '}, "format");
      }
    }
  }
  // every combination of the other flags, width, fill and adjustment
  std::vector<Dec> W = {Dec(0), Dec(1), Dec(-1), Dec(Z(15L), -1), Dec(Z(-123456789L), -4), Dec(Z(999999L), -3), Dec(Z(1L), -7), Dec(Z(-25L), 30), Dec(Z(repn("9", D10)), -50), Dec(Z(-7L), -200)};
  for (size_t i = 0; i < W.size(); ++i) for (int fld = 0; fld < 3; ++fld) {
    if (!R.unit(S("flags%zu.%d", i, fld))) continue;
    e_float x = make(W[i]);
    for (int m = 0; m < 8; ++m) for (int adj = 0; adj < 4; ++adj) for (char fill : {' ', '*', '#'}) for (int w : {0, 1, 5, 12, 13, 14, 20, 60, 300}) for (int p : {1, 6, 10, 40}) {
      if (!R.begin(S("m%d.a%d.%d.w%d.p%d", m, adj, (int)fill, w, p))) continue;
      check_format(R, W[i], x, Fmt{fld, p, (m & 1) != 0, (m & 2) != 0, (m & 4) != 0, w, adj, fill}, "flags");
    }
  }
  // non-finite values
  if (R.unit("nonfinite")) {
    const e_float v[3] = {std::numeric_limits<e_float>::infinity(), -std::numeric_limits<e_float>::infinity(), std::numeric_limits<e_float>::quiet_NaN()};
    for (int i = 0; i < 3; ++i) for (int fld = 0; fld < 3; ++fld) for (int m = 0; m < 8; ++m) for (int adj = 0; adj < 3; ++adj) for (int w : {0, 2, 3, 4, 5, 10}) {
      if (!R.begin(S("%d.%d.%d.%d.%d", i, fld, m, adj, w))) continue;
      std::ostringstream os; if (fld == 1) os << std::scientific; if (fld == 2) os << std::fixed; if (m & 1) os << std::showpoint; if (m & 2) os << std::showpos; if (m & 4) os << std::uppercase; if (adj == 1) os << std::left; if (adj == 2) os << std::right;
      os << std::setfill('.') << std::setw(w) << v[i]; R.step();
      std::string t = i == 2 ? (m & 4 ? "NAN" : "nan") : (i == 1 ? "-" : m & 2 ? "+" : "") + std::string(m & 4 ? "INF" : "inf");
      std::string pad((long)t.size() < w ? w - t.size() : 0, '.');
      std::string want = adj == 1 ? t + pad : pad + t;
      if (os.str() != want) R.fail("prints \"%s\", expected \"%s\"", os.str().c_str(), want.c_str());
      R.state(mc::fnv(os.str()));
    }
  }
}
// ---- round trips -----------------------------------------------------------
static void trips(Run& R) {
  auto P = digit_patterns(true);
  for (auto& v : limb_vectors(3)) P.push_back(v);
  std::vector<long> es = {0, -1, -3, 5, 8, -8, 17, -50, -D10, -D10 - 3, 300, -3001, 2000003, -2000005};
  auto check = [&](const e_float& x, const char* id) {
    for (int p : {1, 2, 7, 8, 9, 16, 17, (int)D10 - 1, (int)MD10}) for (int fld = 0; fld < 3; ++fld) {
      if (fld == 2 && (x.order() > 400 || x.order() < -400)) continue;
      std::ostringstream a, b; if (fld == 1) { a << std::scientific; b << std::scientific; } if (fld == 2) { a << std::fixed; b << std::fixed; }
      a << std::setprecision(p) << x;
      std::istringstream is(a.str()); e_float y; is >> y; b << std::setprecision(p) << y; R.step(2);
      if ((fld == 0 ? ref::cmp(ref::parse(a.str()).d, ref::parse(b.str()).d) != 0 : a.str() != b.str()) && !(y.iszero() && a.str().substr(a.str()[0] == '-' ? 1 : 0) == b.str())) R.fail("%s prints as \"%s\", which reads and prints as \"%s\" (field %d, precision %d)", id, a.str().c_str(), b.str().c_str(), fld, p);
      R.state(mc::fnv(a.str()));
    }
  };
  for (size_t ip = 0; ip < P.size(); ++ip) for (long e : es) {
    if (!R.unit(S("p%zu.e%ld", ip, e))) continue;
    for (int sg = 0; sg < 2; ++sg) {
      if (!R.begin(S("%d", sg))) continue;
      Dec d(Z(P[ip], 10), e); if (sg) d = -d; Dec n = d; n.norm();
      e_float x = make(d);
      // a value with at most digits10 digits is printed with exactly those digits, and read back equal
      std::ostringstream os; os << std::scientific << std::setprecision((int)D10 - 1) << x;
      R.step(2);
      Val v = ref::parse(os.str());
      if (v.cls != 0 || ref::cmp(v.d, d) != 0) R.fail("%s prints as %s", d.brief().c_str(), os.str().c_str());
      e_float y(os.str()); if (DECIMAL ? y != x : !near(observe(y - x), Dec(0), rel(d, D10 + 8))) R.fail("%s read back differs", d.brief().c_str());
      check(x, "value");
    }
    for (int k = 0; k < 3; ++k) {        // computed values carrying guard digits
      if (!R.begin(S("c%d", k))) continue;
      e_float x = make(Dec(Z(P[ip], 10), e)); x = k == 0 ? x / e_float(7) : k == 1 ? e_float(1) / x : ef::sqrt(x);
      check(x, k == 0 ? "x/7" : k == 1 ? "1/x" : "sqrt(x)");
    }
  }
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) for (const char* m : {"parse", "format", "trip"}) if (!strcmp(argv[i], m)) mode = m;
  Run R(argc, argv);
  if (mode == "parse") { parse_all(R); parse_far(R); parse_streams(R); }
  else if (mode == "format") format_all(R);
  else trips(R);
  return R.finish();
}
