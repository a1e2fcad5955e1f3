// P18 / P19: complex numbers. Arithmetic, comparison, value functions and text (mode arith), elementary functions (mode elem).
#include "mc.h"
#include "cval.h"
#include <e_float/e_float_functions_complex.h>
using std::vector; using std::string;
static string mode = "arith";
typedef ef::complex<e_float> EC;

template<typename T> static bool same(const ef::complex<T>& a, const ef::complex<T>& b) { return a.real() == b.real() && a.imag() == b.imag(); }
static vector<Pt> pts(std::initializer_list<const char*> l) { vector<Pt> r; for (auto s : l) r.push_back(pt(string(s))); return r; }

// ---- P18
template<typename T> static void arith(Run& R) {
  typedef ef::complex<T> C;
  const string tn = Num<T>::name(); const bool big = std::is_same<T, e_float>::value;
  vector<Pt> V = pts({"0", "1", "-1", "2.5", "-0.375", "1e-20", "-3e-20", "7e20", "-1e21", "3.14159265358979323846264338327950288419716939937510582097", "-0.99999999999999999999999999999999999999999999", "123456789.987654321"});
  if (big && R.thorough) for (auto s : {"1e-101", "-4.4444444444444444444444444444444e100", "0.00000001", "99999999"}) V.push_back(pt(string(s)));
  if (D10 < 60) { vector<Pt> W; for (auto& p : V) if ((long)p.t.size() <= D10) W.push_back(p); V = W; }
  const size_t n = V.size();
  auto Zp = [&](size_t k) { return C(Num<T>::get(V[k / n]), Num<T>::get(V[k % n])); };
  auto Zr = [&](size_t k) { return CM(Num<T>::val(V[k / n]), Num<T>::val(V[k % n])); };
  auto nm = [&](size_t k) { return "(" + V[k / n].t + "," + V[k % n].t + ")"; };
  precision_for(4 * D10 + 200);
  for (size_t a = 0; a < n * n; ++a) if (R.unit(S("%s.%zu", tn.c_str(), a))) for (size_t b = 0; b < n * n; ++b) {
    if (!R.begin(S("%zu", b))) continue;
    C x = Zp(a), y = Zp(b); const C x0(x), y0(y); CM X = Zr(a), Y = Zr(b); const bool yz = cnorm(Y).zero();
    string w = nm(a) + " and " + nm(b);
    R.state(S("%s %zu %zu", tn.c_str(), a, b));
    struct Op { char c; C v, comp; };
    for (char c : {'+', '-', '*', '/'}) {
      if (c == '/' && yz) continue;
      C v = c == '+' ? x + y : c == '-' ? x - y : c == '*' ? x * y : x / y, z(x0);
      C& ret = c == '+' ? (z += y) : c == '-' ? (z -= y) : c == '*' ? (z *= y) : (z /= y);
      if (&ret != &z) R.fail("compound %c does not return its object", c);
      auto f = [&](const vector<CM>& q) { return c == '+' ? q[0] + q[1] : c == '-' ? q[0] - q[1] : c == '*' ? q[0] * q[1] : q[0] / q[1]; };
      // sums componentwise, products and quotients relative to the product of the moduli
      if (c == '+' || c == '-') { CM F = f({X, Y}), G = cm(v); auto bad = [&](const MP& f, const MP& g, const MP& p, const MP& q) { MP a = ref::abs(p), b = ref::abs(q); return Num<T>::eps() * (a < b ? b : a) < ref::abs(g - f); };
        if (bad(F.re, G.re, X.re, Y.re) || bad(F.im, G.im, X.im, Y.im)) R.fail("%s: %c gives %s, exact %s", w.c_str(), c, str(G).c_str(), str(F).c_str()); R.step(); }
      else cvalue<T>(R, S("%s: %c", w.c_str(), c), v, {X, Y}, f, nullptr, 2);
      cvalue<T>(R, S("%s: compound %c", w.c_str(), c), z, {X, Y}, f, nullptr, 2);
      if (!same(x, x0) || !same(y, y0)) R.fail("%s: %c changes an operand", w.c_str(), c);
    }
    // real operand on either side
    { const T r = y0.imag(); CM Rr(Y.im); const bool rz = Y.im.zero(), xz = cnorm(X).zero();
      for (char c : {'+', '-', '*', '/'}) {
        auto f = [&](const vector<CM>& q) { return c == '+' ? q[0] + q[1] : c == '-' ? q[0] - q[1] : c == '*' ? q[0] * q[1] : q[0] / q[1]; };
        if (!(c == '/' && rz)) { C z(x0); c == '+' ? (z += r) : c == '-' ? (z -= r) : c == '*' ? (z *= r) : (z /= r);
          cvalue<T>(R, S("%s: %c real imag(second)", w.c_str(), c), c == '+' ? x + r : c == '-' ? x - r : c == '*' ? x * r : x / r, {X, Rr}, f, nullptr, 2); cvalue<T>(R, S("%s: compound %c real", w.c_str(), c), z, {X, Rr}, f, nullptr, 2); }
        if (!(c == '/' && xz)) cvalue<T>(R, S("%s: real %c", w.c_str(), c), c == '+' ? r + x : c == '-' ? r - x : c == '*' ? r * x : r / x, {Rr, X}, f, nullptr, 2);
      } }
    // comparison: exactly equality of both parts
    bool eq = ref::cmp(X.re, Y.re) == 0 && ref::cmp(X.im, Y.im) == 0, eqr = ref::cmp(X.re, Y.im) == 0 && X.im.zero(); R.step(6);
    if ((x == y) != eq || (x != y) == eq || (x == y0.imag()) != eqr || (x != y0.imag()) == eqr || (y0.imag() == x) != eqr || (y0.imag() != x) == eqr) R.fail("%s: equality is wrong", w.c_str());
    // two operations in a row, and the same object on both sides
    if (a % 3 == 1 && b % 7 == 0) for (char c : {'+', '-', '*', '/'}) for (char d : {'+', '-', '*', '/'}) {
      if ((c == '/' && yz)) continue;
      C z = c == '+' ? x + y : c == '-' ? x - y : c == '*' ? x * y : x / y; CM Z1 = cm(z), Y1 = Y;
      if (d == '/' && yz) continue;
      d == '+' ? (z += y) : d == '-' ? (z -= y) : d == '*' ? (z *= y) : (z /= y);
      cvalue<T>(R, S("%s: %c then %c", w.c_str(), c, d), z, {Z1, Y1}, [&](const vector<CM>& q) { return d == '+' ? q[0] + q[1] : d == '-' ? q[0] - q[1] : d == '*' ? q[0] * q[1] : q[0] / q[1]; }, nullptr, 2);
    }
    if (b == 0) {
      C s(x0); s += s; cvalue<T>(R, nm(a) + ": z += z", s, {X}, [](const vector<CM>& q) { return q[0] + q[0]; });
      s = x0; s -= s; if (!(s.real() == T(0) && s.imag() == T(0))) R.fail("z -= z is not zero");
      s = x0; s *= s; cvalue<T>(R, nm(a) + ": z *= z", s, {X}, [](const vector<CM>& q) { return q[0] * q[0]; }, nullptr, 2);
      if (!cnorm(X).zero()) { s = x0; s /= s; cvalue<T>(R, nm(a) + ": z /= z", s, {X}, [](const vector<CM>&) { return CM(1); }); }
      C m = -x, p = +x; if (!(m.real() == -x0.real() && m.imag() == -x0.imag()) || !same(p, x0)) R.fail("%s: unary sign is wrong", nm(a).c_str());
      C q; q = x0; if (!same(q, x0)) R.fail("assignment is wrong"); q = q; if (!same(q, x0)) R.fail("self-assignment is wrong");
      q.real(T(3)); q.imag(T(4)); if (!(q.real() == T(3) && q.imag() == T(4))) R.fail("setting the parts is wrong");
      q = x0.real(); if (!(q.real() == x0.real() && q.imag() == T(0))) R.fail("assignment from a real number is wrong");
      if (!(ef::real(x) == x0.real() && ef::imag(x) == x0.imag())) R.fail("real or imag is wrong");
      C dflt; if (!(dflt.real() == T(0) && dflt.imag() == T(0))) R.fail("default construction is not zero");
      rvalue<T>(R, nm(a) + ": abs", ef::abs(x), {X}, [](const vector<CM>& v) { return cabs(v[0]); });
      rvalue<T>(R, nm(a) + ": norm", ef::norm(x), {X}, [](const vector<CM>& v) { return cnorm(v[0]); });
      if (!cnorm(X).zero()) rvalue<T>(R, nm(a) + ": arg", ef::arg(x), {X}, [](const vector<CM>& v) { return ref::atan2(v[0].im, v[0].re); });
      C k = ef::conj(x); if (!(k.real() == x0.real() && k.imag() == -x0.imag())) { std::ostringstream os; os << k.real() << "," << k.imag(); R.fail("conj of %s is (%s)", nm(a).c_str(), os.str().substr(0, 80).c_str()); }
      R.step(8);
      if (ref::abs(X.im) < ten_to(18)) cvalue<T>(R, nm(a) + ": polar", ef::polar(x0.real(), x0.imag()), {CM(X.re), CM(X.im)}, [](const vector<CM>& v) { return CM(v[0].re * ref::cos(v[1].re), v[0].re * ref::sin(v[1].re)); });
    }
  }
}
static void builtin_ops(Run& R) {
  vector<Pt> V = pts({"0", "1", "-2.5", "1e-20", "7e20", "123456789.987654321"});
  for (size_t a = 0; a < V.size() * V.size(); ++a) {
    if (!R.unit(S("int.%zu", a))) continue; precision_for(4 * D10 + 200);
    EC x0(arg(V[a / V.size()]), arg(V[a % V.size()])); CM X(mpv(V[a / V.size()].v), mpv(V[a % V.size()].v));
    auto one = [&](auto v, const char* tn) {
      typedef decltype(v) I; if (!R.begin(S("%s %s", tn, std::to_string(v).c_str()))) return; R.state(S("%zu %s", a, std::to_string(v).c_str()));
      MP M = MP(exact_of(v)); CM Y(M);
      for (char c : {'+', '-', '*', '/'}) { if (c == '/' && v == 0) continue; EC z(x0); c == '+' ? (z += v) : c == '-' ? (z -= v) : c == '*' ? (z *= v) : (z /= v);
        cvalue<e_float>(R, S("compound %c with %s %s", c, tn, std::to_string(v).c_str()), z, {X, Y}, [&](const vector<CM>& q) { return c == '+' ? q[0] + q[1] : c == '-' ? q[0] - q[1] : c == '*' ? q[0] * q[1] : q[0] / q[1]; }, nullptr, 2); }
      EC k(v); Val re = observe(k.real()); if (re.cls != 0 || !(re.d == exact_of(v)) || !ef::iszero(k.imag())) R.fail("construction from %s %s gives %s", tn, std::to_string(v).c_str(), re.brief().c_str()); R.step();
      (void)sizeof(I);
    };
    each_integral([&](auto t, const char* tn) { typedef typename decltype(t)::type I; for (I v : boundary<I>()) one(v, tn); });
  }
}
struct Fl { const char* n; std::ios_base::fmtflags f; };
static void textio(Run& R) {
  const vector<Pt> V = pts({"0", "1", "-1", "0.25", "-1234.5678", "1e30", "-2.5e-30", "99999999.5"});
  const Fl fl[] = {{"default", std::ios_base::fmtflags(0)}, {"fixed", std::ios_base::fixed}, {"scientific", std::ios_base::scientific}};
  for (size_t a = 0; a < V.size(); ++a) if (R.unit(S("text.%zu", a))) for (size_t b = 0; b < V.size(); ++b) for (auto& f : fl) for (int prec : {0, 3, 17, (int)D10}) for (int o = 0; o < 16; ++o) {
    if (!R.begin(S("%zu %s %d %d", b, f.n, prec, o))) continue; R.step(); R.state(S("%zu %zu %s %d %d", a, b, f.n, prec, o));
    EC z(arg(V[a]), arg(V[b]));
    auto set = [&](std::ostream& os) { os.setf(f.f, std::ios_base::floatfield); os.precision(prec); if (o & 1) os.setf(std::ios_base::showpos); if (o & 2) os.setf(std::ios_base::showpoint); if (o & 4) os.setf(std::ios_base::uppercase); };
    std::ostringstream r, i, g; set(r); set(i); set(g); r << z.real(); i << z.imag();
    string want = "(" + r.str() + "," + i.str() + ")"; if (o & 8) { g.width(60); g.fill('*'); if (want.size() < 60) want = string(60 - want.size(), '*') + want; }
    g << z; if (g.str() != want) R.fail("output %s, expected %s", g.str().c_str(), want.c_str());
    if (g.width() != 0) R.fail("width is not reset");
    if (!(o & 8) && prec == (int)D10 && strcmp(f.n, "fixed")) { EC y(arg(V[1]), arg(V[3])); std::istringstream is(g.str()); is >> y; if (!is || !same(y, z)) R.fail("%s read back differs", g.str().c_str()); }
  }
  // reading
  const char* num[] = {"0", "1", "-1", "+2", "3.", ".5", "-0.125", "1e3", "-2E-4", "+1.5e+7", "12345678901234567890.0987654321"};
  const char* bad[] = {"abc", "(1", "1)", "(1,2", "1,2", "(1,2,3)", "(,", "()", "(,)", "(,1)", "(1,)", "e5", "1+2", "1..2", ".", "1e", "(1e,2)", "1e+", "(1;2)", "(1,x)", "1.2.3", "--1", "(1,2)x", "e5x", "-", "(-,1)", "(1,e)"};
  for (auto a : num) if (R.unit(S("read.%s", a))) for (auto b : num) for (int form = 0; form < 3; ++form) for (auto tail : {"", " 7"}) {
    if (!R.begin(S("%s %d%s", b, form, tail))) continue; R.step(); R.state(S("%s %s %d %s", a, b, form, tail));
    string t = form == 0 ? string(a) : form == 1 ? "(" + string(a) + ")" : "(" + string(a) + "," + b + ")";
    std::istringstream is(" " + t + tail); EC z(arg(pt("9")), arg(pt("8"))); is >> z;
    e_float re = e_float(string(a)), im = form == 2 ? e_float(string(b)) : e_float(0);
    if (is.fail() || !(z.real() == re && z.imag() == im)) { R.fail("reading %s gives %s %s%s", t.c_str(), text(z.real()).substr(0, 30).c_str(), text(z.imag()).substr(0, 30).c_str(), is.fail() ? " and fails" : ""); continue; }
    if (*tail) { int k = 0; if (!(is >> k) || k != 7) R.fail("reading %s does not stop behind it", t.c_str()); }
  }
  if (R.unit("read.bad")) for (auto b : bad) for (auto tail : {"", " 7"}) {
    if (!R.begin(S("%s%s", b, tail))) continue; R.step();
    std::istringstream is(string(b) + tail); EC z(arg(pt("9")), arg(pt("8"))); is >> z;
    if (!is.fail()) { R.fail("reading %s does not fail", b); continue; }
    if (!(z.real() == e_float(9) && z.imag() == e_float(8))) { R.fail("failed reading of %s changes the number", b); continue; }
    if (is.bad()) { R.fail("failed reading of %s breaks the stream", b); continue; }
    is.clear(); string again; is >> again; if (again != b) R.fail("after failed reading of %s the stream holds %s", b, again.c_str());
  }
}

// ---- P19
template<typename T> struct F1 { const char* name; std::function<ef::complex<T>(const ef::complex<T>&)> lib; std::function<CM(const CM&)> refn; int dom; std::function<CM(const CM&)> other; };
template<typename T> static void elem(Run& R) {
  typedef ef::complex<T> C; const bool big = std::is_same<T, e_float>::value; const bool TT = big && (R.thorough || D10 <= 101);
  const string tn = Num<T>::name();
  auto flip_im = [](const CM& F) { return cconj(F); }; auto flip_re = [](const CM& F) { return CM(-F.re, F.im); };
  // dom: 1 forward functions, 2 any magnitude (with cut handling by 'other')
#define FN(n, d, o) {#n, [](const C& z) { return ef::n(z); }, [](const CM& z) { return c##n(z); }, d, o}
  vector<F1<T>> fs = {FN(exp, 1, nullptr), FN(sin, 1, nullptr), FN(cos, 1, nullptr), FN(tan, 1, nullptr), FN(sinh, 1, nullptr), FN(cosh, 1, nullptr), FN(tanh, 1, nullptr),
    FN(sqrt, 2, nullptr), FN(log, 2, nullptr), {"log10", [](const C& z) { return ef::log10(z); }, [](const CM& z) { return clog(z) / CM(ref::log(MP(10L))); }, 2, nullptr},
    FN(asin, 3, flip_im), FN(acos, 3, flip_im), FN(atan, 4, flip_re), FN(asinh, 4, flip_re), FN(acosh, 5, flip_im), FN(atanh, 3, flip_im)};
  vector<Pt> G = pts({"0", "1", "-1", "0.5", "-0.5", "2.5", "-2.5", "0.001", "-0.001", "10.75", "-10.75", "1.5707963267948966192313216916397514421", "0.99999999999", "-1.00000000001"});
  if (big) for (auto s : {"1e-30", "-1e-30", "3.14159265358979323846264338327950288419716939937510582097494459", "50.1", "-50.1", "200.25", "-700.5"}) G.push_back(pt(string(s)));
  if (TT) for (auto s : {"0.3333333333333333333333333333333333", "-7e-60", "1e-101", "1.0000000000000000000000000000000000000000000000000000000001", "-0.99999999999999999999999999999999999999999999999", "4.75", "-33"}) G.push_back(pt(string(s)));
  if (D10 < 60) { vector<Pt> W; for (auto& p : G) if ((long)p.t.size() <= D10 + 2) W.push_back(p); G = W; }
  vector<Pt> H = G; if (big) for (auto s : {"1e20", "-1e20", "3e60", "-7e90"}) H.push_back(pt(string(s)));
  for (auto& f : fs) { const vector<Pt>& V = f.dom == 1 ? G : H;
    for (size_t a = 0; a < V.size(); ++a) if (R.unit(S("%s.%s.%zu", tn.c_str(), f.name, a))) for (size_t b = 0; b < V.size(); ++b) {
      if (!R.begin(S("%zu", b))) continue;
      precision_for(3 * D10 + 500);
      CM X(Num<T>::val(V[a]), Num<T>::val(V[b])); C z(Num<T>::get(V[a]), Num<T>::get(V[b]));
      if (cnorm(X).zero() && (f.name[0] == 'l')) continue;                                            // pole
      const bool real1 = X.im.zero() && (ref::cmp(ref::abs(X.re), MP(1L)) == 0), imag1 = X.re.zero() && ref::cmp(ref::abs(X.im), MP(1L)) == 0;
      if ((!strcmp(f.name, "atanh") && real1) || (!strcmp(f.name, "atan") && imag1)) continue;        // poles
      if (!strncmp(f.name, "tan", 3)) { CM q = f.name[3] ? ccosh(X) : ccos(X); if (cabs(q) < MP(1000L) * Num<T>::eps() * cabs(X)) continue; }   // next to a pole
      bool cut = (f.dom == 3 && X.im.zero() && ref::abs(X.re) > MP(1L)) || (f.dom == 4 && X.re.zero() && ref::abs(X.im) > MP(1L)) || (f.dom == 5 && X.im.zero() && X.re < MP(1L));
      cvalue<T>(R, S("%s %s(%s, %s)", tn.c_str(), f.name, V[a].t.c_str(), V[b].t.c_str()), f.lib(z), {X}, [&](const vector<CM>& q) { return f.refn(q[0]); }, cut ? f.other : nullptr, big ? 1 : 4);
      R.state(S("%s %s %zu %zu", tn.c_str(), f.name, a, b));
    }
  }
  // powers
  vector<Pt> B = pts({"0", "1", "-1", "0.75", "-2.5", "10.75", "-0.001"}), E = pts({"0", "1", "-2", "0.5", "-3.25", "7"});
  if (big) { B.push_back(pt("1e-20")); B.push_back(pt("3e40")); E.push_back(pt("1e-20")); E.push_back(pt("-40.125")); }
  for (size_t a = 0; a < B.size(); ++a) for (size_t b = 0; b < B.size(); ++b) if (R.unit(S("%s.pow.%zu.%zu", tn.c_str(), a, b))) {
    precision_for(3 * D10 + 500);
    CM X(Num<T>::val(B[a]), Num<T>::val(B[b])); C z(Num<T>::get(B[a]), Num<T>::get(B[b])); if (cnorm(X).zero()) continue;
    string w = tn + " pow((" + B[a].t + "," + B[b].t + "), ";
    for (long n = -20; n <= 66; ++n) { if (n > 20 && n < 60) continue; if (!big && labs(n) > 12) continue; if (!R.begin(S("n%ld", n))) continue; RF f = [&](const vector<CM>& q) { return cpowi(q[0], n); };
      if (labs(n) < 1000) cvalue<T>(R, S("%s%ld)", w.c_str(), n), ef::pow(z, (int)n), {X}, f, nullptr, big ? 1 : 8);
      if constexpr (std::is_same<T, e_float>::value) cvalue<T>(R, S("%s int64 %ld)", w.c_str(), n), ef::pow(z, (std::int64_t)n), {X}, f);
      R.state(S("%s n %zu %zu %ld", tn.c_str(), a, b, n)); }
    for (size_t c = 0; c < E.size(); ++c) { if (!R.begin(S("r%zu", c))) continue;
      cvalue<T>(R, w + E[c].t + ".)", ef::pow(z, Num<T>::get(E[c])), {X, CM(Num<T>::val(E[c]))}, [](const vector<CM>& q) { return cpow(q[0], q[1]); }, nullptr, big ? 1 : 8);
      for (size_t d = 0; d < E.size(); ++d) { C e(Num<T>::get(E[c]), Num<T>::get(E[d])); CM Ee(Num<T>::val(E[c]), Num<T>::val(E[d]));
        cvalue<T>(R, w + "(" + E[c].t + "," + E[d].t + "))", ef::pow(z, e), {X, Ee}, [](const vector<CM>& q) { return cpow(q[0], q[1]); }, nullptr, big ? 1 : 8);
        if (b == 0 && X.re.sign() > 0) cvalue<T>(R, w + "(" + E[c].t + "," + E[d].t + ")) of a real base", ef::pow(Num<T>::get(B[a]), e), {X, Ee}, [](const vector<CM>& q) { return cpow(q[0], q[1]); }, nullptr, big ? 1 : 8);
        R.state(S("%s %zu %zu %zu %zu", tn.c_str(), a, b, c, d)); } }
  }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "elem")) mode = "elem";
  Run R(argc, argv); precision_for(4 * D10 + 200);
  const bool builtin = !strcmp(BACKEND, "efx") && D10 == 101;
  if (mode == "arith") { arith<e_float>(R); builtin_ops(R); textio(R); if (builtin) { arith<double>(R); arith<long double>(R); } }
  else { elem<e_float>(R); if (builtin) { elem<double>(R); elem<long double>(R); } }
  return R.finish();
}
