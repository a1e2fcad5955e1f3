// Comparing complex results of the library with the references of cx.h.
#ifndef VERIF_CVAL_H
#define VERIF_CVAL_H
#include "cx.h"
#include <e_float/e_float_complex.h>
using std::vector; using std::string;
template<typename T> struct Num;
template<> struct Num<e_float> {
  static e_float get(const Pt& p) { return arg(p); }
  static bool fin(const e_float& x) { return ef::isfinite(x); }
  static MP mp(const e_float& x) { Val v = observe(x); return mpv(v); }
  static MP eps() { return ten_to(-D10); }
  static MP val(const Pt& p) { return mpv(p.v); }
  static const char* name() { return "e_float"; }
};
template<typename T> struct NumF {
  static T get(const Pt& p) { return (T)strtold(p.t.c_str(), nullptr); }
  static bool fin(T x) { return std::isfinite(x); }
  static MP mp(T x) { return MP(exact(x)); }
  static MP eps() { return MP(exact((long double)std::numeric_limits<T>::epsilon() * 4)); }
  static MP val(const Pt& p) { return MP(exact(get(p))); }
};
template<> struct Num<double> : NumF<double> { static const char* name() { return "double"; } };
template<> struct Num<long double> : NumF<long double> { static const char* name() { return "long double"; } };

template<typename T> static CM cm(const ef::complex<T>& z) { return CM(Num<T>::mp(z.real()), Num<T>::mp(z.imag())); }
static string str(const CM& z) { return "(" + z.re.str(25) + ", " + z.im.str(25) + ")"; }
typedef std::function<CM(const vector<CM>&)> RF;
// normwise: eps |F| + the change of F when a component of an argument grows by eps times the argument's modulus (or by eps relatively, either way)
template<typename T> static bool cvalue(Run& R, const string& what, const ef::complex<T>& got, const vector<CM>& x, const RF& f, const std::function<CM(const CM&)>& other = nullptr, long k = 1) {
  R.step();
  CM F = f(x); MP eps = Num<T>::eps() * MP(k);
  if (!F.fin()) return true;                                // poles and overflow of the reference: not specified
  if (!Num<T>::fin(got.real()) || !Num<T>::fin(got.imag())) { std::ostringstream os; os << got.real() << " " << got.imag(); R.fail("%s: result is not finite (%s), reference %s", what.c_str(), os.str().substr(0, 80).c_str(), str(F).c_str()); return false; }
  CM G = cm(got); MP err = cabs(G - F);
  if (other) { MP e2 = cabs(G - other(F)); if (e2 < err) err = e2; }
  MP tol = eps * cabs(F);
  if (tol < err) for (size_t i = 0; i < x.size(); ++i) { MP m = eps * cabs(x[i]); for (int c = 0; c < 4; ++c) {
    vector<CM> y = x; MP& p = (c & 1) ? y[i].im : y[i].re; if (p.zero()) continue;
    if (c & 2) p = p + (p.sign() < 0 ? -m : m); else p = p * (MP(1L) - eps);
    CM H = f(y); if (H.fin()) { MP d = cabs(H - F); if (tol < d) tol = d; } } }
  if (tol < err) { R.fail("%s: library %s, reference %s (error %s, allowed %s)", what.c_str(), str(G).c_str(), str(F).c_str(), err.str(3).c_str(), tol.str(3).c_str()); return false; }
  return true;
}
template<typename T> static bool rvalue(Run& R, const string& what, const T& got, const vector<CM>& x, const std::function<MP(const vector<CM>&)>& f) {
  return cvalue<T>(R, what, ef::complex<T>(got, T(0)), x, [&](const vector<CM>& a) { return CM(f(a)); });
}
#endif
