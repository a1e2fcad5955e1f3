// The only file that uses the real GMP / MPFR headers (reference arithmetic).
#include <gmp.h>
#include <mpfr.h>
#include "ref.h"
namespace ref {
static_assert(sizeof(__mpz_struct) <= 16 && sizeof(__mpfr_struct) <= 32, "layout");
#define Q(x) (reinterpret_cast<__mpz_struct*>(const_cast<unsigned char*>((x).s)))
Z::Z() { mpz_init(Q(*this)); }
Z::Z(long n) { mpz_init_set_si(Q(*this), n); }
Z::Z(const std::string& d, int base) { if (mpz_init_set_str(Q(*this), d.c_str(), base) != 0) { fprintf(stderr, "bad integer %s\n", d.c_str()); abort(); } }
Z::Z(const Z& o) { mpz_init_set(Q(*this), Q(o)); }
Z::Z(Z&& o) noexcept { mpz_init(Q(*this)); mpz_swap(Q(*this), Q(o)); }
Z& Z::operator=(const Z& o) { if (this != &o) mpz_set(Q(*this), Q(o)); return *this; }
Z& Z::operator=(Z&& o) noexcept { if (this != &o) mpz_swap(Q(*this), Q(o)); return *this; }
Z::~Z() { mpz_clear(Q(*this)); }
Z Z::u(unsigned long long n) { Z r; mpz_set_ui(Q(r), n); return r; }
Z Z::ll(long long n) { Z r; mpz_set_si(Q(r), n); return r; }
std::string Z::str() const { char* p = mpz_get_str(nullptr, 10, Q(*this)); std::string r(p); void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(p, r.size() + 1); return r; }
long Z::digits10() const {
  if (mpz_sgn(Q(*this)) == 0) return 1;
  size_t n = mpz_sizeinbase(Q(*this), 10);                       // exact or one too big
  if (n > 1 && mpz_cmpabs(Q(*this), Q(p10(n - 1))) < 0) --n;
  return (long)n;
}
bool Z::divisible(unsigned long n) const { return mpz_divisible_ui_p(Q(*this), n) != 0; }
bool Z::odd() const { return mpz_odd_p(Q(*this)) != 0; }
long Z::bits() const { return (long)mpz_sizeinbase(Q(*this), 2); }
double Z::d() const { return mpz_get_d(Q(*this)); }
Z Z::pow(unsigned long b, unsigned long e) { Z r; mpz_ui_pow_ui(Q(r), b, e); return r; }
#define B(op, f) Z operator op(const Z& a, const Z& b) { Z r; f(Q(r), Q(a), Q(b)); return r; }
B(+, mpz_add) B(-, mpz_sub) B(*, mpz_mul) B(/, mpz_tdiv_q) B(%, mpz_tdiv_r)
#undef B
Z operator-(const Z& a) { Z r; mpz_neg(Q(r), Q(a)); return r; }
int sgn(const Z& a) { return mpz_sgn(Q(a)); }
Z abs(const Z& a) { Z r; mpz_abs(Q(r), Q(a)); return r; }
int cmp(const Z& a, const Z& b) { int c = mpz_cmp(Q(a), Q(b)); return c < 0 ? -1 : c > 0; }
Z gcd(const Z& a, const Z& b) { Z r; mpz_gcd(Q(r), Q(a), Q(b)); return r; }
Z fac(unsigned long n) { Z r; mpz_fac_ui(Q(r), n); return r; }
Z fac2(unsigned long n) { Z r; mpz_2fac_ui(Q(r), n); return r; }
Z bin(unsigned long n, unsigned long k) { Z r; mpz_bin_uiui(Q(r), n, k); return r; }
Z isqrt(const Z& a) { Z r; mpz_sqrt(Q(r), Q(a)); return r; }
const Z& p10(unsigned long k) {
  static std::vector<Z> tab;
  static std::map<unsigned long, Z> big;
  if (k < 4096) {
    if (tab.empty()) { tab.resize(4096); tab[0] = Z(1L); for (int i = 1; i < 4096; ++i) tab[i] = tab[i - 1] * Z(10L); }
    return tab[k];
  }
  auto it = big.find(k);
  if (it != big.end()) return it->second;
  if (big.size() > 64) big.clear();
  return big[k] = Z::pow(10, k);
}
#define W(x) (reinterpret_cast<__mpfr_struct*>(const_cast<unsigned char*>((x).v)))
long& MP::P() { static long p = 1200; return p; }
MP::MP() { mpfr_init2(W(*this), P()); mpfr_set_zero(W(*this), 1); }
MP::MP(long n) { mpfr_init2(W(*this), P()); mpfr_set_si(W(*this), n, MPFR_RNDN); }
MP::MP(double n) { mpfr_init2(W(*this), P()); mpfr_set_d(W(*this), n, MPFR_RNDN); }
MP::MP(const Dec& d) { mpfr_init2(W(*this), P()); if (d.zero()) mpfr_set_zero(W(*this), 1); else { std::string s = d.m.str() + "e" + std::to_string(d.e); mpfr_set_str(W(*this), s.c_str(), 10, MPFR_RNDN); } }
MP::MP(const MP& o) { mpfr_init2(W(*this), P()); mpfr_set(W(*this), W(o), MPFR_RNDN); }
MP& MP::operator=(const MP& o) { if (this != &o) mpfr_set(W(*this), W(o), MPFR_RNDN); return *this; }
MP::~MP() { mpfr_clear(W(*this)); }
bool MP::nan() const { return mpfr_nan_p(W(*this)) != 0; }
bool MP::inf() const { return mpfr_inf_p(W(*this)) != 0; }
bool MP::fin() const { return mpfr_number_p(W(*this)) != 0; }
bool MP::zero() const { return mpfr_zero_p(W(*this)) != 0; }
int MP::sign() const { return mpfr_sgn(W(*this)); }
double MP::d() const { return mpfr_get_d(W(*this), MPFR_RNDN); }
std::string MP::str(int n) const { char b[600]; if (n > 300) n = 300; mpfr_snprintf(b, sizeof b, "%.*Re", n, W(*this)); return b; }
Dec MP::dec(size_t n) const {
  if (zero()) return Dec(0);
  mpfr_exp_t ex; char* s = mpfr_get_str(nullptr, &ex, 10, n, W(*this), MPFR_RNDN);
  std::string t(s); mpfr_free_str(s);
  bool neg = t[0] == '-'; if (neg) t = t.substr(1);
  Dec r(Z(t, 10), (long)ex - (long)t.size()); if (neg) r.m = -r.m; return r;
}
#define B(op, fn) MP operator op(const MP& a, const MP& b) { MP r; fn(W(r), W(a), W(b), MPFR_RNDN); return r; }
B(+, mpfr_add) B(-, mpfr_sub) B(*, mpfr_mul) B(/, mpfr_div)
#undef B
MP operator-(const MP& a) { MP r; mpfr_neg(W(r), W(a), MPFR_RNDN); return r; }
#define U(name) MP name(const MP& a) { MP r; mpfr_##name(W(r), W(a), MPFR_RNDN); return r; }
U(sqrt) U(cbrt) U(exp) U(log) U(log10) U(log2) U(log1p) U(expm1) U(sin) U(cos) U(tan)
U(asin) U(acos) U(atan) U(sinh) U(cosh) U(tanh) U(asinh) U(acosh) U(atanh)
U(abs) U(gamma) U(zeta) U(csc) U(sec) U(cot) U(csch) U(sech) U(coth) U(lngamma) U(digamma)
MP atan2(const MP& y, const MP& x) { MP r; mpfr_atan2(W(r), W(y), W(x), MPFR_RNDN); return r; }
MP pow(const MP& x, const MP& y) { MP r; mpfr_pow(W(r), W(x), W(y), MPFR_RNDN); return r; }
MP powi(const MP& x, long n) { MP r; mpfr_pow_si(W(r), W(x), n, MPFR_RNDN); return r; }
MP hypot(const MP& x, const MP& y) { MP r; mpfr_hypot(W(r), W(x), W(y), MPFR_RNDN); return r; }
MP rootn(const MP& x, unsigned long n) { MP r; mpfr_rootn_ui(W(r), W(x), n, MPFR_RNDN); return r; }
MP pi() { MP r; mpfr_const_pi(W(r), MPFR_RNDN); return r; }
MP euler() { MP r; mpfr_const_euler(W(r), MPFR_RNDN); return r; }
MP ln2() { MP r; mpfr_const_log2(W(r), MPFR_RNDN); return r; }
MP catalan() { MP r; mpfr_const_catalan(W(r), MPFR_RNDN); return r; }
int cmp(const MP& a, const MP& b) { int c = mpfr_cmp(W(a), W(b)); return c < 0 ? -1 : c > 0; }
void wide() { mpfr_set_emax(mpfr_get_emax_max()); mpfr_set_emin(mpfr_get_emin_min()); }
MP ten_to(long k) { MP r(10L), q; mpfr_pow_si(W(q), W(r), k, MPFR_RNDN); return q; }
} // namespace ref
