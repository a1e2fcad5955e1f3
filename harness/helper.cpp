// Classification helpers and their overloads for double (P28).
#include "mc.h"
#include "ef.h"
#include <e_float/e_float_functions.h>
#include <cmath>
#include <cfloat>
using std::vector; using std::string;
typedef long long ll;
static Dec dec(double x) { return exact((long double)x); }
// thresholds are unspecified, but must be one threshold: found as the smallest power that is not small
static void one(Run& R, double x) {
  if (!R.begin(S("%a", x))) return;
  R.state(S("%a", x)); R.step(10);
  const bool nan = std::isnan(x), inf = std::isinf(x), fin = !nan && !inf;
  e_float X = nan ? std::numeric_limits<e_float>::quiet_NaN() : inf ? (x < 0 ? -std::numeric_limits<e_float>::infinity() : std::numeric_limits<e_float>::infinity()) : e_float(x);
#define SAME(f, want) do { auto a = ef::f(x); auto b = ef::f(X); if (a != (want)) R.fail("%s(double %.17g) is %lld", #f, x, (ll)a); if (b != (want)) R.fail("%s(e_float %.17g) is %lld", #f, x, (ll)b); } while (0)
  SAME(isnan, nan); SAME(isinf, inf); SAME(isfinite, fin);
  if (nan) return;
  SAME(isneg, x < 0); SAME(ispos, !(x < 0));
  if (inf) { if (ef::to_double(x) != x || ef::to_double(X) != x || ef::isint(x) || ef::isint(X) || ef::iszero(x) || ef::iszero(X) || ef::isone(x) || ef::isone(X)) R.fail("infinity is classified as finite"); return; }
  const Dec d = dec(x); const bool exactly = DECIMAL ? Dec(d).norm().digits() <= D10 : true;
  SAME(to_double, x);
  if (exactly || std::fabs(x) > 1e18) { SAME(to_int64, x >= 0x1p63 ? INT64_MAX : x <= -0x1p63 ? INT64_MIN : (std::int64_t)x); SAME(to_int32, x >= 2147483647.0 ? INT32_MAX : x <= -2147483648.0 ? INT32_MIN : (std::int32_t)x); }
  if (exactly && (x == 0 || std::fabs(x) > 4 * DBL_MIN)) { SAME(iszero, x == 0); SAME(isone, x == 1); SAME(isint, std::floor(x) == x); }
  if (x != 0 && exactly) { double l = std::log10(std::fabs(x)); if (std::fabs(l - std::rint(l)) > 1e-13 || d.m.str().find_first_not_of("-10") == string::npos) { if (ef::order_of(x) != d.order()) R.fail("order_of(double %.17g) is %lld", x, (ll)ef::order_of(x)); }
    if (DECIMAL && ef::order_of(X) != d.order()) R.fail("order_of(e_float %.17g) is %lld", x, (ll)ef::order_of(X)); }
  if (x == 0 && (ef::order_of(x) != 0 || ef::order_of(X) != 0)) R.fail("order_of(0)");
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  // every double m * 2^k of few bits, its neighbours, every power of ten and its neighbours
  for (int k = -1022; k <= 1023; ++k) {
    if (!R.unit(S("bin%d", k))) continue;
    for (double m : {1.0, 1.5, 1.25, 1.75, 1.0 + DBL_EPSILON, 2.0 - DBL_EPSILON, 1.0 / 3 * 4, 1.6180339887498949}) for (int s = -1; s <= 1; s += 2) { double x = std::ldexp(m, k) * s; one(R, x); if (R.thorough || std::abs(k) < 70) { one(R, std::nextafter(x, 1e308)); one(R, std::nextafter(x, -1e308)); } }
  }
  for (int k = -307; k <= 308; ++k) { if (!R.unit(S("dec%d", k))) continue; for (int m = 1; m <= 9; ++m) { double x = strtod(S("%de%d", m, k).c_str(), nullptr); if (!std::isfinite(x)) continue; for (int s = -1; s <= 1; s += 2) { one(R, x * s); one(R, std::nextafter(x, 1e309) * s); one(R, std::nextafter(x, 0) * s); } } }
  if (R.unit("special")) { for (double x : {0.0, -0.0, (double)INFINITY, -(double)INFINITY, (double)NAN, DBL_MAX, -DBL_MAX, DBL_MIN, 0x1p63, -0x1p63, 0x1p64, 0x1p31, 2147483647.0, 2147483648.0, -2147483649.0, 2147483647.5, -2147483648.5, 9223372036854774784.0}) one(R, x); }
  // small, large, near one and near an integer: one threshold each, the same for all of them
  for (int type = 0; type < 2; ++type) { const char* tn = type ? "e_float" : "double"; const long L = type ? D10 : 15;
    if (!R.unit(S("threshold.%s", tn))) continue;
    auto q = [&](int f, const Dec& d) -> bool { if (type) { e_float x = make(d); return f == 0 ? ef::small_arg(x) : f == 1 ? ef::large_arg(x) : f == 2 ? ef::near_one(x) : ef::near_int(x); } double x = strtod(d.str().c_str(), nullptr); return f == 0 ? ef::small_arg(x) : f == 1 ? ef::large_arg(x) : f == 2 ? ef::near_one(x) : ef::near_int(x); };
    if (R.begin("ends")) { R.step(); for (int s = -1; s <= 1; s += 2) { if (!q(0, Dec(0)) || q(0, Dec(s)) || q(1, Dec(s)) || q(1, Dec(0)) || !q(0, Dec(Z((long)s), -L / 2)) || !q(1, Dec(Z((long)s), L / 2)) || !q(2, Dec(1)) || q(2, Dec(-1)) || q(2, Dec(0)) || q(2, Dec(2)) || !q(3, Dec(s * 7)) || !q(3, Dec(0)) || q(3, Dec(Z(5L * s), -1)) || q(3, Dec(Z(305L * s), -2))) R.fail("%s: small, large, near one or near an integer at the ends of the scale", tn); } }
    long lim = 0;                                                       // 10^-lim is small, 10^-(lim-1) is not
    for (long k = 1; k <= L; ++k) if (q(0, Dec(Z(1L), -k))) { lim = k; break; }
    if (R.begin("limit")) { R.step(); if (lim < 2 || lim > (type ? D10 / 4 + 3 : 4)) R.fail("%s: 1e-%ld is the largest small power of ten", tn, lim); }
    // for a fraction that loses no digit
    for (long k = 0; k <= L / 2; ++k) for (long m : {1L, 2L, 25L, 99L}) for (int s = -1; s <= 1; s += 2) {
      if (!R.begin(S("%ld.%ld.%d", k, m, s))) continue; R.step(6); R.state(S("%s %ld %ld %d", tn, k, m, s));
      Dec d(Z(m * s), -k); const bool sm = q(0, d), edge = !type && labs(d.order() + lim) <= 1;
      if (!edge && sm != (d.order() < -lim + 1 - (type ? 0 : 0) ) && (d.order() != -lim)) R.fail("%s: small_arg(%s) is %d although 1e-%ld is the largest small power", tn, d.str().c_str(), sm, lim);
      if (sm != q(0, -d)) R.fail("%s: small_arg(%s) depends on the sign", tn, d.str().c_str());
      if (d.order() < 0) { bool n1 = q(2, ref::add(Dec(1), d)); if (!edge && n1 != sm && !(d.order() == -lim)) R.fail("%s: near_one(1%+ld e-%ld) is %d, small_arg is %d", tn, m * s, k, n1, sm);
        for (long n : {0L, 1L, -1L, 3L, -41L, 1000L}) { Dec y = ref::add(Dec(n), d); if (d.order() < -1 && q(3, y) != sm && !edge && d.order() != -lim) R.fail("%s: near_int(%s) is %d, small_arg of the distance is %d", tn, y.str().c_str(), q(3, y), sm); } }
      Dec big(Z(m * s), k); const bool lg = q(1, big); if (lg != q(1, -big)) R.fail("%s: large_arg(%s) depends on the sign", tn, big.str().c_str());
      if (labs(big.order() - lim) > 1 && lg != (big.order() > lim)) R.fail("%s: large_arg(%s) is %d although small_arg begins at 1e-%ld", tn, big.str().c_str(), lg, lim);
    }
  }
  return R.finish();
}
