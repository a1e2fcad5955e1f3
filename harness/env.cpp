// P36: results depend on the operands alone, not on the state of the process: the global locale, errno and floating-point exception flags.
#include <locale>
#include <sstream>
#include "mc.h"
#define ostringstream classic_ostringstream
#define istringstream classic_istringstream
namespace std { struct classic_ostringstream : basic_ostringstream<char> { classic_ostringstream() { imbue(locale::classic()); } };
struct classic_istringstream : basic_istringstream<char> { explicit classic_istringstream(const string& s) : basic_istringstream<char>(s) { imbue(locale::classic()); } }; }
#include "ops.cpp"
#undef ostringstream
#undef istringstream
#include <cerrno>
#include <cfenv>
using namespace mc; using std::vector; using std::string;
struct Grouped : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\1\2"; } string do_truename() const override { return "wahr"; } string do_falsename() const override { return "falsch"; } };
static std::locale foreign() { return std::locale(std::locale::classic(), new Grouped); }
int main(int argc, char** argv) {
  Run R(argc, argv); const bool T = R.thorough;
  vector<std::pair<string, string>> ps = {{"0.7310585786300048792511592418", "2.25"}, {"1.5", "0.3333333333333333333333333333333333333333"}, {"0.0001234567", "12345.678"}};
  if (T) for (auto p : vector<std::pair<string, string>>{{"0.99999999", "7.5"}, {"0.25", "1e-12"}, {"0.5", "99.99"}, {"1.25e-9", "3.14159"}, {"0.875", "1.0000001"}, {"2", "3"}}) ps.push_back(p);
  for (size_t i = 0; i < N; ++i) if (R.unit(ops[i].op.name)) for (size_t k = 0; k < ps.size(); ++k) {
    const e_float a(ps[k].first), b(ps[k].second); string base;
    // in a fresh order: the first use of everything may be under the foreign state
    std::function<string()> run = [&] { return ops[i].f(a, b); };
    auto under_locale = [&] { std::locale old = std::locale::global(foreign()); string r = run(); std::locale::global(old); return r; };
    auto under_flags = [&] { errno = ERANGE; std::feraiseexcept(FE_ALL_EXCEPT); string r = run(); errno = 0; std::feclearexcept(FE_ALL_EXCEPT); return r; };
    string first = under_locale(); base = run(); R.step(2); R.state(string(ops[i].op.name) + base);
    if (R.begin(S("%zu.locale", k))) { string r = under_locale(); R.step(); if (r != base || first != base) R.fail("%s of %s, %s: with a global locale of its own decimal point and grouping %s, in the classic locale %s", ops[i].op.name, ps[k].first.c_str(), ps[k].second.c_str(), (r != base ? r : first).substr(0, 120).c_str(), base.substr(0, 120).c_str()); }
    if (R.begin(S("%zu.flags", k))) { string r = under_flags(); R.step(); if (r != base) R.fail("%s of %s, %s: with errno and exception flags set %s, else %s", ops[i].op.name, ps[k].first.c_str(), ps[k].second.c_str(), r.substr(0, 120).c_str(), base.substr(0, 120).c_str()); }
    if (R.begin(S("%zu.back", k))) { string r = run(); R.step(); if (r != base) R.fail("%s of %s, %s: after all that %s, before %s", ops[i].op.name, ps[k].first.c_str(), ps[k].second.c_str(), r.substr(0, 120).c_str(), base.substr(0, 120).c_str()); }
  }
  // text of every length of exponent, read and written under the foreign locale
  for (long e : {0L, 7L, 99L, 100L, 999L, 1000L, 12345L, 1000000L, 12345678L, 646000000L}) if (R.unit(S("text.e%ld", e))) for (int neg = 0; neg < 2; ++neg) for (int f = 0; f < 4; ++f) { if (!R.begin(S("%d.%d", neg, f))) continue;
    const string t = string(f == 3 ? "-" : "") + "1234567.8901234567e" + (neg ? "-" : "") + std::to_string(e);
    auto go = [&]() -> string { e_float x(t); string r = s(x) + s((long long)x.order()); std::classic_ostringstream o; if (f == 1) o << std::uppercase; if (f == 2 && e < 1000) o << std::fixed; o << std::setprecision(25) << x << EC(x, -x); std::classic_istringstream in(t + " " + t); e_float y; in >> y; e_float z(1.5, (std::int64_t)(neg ? -e : e)); return r + o.str() + s(y) + s(z) + s(z == e_float("1.5e" + std::to_string(neg ? -e : e))) + s(e_float((long long)e * 1000 + 1)) + s(e_float((double)e + 0.5)) + s(e_float((long double)e + 0.25L)) + s(x.extract_double()); };
    std::locale old = std::locale::global(foreign()); string r = go(); std::locale::global(old); string b = go(); R.step(20); R.state(b); if (r != b) R.fail("%s: with a global locale of its own %s, in the classic locale %s", t.c_str(), r.substr(0, 300).c_str(), b.substr(0, 300).c_str()); }
  return R.finish();
}
