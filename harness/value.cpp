// Value semantics and aliasing (P06): a machine of three registers driven through every sequence of
// operations; the model executes the same operation on fresh, unaliased copies of the operands.
#include "pat.h"
#include <functional>
#include <algorithm>

static bool same(const e_float& a, const e_float& b) {
  if (a.isnan() || b.isnan()) return a.isnan() && b.isnan();
  return a == b && (a.iszero() || text(a) == text(b));                  // the sign of zero is left open
}
typedef std::vector<e_float> Regs;
struct Op { std::string name; std::function<void(e_float*)> real, model; };
template<typename F> static Op bin(const std::string& n, int i, int j, F f) {
  // real: f(r[i], r[j]) with whatever aliasing i, j imply.  model: separate copies.
  return {n, [=](e_float* r) { f(r[i], r[j]); }, [=](e_float* r) { e_float a(r[i]), b(r[j]); f(a, b); r[i] = a; }};
}
static std::vector<Op> ops() {
  std::vector<Op> v;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      std::string t = S("r%d,r%d", i, j);
      v.push_back(bin("+= " + t, i, j, [](e_float& a, const e_float& b) { a += b; }));
      v.push_back(bin("-= " + t, i, j, [](e_float& a, const e_float& b) { a -= b; }));
      v.push_back(bin("*= " + t, i, j, [](e_float& a, const e_float& b) { a *= b; }));
      v.push_back(bin("/= " + t, i, j, [](e_float& a, const e_float& b) { a /= b; }));
      v.push_back(bin("= " + t, i, j, [](e_float& a, const e_float& b) { a = b; }));
      v.push_back(bin("a=a+b " + t, i, j, [](e_float& a, const e_float& b) { a = a + b; }));
      v.push_back(bin("a=b-a " + t, i, j, [](e_float& a, const e_float& b) { a = b - a; }));
      v.push_back(bin("a=b*a " + t, i, j, [](e_float& a, const e_float& b) { a = b * a; }));
      v.push_back(bin("a=b/a " + t, i, j, [](e_float& a, const e_float& b) { a = b / a; }));
      v.push_back(bin("a=-b " + t, i, j, [](e_float& a, const e_float& b) { a = -b; }));
      v.push_back(bin("a=fabs b " + t, i, j, [](e_float& a, const e_float& b) { a = ef::fabs(b); }));
      v.push_back(bin("a+=b*a " + t, i, j, [](e_float& a, const e_float& b) { a += b * a; }));
      v.push_back(bin("a=int part b " + t, i, j, [](e_float& a, const e_float& b) { a = b.extract_integer_part(); }));
      if (i < j) {
        auto sw = [=](e_float* r) { e_float a(r[i]), b(r[j]); r[i] = b; r[j] = a; };
        v.push_back({"std::swap " + t, [=](e_float* r) { std::swap(r[i], r[j]); }, sw});
        v.push_back({"member swap " + t, [=](e_float* r) { r[i].swap(r[j]); }, sw});
      }
      if (i != j) {
        // move, then give the source a new value by each kind of assignment
        v.push_back({"move, copy back " + t, [=](e_float* r) { r[i] = std::move(r[j]); r[j] = r[i]; }, [=](e_float* r) { e_float b(r[j]); r[i] = b; r[j] = b; }});
        v.push_back({"move out and in " + t, [=](e_float* r) { e_float x(std::move(r[j])); r[j] = std::move(r[i]); r[i] = std::move(x); }, [=](e_float* r) { e_float a(r[i]), b(r[j]); r[i] = b; r[j] = a; }});
        v.push_back({"move, assign 7 " + t, [=](e_float* r) { r[i] = std::move(r[j]); r[j] = e_float(7); }, [=](e_float* r) { e_float b(r[j]); r[i] = b; e_float s(7); r[j] = s; }});
      }
    }
    std::string t = S("r%d", i);
    auto un = [&](const char* n, std::function<void(e_float&)> f) { v.push_back({n + (" " + t), [=](e_float* r) { f(r[i]); }, [=](e_float* r) { e_float a(r[i]); f(a); e_float b(a); r[i] = b; }}); };
    un("negate", [](e_float& a) { a.negate(); });
    un("++", [](e_float& a) { ++a; });
    un("x--", [](e_float& a) { a--; });
    un("*=3", [](e_float& a) { a *= 3; });
    un("/=7u", [](e_float& a) { a /= 7u; });
    un("inv", [](e_float& a) { a.calculate_inv(); });
    un("sqrt", [](e_float& a) { a.calculate_sqrt(); });
    un("through text", [](e_float& a) { std::ostringstream o; o << std::setprecision(40) << a; std::istringstream s(o.str()); s >> a; });
    v.push_back({"self swap " + t, [=](e_float* r) { std::swap(r[i], r[i]); r[i].swap(r[i]); }, [](e_float*) {}});
  }
  return v;
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  auto O = ops();
  const char* st[][3] = {{"-3", "2", "0.25"}, {"99999999", "-100000000", "1e-40"}, {"0", "-7.5", "1e30"}, {"inf", "2", "-1"}, {"nan", "0", "-5e-9"}, {"1.23456789012345678901234567890123456789", "-1.23456789012345678901234567890123456789", "1"}};
  const int NS = sizeof st / sizeof *st;
  auto val = [](const char* s) { std::string t(s); return t == "inf" ? std::numeric_limits<e_float>::infinity() : t == "nan" ? std::numeric_limits<e_float>::quiet_NaN() : e_float(t); };
  const int depth = R.thorough ? 3 : 2;                                  // operations in a row
  std::function<void(const Regs&, const Regs&, int, const std::string&)> go = [&](const Regs& real, const Regs& model, int d, const std::string& path) {
    for (size_t k = 0; k < O.size(); ++k) {
      std::string key = path + std::to_string(k);
      bool run = R.begin(key);
      if (!run && !(R.only && R.only_case.compare(0, key.size() + 1, key + ".") == 0)) continue;
      Regs a(real), m(model);
      O[k].real(a.data()); O[k].model(m.data()); R.step();
      bool ok = true; std::string all;
      for (int i = 0; i < 3; ++i) {
        if (ok && !same(a[i], m[i])) { R.fail("%s (from %s | %s | %s): register %d is %s, expected %s", O[k].name.c_str(), text(real[0]).substr(0, 40).c_str(), text(real[1]).substr(0, 40).c_str(), text(real[2]).substr(0, 40).c_str(), i, text(a[i]).c_str(), text(m[i]).c_str()); ok = false; }
        all += text(a[i]) + "|";
      }
      R.state(all);
      if (ok && d > 1) go(a, m, d - 1, key + ".");
    }
  };
  for (int s = 0; s < NS; ++s) for (size_t k = 0; k < O.size(); ++k) {
    if (!R.unit(S("start%d.first%zu", s, k))) continue;
    Regs a, m; for (int i = 0; i < 3; ++i) { a.push_back(val(st[s][i])); m.push_back(val(st[s][i])); }
    // first operation fixed by the unit, the rest enumerated
    if (!R.begin("first") && !R.only) continue;
    Regs a2(a), m2(m); O[k].real(a2.data()); O[k].model(m2.data()); R.step();
    bool ok = true;
    for (int i = 0; i < 3; ++i) if (ok && !same(a2[i], m2[i])) { R.fail("%s on %s, %s, %s: register %d is %s, expected %s", O[k].name.c_str(), st[s][0], st[s][1], st[s][2], i, text(a2[i]).c_str(), text(m2[i]).c_str()); ok = false; }
    if (ok) go(a2, m2, depth - 1, "");
    if (s == 0) R.sample(S("registers -3, 2, 0.25: %s, then every sequence of %d further operations out of %zu", O[k].name.c_str(), depth - 1, O.size()));
  }
  // containers
  const int perm_n = R.thorough ? 7 : 6;
  if (R.unit("containers")) {
    std::vector<int> p; for (int i = 0; i < perm_n; ++i) p.push_back(i);
    do {
      std::string key; for (int i : p) key += char('0' + i);
      if (!R.begin(key)) continue;
      std::vector<e_float> v; for (int i : p) v.push_back(e_float(S("%d.5", i * 1000 - 2000)));
      std::sort(v.begin(), v.end()); R.step();
      for (int i = 0; i < perm_n; ++i) if (v[i] != e_float(S("%d.5", i * 1000 - 2000)) && !(i * 1000 - 2000 < 0 && v[i] < e_float(0))) R.fail("sort: element %d is %s", i, text(v[i]).c_str());
      for (int i = 0; i + 1 < perm_n; ++i) if (v[i + 1] < v[i]) R.fail("sort left the vector unordered");
      // insertion, rotation, removal and reallocation, mirrored on text
      std::vector<e_float> w; std::vector<std::string> t;
      for (int i : p) { size_t at = w.empty() ? 0 : size_t(i) % w.size(); e_float x(i * 3 - 4); w.insert(w.begin() + at, x); t.insert(t.begin() + at, text(x)); R.step(); }
      std::rotate(w.begin(), w.begin() + p[0] % w.size(), w.end()); std::rotate(t.begin(), t.begin() + p[0] % t.size(), t.end());
      w.erase(w.begin() + p[1] % w.size()); t.erase(t.begin() + p[1] % t.size());
      w.erase(std::remove(w.begin(), w.end(), w[p[2] % w.size()]), w.end()); t.erase(std::remove(t.begin(), t.end(), std::string(t[p[2] % t.size()])), t.end());
      std::reverse(w.begin(), w.end()); std::reverse(t.begin(), t.end());
      for (size_t i = 0; i < std::max(w.size(), t.size()); ++i) if (i >= w.size() || i >= t.size() || text(w[i]) != t[i]) { R.fail("vector element %zu differs after insert/rotate/erase/remove/reverse", i); break; }
      R.state(key);
    } while (std::next_permutation(p.begin(), p.end()));
  }
  return R.finish();
}
