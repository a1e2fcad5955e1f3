// The dynamic array under every e_float (P32): all states of two arrays up to a length, all operations in
// every state, in lock step with std::vector; elements and memory are tracked one by one.
#include "mc.h"
#include <cstddef>
#include <cstdint>
#include <utility/util_dynamic_array.h>
#include <e_float/detail/e_float_detail_dynamic_array.h>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <sstream>
using namespace mc; using std::string; using std::vector;
static string trouble; static void bad(const char* s) { if (trouble.empty()) trouble = s; }
// ---- memory and elements
static std::map<char*, size_t> blocks; static std::set<const void*> alive;
template<class T> struct Mem {
  typedef T value_type; Mem() { } template<class U> Mem(const Mem<U>&) { } template<class U> struct rebind { typedef Mem<U> other; };
  T* allocate(size_t n) { char* p = (char*)::operator new(n * sizeof(T) + 32); memset(p, 0xA5, n * sizeof(T) + 32); blocks[p + 16] = n; return (T*)(p + 16); }
  void deallocate(T* q, size_t n) { char* p = (char*)q; if (!p && !n) return; auto i = blocks.find(p); if (i == blocks.end()) { bad("memory released that was not allocated"); return; } if (i->second != n) bad("memory released with another size"); for (int k = 0; k < 16; ++k) if ((unsigned char)p[k - 16] != 0xA5 || (unsigned char)p[n * sizeof(T) + k] != 0xA5) bad("write outside of the array"); for (auto a : alive) if ((char*)a >= p && (char*)a < p + n * sizeof(T)) bad("memory released with living elements"); blocks.erase(i); ::operator delete(p - 16); }
  bool operator==(const Mem&) const { return true; } bool operator!=(const Mem&) const { return false; }
};
struct E {                                              // an element that knows whether it exists
  int v; E() : v(0) { born(); } E(int x) : v(x) { born(); } E(const E& o) : v(o.get()) { born(); }
  ~E() { if (!alive.erase(this)) bad("element destroyed that does not exist"); v = -77; }
  E& operator=(const E& o) { if (!alive.count(this)) bad("assignment to an element that does not exist"); v = o.get(); return *this; }
  int get() const { if (!alive.count(this)) bad("use of an element that does not exist"); return v; }
  void born() { if (!alive.insert(this).second) bad("element constructed twice"); }
  bool operator==(const E& o) const { return get() == o.get(); } bool operator<(const E& o) const { return get() < o.get(); } bool operator!=(const E& o) const { return !(*this == o); }
};
static int val(const E& e) { return e.get(); } static int val(const string& s) { return s.empty() ? 0 : atoi(s.c_str()); } template<class T> static int val(const T& t) { return (int)t; }
template<class T> static T mk(int x) { return T(x); } template<> string mk<string>(int x) { return S("%d has more characters than fit into a short string", x); }
template<class T> struct V { static vector<T> of(const vector<int>& m) { vector<T> r; for (int x : m) r.push_back(mk<T>(x)); return r; } };
typedef vector<int> M; struct St { M a, b; bool operator<(const St& o) const { return a != o.a ? a < o.a : b < o.b; } };
static string show(const M& m) { string s = "["; for (int x : m) s += S("%d ", x); return s + "]"; }
template<class A> static M read(const A& a) { M m; for (auto i = a.begin(); i != a.end(); ++i) m.push_back(val(*i)); return m; }

// ---- operations; each changes the arrays and the model the same way, and looks at the answers
template<class T, class A> struct Ops {
  typedef std::function<void(A&, A&, St&)> F; vector<std::pair<string, F>> L;
  static void need(bool c, const char* w) { if (!c) bad(w); }
  Ops(int maxn, int maxv) {
    for (int n = 0; n <= maxn; ++n) { L.push_back({S("construct(%d)", n), [n](A& a, A&, St& s) { a = A((typename A::size_type)n); s.a = M(n, 0); }});
      for (int v = 1; v <= maxv; ++v) L.push_back({S("construct(%d,%d)", n, v), [n, v](A& a, A&, St& s) { A t((typename A::size_type)n, mk<T>(v)); need(read(t) == M(n, v), "constructed array"); a = t; s.a = M(n, v); }}); }
    for (int v = 1; v <= maxv; ++v) L.push_back({S("fill(%d)", v), [v](A& a, A&, St& s) { a.fill(mk<T>(v)); for (int& x : s.a) x = v; }});
    for (int i = 0; i < maxn; ++i) for (int v = 1; v <= maxv; ++v) {
      L.push_back({S("a[%d]=%d", i, v), [i, v](A& a, A&, St& s) { if (i < (int)s.a.size()) { a[i] = mk<T>(v); s.a[i] = v; } }});
      L.push_back({S("at(%d)=%d", i, v), [i, v](A& a, A&, St& s) { if (s.a.empty()) return; a.at(i) = mk<T>(v); s.a[i < (int)s.a.size() ? i : 0] = v; }}); }
    for (int v = 1; v <= maxv; ++v) { L.push_back({S("front=%d", v), [v](A& a, A&, St& s) { if (!s.a.empty()) { a.front() = mk<T>(v); s.a.front() = v; } }}); L.push_back({S("back=%d", v), [v](A& a, A&, St& s) { if (!s.a.empty()) { a.back() = mk<T>(v); s.a.back() = v; } }}); }
    L.push_back({"a=b", [](A& a, A& b, St& s) { A& r = (a = b); need(&r == &a, "result of assignment"); s.a = s.b; }});
    L.push_back({"b=a", [](A& a, A& b, St& s) { b = a; s.b = s.a; }});
    L.push_back({"a=a", [](A& a, A&, St&) { A& r = a; a = r; }});
    L.push_back({"a=move(b)", [](A& a, A& b, St& s) { A& r = (a = std::move(b)); need(&r == &a, "result of move assignment"); s.a = s.b; s.b = M(); need(b.empty() && b.size() == 0, "moved-from array"); }});
    L.push_back({"b=move(a)", [](A& a, A& b, St& s) { b = std::move(a); s.b = s.a; s.a = M(); }});
    L.push_back({"a=move(a)", [](A& a, A&, St&) { A& r = a; a = std::move(r); }});
    L.push_back({"copy b", [](A& a, A& b, St& s) { A t(b); need(read(t) == s.b && t.size() == s.b.size(), "copy"); a = std::move(t); s.a = s.b; }});
    L.push_back({"move b", [](A& a, A& b, St& s) { A t(std::move(b)); need(b.empty(), "moved-from array"); need(read(t) == s.b, "moved array"); a.swap(t); s.a = s.b; s.b = M(); }});
    L.push_back({"a.swap(b)", [](A& a, A& b, St& s) { a.swap(b); std::swap(s.a, s.b); }});
    L.push_back({"a.swap(move(b))", [](A& a, A& b, St& s) { a.swap(std::move(b)); std::swap(s.a, s.b); }});
    L.push_back({"swap(a,b)", [](A& a, A& b, St& s) { using util::swap; swap(a, b); std::swap(s.a, s.b); }});
    L.push_back({"std::swap", [](A& a, A& b, St& s) { std::swap<A>(a, b); std::swap(s.a, s.b); }});
    L.push_back({"a.swap(a)", [](A& a, A&, St&) { a.swap(a); }});
    L.push_back({"range of b", [](A& a, A& b, St& s) { A t(b.begin(), b.end()); need(read(t) == s.b, "array from a range"); a = t; s.a = s.b; }});
    L.push_back({"reverse range of b", [](A& a, A& b, St& s) { A t(b.rbegin(), b.rend()); M r(s.b.rbegin(), s.b.rend()); need(read(t) == r, "array from a reverse range"); a = t; s.a = r; }});
    L.push_back({"list of b", [](A& a, A& b, St& s) { std::list<T> l(b.begin(), b.end()); A t(l.begin(), l.end()); need(read(t) == s.b, "array from a list"); a = t; s.a = s.b; }});
    L.push_back({"{1,2,1}", [maxn](A& a, A&, St& s) { if (maxn < 3) return; A t({mk<T>(1), mk<T>(2), mk<T>(1)}); need(read(t) == M({1, 2, 1}), "array from an initializer list"); a = std::move(t); s.a = M{1, 2, 1}; }});
    L.push_back({"{}", [](A& a, A&, St& s) { A t(std::initializer_list<T>{}); need(t.empty(), "array from an empty initializer list"); a = t; s.a = M(); }});
  }
};
template<class A> static void look(const A& a, const M& m, const A& b, const M& n) {
  auto need = [](bool c, const char* w) { if (!c) bad(w); };
  need(read(a) == m, "elements"); need(a.size() == m.size() && a.max_size() == m.size() && a.empty() == m.empty(), "size");
  need(a.end() - a.begin() == (ptrdiff_t)m.size() && a.cbegin() == a.begin() && a.cend() == a.end() && a.data() == a.begin(), "iterators");
  { M r; for (auto i = a.rbegin(); i != a.rend(); ++i) r.push_back(val(*i)); need(r == M(m.rbegin(), m.rend()), "reverse iteration"); M c; for (auto i = a.crbegin(); i != a.crend(); ++i) c.push_back(val(*i)); need(c == r, "constant reverse iteration"); }
  if (!m.empty()) { need(val(a.front()) == m.front() && val(a.back()) == m.back(), "front and back"); for (size_t i = 0; i < m.size() + 2; ++i) { if (i < m.size()) need(val(a[i]) == m[i], "element"); need(val(a.at(i)) == m[i < m.size() ? i : 0], "at"); } }
  need((a == b) == (m == n), "operator=="); need((a != b) == (m != n), "operator!="); need((a < b) == (m < n), "operator<"); need((a > b) == (m > n), "operator>"); need((a <= b) == (m <= n), "operator<="); need((a >= b) == (m >= n), "operator>=");
}
template<class T, class A> static void explore(Run& R, const char* type, int maxn, int maxv) {
  Ops<T, A> O(maxn, maxv); std::map<St, vector<int>> path; std::deque<St> q; St s0; path[s0] = {}; q.push_back(s0);
  if (!R.unit(type)) return;
  while (!q.empty()) {
    St st = q.front(); q.pop_front(); const vector<int> pre = path[st]; R.state(S("%s %s%s", type, show(st.a).c_str(), show(st.b).c_str()));
    for (size_t k = 0; k < O.L.size(); ++k) {
      string key; for (int i : pre) key += O.L[i].first + ";"; key += O.L[k].first; St s; trouble.clear(); const size_t nb = blocks.size(), na = alive.size();
      { A a, b; for (int i : pre) O.L[i].second(a, b, s); O.L[k].second(a, b, s); look(a, s.a, b, s.b); look(b, s.b, a, s.a); look(a, s.a, a, s.a); look(b, s.b, b, s.b); }
      if (blocks.size() != nb) bad("memory is lost"); if (alive.size() != na) bad("elements are lost"); blocks.clear(); alive.clear();
      R.step();
      if (R.begin(key) && !trouble.empty()) { R.fail("%s: %s (expected a=%s b=%s)", type, trouble.c_str(), show(s.a).c_str(), show(s.b).c_str()); if (trouble.find("lost") == string::npos) continue; }
      if (!path.count(s) && (int)s.a.size() <= maxn && (int)s.b.size() <= maxn) { auto p = pre; p.push_back((int)k); path[s] = p; q.push_back(s); }
    }
  }
}
// the array of fixed length: missing elements are zero, further ones are dropped
template<class T> static void fixed(Run& R, const char* type) {
  typedef ef::detail::fixed_dynamic_array<T, 3, Mem<T>> A; if (!R.unit(S("fixed.%s", type))) return;
  auto pad = [](M m) { m.resize(3, 0); return m; };
  auto run = [&](const string& key, const std::function<void()>& f) { trouble.clear(); blocks.clear(); alive.clear(); f(); if (!blocks.empty()) bad("memory is lost"); if (!alive.empty()) bad("elements are lost"); R.step(); R.state(type + key); if (R.begin(key) && !trouble.empty()) R.fail("%s: %s", type, trouble.c_str()); };
  auto need = [](bool c, const char* w) { if (!c) bad(w); };
  run("default", [&] { A a; need(read(a) == M(3, 0) && a.size() == 3 && A::static_size() == 3, "default"); });
  for (int n = 0; n <= 5; ++n) for (int v = 0; v <= 2; ++v) run(S("(%d,%d)", n, v), [&] { A a(n, mk<T>(v)); M m(std::min(n, 3), v); need(read(a) == pad(m), "count and value"); });
  for (int n = 0; n <= 5; ++n) run(S("(%d)", n), [&] { A a((typename A::size_type)n); need(read(a) == M(3, 0), "count"); });
  run("{}", [&] { A a(std::initializer_list<T>{}); need(read(a) == M(3, 0), "list"); }); run("{1}", [&] { A a({mk<T>(1)}); need(read(a) == pad({1}), "list"); });
  run("{1,2}", [&] { A a({mk<T>(1), mk<T>(2)}); need(read(a) == pad({1, 2}), "list"); }); run("{1,2,3}", [&] { A a({mk<T>(1), mk<T>(2), mk<T>(3)}); need(read(a) == M({1, 2, 3}), "list"); });
  run("{1,2,3,4}", [&] { A a({mk<T>(1), mk<T>(2), mk<T>(3), mk<T>(4)}); need(read(a) == M({1, 2, 3}), "longer list"); });
  run("copy", [&] { A a({mk<T>(1), mk<T>(2), mk<T>(3)}); A b(a); b[1] = mk<T>(9); need(read(a) == M({1, 2, 3}) && read(b) == M({1, 9, 3}), "copy"); });
  run("assign", [&] { A a({mk<T>(1), mk<T>(2), mk<T>(3)}), b; A& r = (b = a); b[2] = mk<T>(9); need(&r == &b && read(a) == M({1, 2, 3}) && read(b) == M({1, 2, 9}), "assign"); b = b; need(read(b) == M({1, 2, 9}), "self"); });
  run("move", [&] { A a({mk<T>(1), mk<T>(2), mk<T>(3)}); A b(std::move(a)); need(read(b) == M({1, 2, 3}) && a.empty(), "move"); a = b; need(read(a) == M({1, 2, 3}), "assigned after move"); A c; c = std::move(a); need(read(c) == M({1, 2, 3}), "move assignment"); a = std::move(c); need(read(a) == M({1, 2, 3}), "moved back"); });
  run("swap", [&] { A a({mk<T>(1), mk<T>(2), mk<T>(3)}), b({mk<T>(4)}); std::swap(a, b); need(read(a) == pad({4}) && read(b) == M({1, 2, 3}), "swap"); a.swap(b); need(read(b) == pad({4}), "swap back"); });
}
int main(int argc, char** argv) {
  Run R(argc, argv); const int n = R.thorough ? 4 : 3, v = 2;
  explore<E, util::dynamic_array<E, Mem<E>>>(R, "tracked", n, v);
  explore<int, util::dynamic_array<int, Mem<int>>>(R, "int", n, v);
  explore<std::uint32_t, util::dynamic_array<std::uint32_t, Mem<std::uint32_t>>>(R, "uint32", n, v);
  explore<string, util::dynamic_array<string, Mem<string>>>(R, "string", R.thorough ? 3 : 2, v);
  fixed<E>(R, "tracked"); fixed<std::uint32_t>(R, "uint32"); fixed<double>(R, "double");
  return R.finish();
}
