// Addition / subtraction against exact decimal arithmetic.
#include "pat.h"

static std::vector<std::string> patterns(bool full) { return digit_patterns(full); }
// exact where the result needs no more digits than the type guarantees
static Dec slack_of(const Dec& w, const Dec& a, const Dec& b) {
  Dec n = w; n.norm();
  bool exact = DECIMAL ? (n.digits() <= D10) : (n.e >= 0 && a.e >= 0 && b.e >= 0 && n.order() < D10);
  if (exact) return Dec(0);
  Dec s = rel(w);
  if (!DECIMAL) s = ref::add(s, ref::add(rel(a, D10 + 8), rel(b, D10 + 8)));
  return s;
}

static void check(Run& R, const char* what, const e_float& r, const Dec& want, const Dec& slack) {
  R.step();
  Val o = observe(r);
  if (o.cls == 0) R.state(o.d.norm().str());
  if (!near(o, want, slack)) R.fail("%s: library %s, exact %s", what, o.brief().c_str(), want.brief().c_str());
}

static void pairs(Run& R) {
  auto P = patterns(true);
  const long K = D10 + 34;
  std::vector<long> offs = R.thorough ? std::vector<long>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<long>{0, 5};
  for (size_t ia = 0; ia < P.size(); ++ia) for (long off : offs) {
    if (!R.unit(S("pair.a%zu.o%ld", ia, off))) continue;
    Dec a(Z(P[ia]), off); e_float ea = make(a);
    for (size_t ib = 0; ib < P.size(); ++ib)
      for (long k = -K; k <= K; k += 1) {
        // quick: all alignments near limb and precision boundaries, every third elsewhere
        if (!R.thorough && labs(k) > 26 && labs(k) < D10 - 10 && k % 3 != 0) continue;
        if (!R.begin(S("b%zu.k%ld", ib, k))) continue;
        Dec b(Z(P[ib]), off + k + (long)P[ia].size() - (long)P[ib].size());
        e_float eb = make(b);
        Dec sum = ref::add(a, b), dif = ref::sub(a, b);
        Dec ss = slack_of(sum, a, b), ds = slack_of(dif, a, b);
        e_float s1 = ea + eb, d1 = ea - eb;
        check(R, "a+b", s1, sum, ss);
        check(R, "a-b", d1, dif, ds);
        e_float t;
        t = eb; t += ea; R.step(); if (t != s1) check(R, "b+=a", t, sum, ss);
        t = ea; t -= eb; R.step(); if (t != d1) check(R, "a-=b", t, dif, ds);
        t = eb - ea;     R.step(); if (-t != d1) check(R, "b-a", t, -dif, ds);
        t = -ea; t -= eb; R.step(); if (-t != s1) check(R, "-a-b", t, -sum, ss);
        t = (-ea) + eb;  R.step(); if (-t != d1) check(R, "-a+b", t, -dif, ds);
      }
    R.sample(S("a=%s: all alignments of %zu operand patterns", a.brief().c_str(), P.size()));
  }
}

// chains of length 2: a o1 b o2 c, with the error of step one carried by the model
static void chains(Run& R) {
  auto P = patterns(false);
  const long D = D10;
  std::vector<long> ks = {-(D + 8), -D, -9, -1, 0, 1, 8, 15, D - 8, D, D + 17};
  if (R.thorough) for (long k = -D - 24; k <= D + 24; k += 5) ks.push_back(k);
  for (size_t ia = 0; ia < P.size(); ++ia) for (size_t ib = 0; ib < P.size(); ++ib) {
    if (!R.unit(S("chain.a%zu.b%zu", ia, ib))) continue;
    for (size_t kb = 0; kb < ks.size(); ++kb) for (int o1 = 0; o1 < 2; ++o1) {
      Dec a(Z(P[ia]), 3), b(Z(P[ib]), 3 + ks[kb]);
      if (o1) b = -b;
      Dec w1 = ref::add(a, b), e1 = slack_of(w1, a, b);
      e_float v1 = make(a) + make(b);
      std::vector<std::pair<Dec, std::string>> cs;
      for (size_t ic = 0; ic < P.size(); ++ic) for (size_t kc = 0; kc < ks.size(); kc += (R.thorough ? 1 : 2)) cs.push_back({Dec(Z(P[ic]), 3 + ks[kc]), S("c%zu.k%zu", ic, kc)});
      for (long n : {1L, 8L, 9L, D / 2, D - 1, D}) cs.push_back({ref::trunc_sig(w1, n), S("cancel%ld", n)});   // cancel the leading digits
      cs.push_back({a, "ca"}); cs.push_back({b, "cb"});
      for (auto& c : cs) for (int o2 = 0; o2 < 2; ++o2) {
        if (!R.begin(S("k%zu.%c.%s.%c", kb, o1 ? '-' : '+', c.second.c_str(), o2 ? '-' : '+'))) continue;
        Dec cc = o2 ? -c.first : c.first;
        Dec w2 = ref::add(w1, cc);
        Dec sl = ref::add(slack_of(w2, w1, cc), e1);
        if (!e1.zero()) sl = ref::add(sl, rel(w2));
        e_float t(v1);
        if (o2) t -= make(c.first); else t += make(c.first);
        check(R, "(a+b)+c", t, w2, sl);
      }
    }
  }
}

int main(int argc, char** argv) { Run R(argc, argv); pairs(R); chains(R); return R.finish(); }
