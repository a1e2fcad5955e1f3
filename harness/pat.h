// Operand alphabets shared by the harnesses.
#ifndef VERIF_PAT_H
#define VERIF_PAT_H
#include "ef.h"
inline std::string repn(const std::string& s, long n) { std::string r; while ((long)r.size() < n) r += s; return r.substr(0, n); }
// digit strings chosen for carries, borrows, limb boundaries and full precision
inline std::vector<std::string> digit_patterns(bool full) {
  const long D = D10;
  std::vector<std::string> p = {
    "1", "5", "99999999", "100000001", repn("9", D), "1" + std::string(D - 2, '0') + "1",
    repn("9999999900000000", D - 1) + "7", repn("31415926535897932384626433832795028841971", D - 1) + "3"};
  if (full) {
    for (std::string s : {std::string("9"), std::string("12345678"), repn("9", 16), "1" + std::string(15, '0') + "1", repn("9", D - 1), repn("9", D - 8),
                          "4" + repn("9", D - 1), "5" + std::string(D - 2, '0') + "1", std::string("1") + repn("0000000199999999", D - 1), repn("1234567890", 30), "2" + std::string(D / 2, '0') + "3"})
      p.push_back(s);
  }
  return p;
}
// all vectors of n base-10^8 limbs over the alphabet {0, 1, 5*10^7, 10^8-1} with a non-zero first limb, optionally followed by a full-precision tail
inline std::vector<std::string> limb_vectors(int n, const std::vector<std::string>& alpha = {"00000000", "00000001", "50000000", "99999999"}) {
  std::vector<std::string> out = {""};
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> nx;
    for (auto& s : out) for (auto& a : alpha) if (i || a != "00000000") nx.push_back(s + a);
    out = nx;
  }
  return out;
}
#endif
