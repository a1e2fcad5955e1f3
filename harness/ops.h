// Named operations of the whole library, each from two operands to a printed result.
// Used by the history (P29) and concurrency (P30) explorations.
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include <cstddef>
struct VerifOp { const char* name; int weight; };            // weight 0: light, 1: several ms
extern "C" {
  size_t verif_ops(const VerifOp** list);
  // runs operation i; operands==nullptr: builds its own from text, otherwise those of verif_operands()
  // the result is written to out (zero terminated, at most n)
  void verif_op(size_t i, void* operands, char* out, size_t n);
  void* verif_operands();
  // the operands verif_op builds: 0 the usual ones, up to verif_variants() others that resemble them
  extern int verif_variant; int verif_variants();
}
#endif
