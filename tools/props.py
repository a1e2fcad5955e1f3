# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py rewrites both).
E = "libs/e_float/src/e_float/"
F = "libs/e_float/src/functions/"
ALLB = [E + "e_float_base.h", E + "e_float_base.cpp", E + "efx/e_float_efx.cpp", E + "gmp/e_float_gmp.cpp", E + "mpfr/e_float_mpfr.cpp"]

def P(id, title, statement, over, text, why, files, mech, observe, level_note, technique, hook="E_FLOAT_VERIF_DIGITS10", state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook, **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                _note=level_note, _tech=technique)

BND = "Exhaustive within the stated operand alphabet and depth on the real library built from /repo in every listed configuration; values outside the alphabet are not covered. Trusts GMP/MPFR as the oracle"
EX = "bounded exhaustive exploration of the real library in lock step with "
PROPS = [
P("P01", "Addition and subtraction agree with exact arithmetic",
  "For all finite numbers a and b, in every back end and digit configuration, a+b and a-b (binary, compound and reversed forms, every sign combination, chained) agree with the exact result to within one unit in the last guaranteed decimal digit (relative error at most 10^-digits10). When the exact result needs no more than digits10 digits (integers, for the binary back ends) the result is exact.",
  ["inputs", "configurations", "programs"], "all operand pairs, exponent alignments, signs and chains of additions",
  "Carry and borrow propagation, alignment beyond the stored limbs and re-normalisation after cancellation depend on specific limb contents and exponent offsets; the tests compare a few dozen function values computed from ordinary arguments.",
  ALLB, [("operator+= / operator-=: limb alignment, carry, borrow, justify", E + "efx/e_float_efx.cpp"), ("mpf_add / mpfr_add wrappers", E + "gmp/e_float_gmp.cpp")],
  ["operator+", "operator-", "operator+=", "operator-=", "stream output"],
  BND, EX + "exact decimal arithmetic"),
P("P02", "Multiplication agrees with exact arithmetic at every precision",
  "For all finite numbers a and b, in every back end and digit configuration (including those large enough that the product is formed by fast Fourier transform), a*b agrees with the exact product to a relative error of at most 10^-digits10, for every sign combination, in place, squared and in chains. When the exact product needs no more than digits10 digits (integers, for the binary back ends) it is exact.",
  ["inputs", "configurations", "programs"], "all operand pairs and lengths, in school and FFT multiplication",
  "Column sums, carries, the final shift and the FFT's rounding margin fail only for particular limb contents (rows of nines, sparse operands, lengths around a limb boundary) and digit counts the test build does not use.",
  ALLB + [E + "detail/e_float_detail_fft.h"], [("operator*=, mul_loop_uv, mul_loop_fft", E + "efx/e_float_efx.cpp"), ("rfft_lanczos_template", E + "detail/e_float_detail_fft.h")],
  ["operator*", "operator*=", "stream output"], BND, EX + "exact integer products"),
P("P03", "Division and reciprocal agree with exact arithmetic",
  "For all finite a and finite non-zero b, in every back end and digit configuration, a/b and the reciprocal of b agree with the exact quotient to a relative error of at most 10^-digits10 and have the right sign. Dividing a number by itself gives exactly one, and (a/b)*b gives a back to the guaranteed digits.",
  ["inputs", "configurations", "programs"], "all operand pairs, lengths and signs",
  "The reciprocal is a Newton iteration whose start value, number of steps and working precision must suffice for every divisor; tests divide by a handful of small integers.",
  ALLB, [("operator/=, calculate_inv (Newton iteration with growing precision)", E + "efx/e_float_efx.cpp")],
  ["operator/", "operator/=", "calculate_inv"], BND, EX + "exact decimal quotients"),
P("P04", "Mixed arithmetic with built-in types agrees with exact arithmetic",
  "For every built-in integer and floating-point type, every value n of it (including the limits of the type) and every finite number u, u+n, n+u, u-n, n-u, u*n, n*u, u/n, n/u and the compound forms agree with the exact result to the guaranteed digits, as if n had been converted exactly first; so do pre/post increment and decrement (which return the new and the old value) and sequences of such operations on one object.",
  ["inputs", "programs"], "all built-in types, all values of them and all multi-precision operands, in sequences",
  "Each type has its own overload set and small-integer fast path (single-limb multiply and divide, carries out of the top limb, unsigned negation of the most negative value); tests use small positive int values.",
  ALLB + [E + "e_float.h"], [("add/sub/mul/div_unsigned_long_long and their signed forms", E + "efx/e_float_efx.cpp"), ("signed forms shared by all back ends", E + "e_float_base.cpp"), ("mixed operator overloads", E + "e_float.h")],
  ["operators with built-in operands", "operator++/--"], BND, EX + "exact decimal arithmetic on every boundary value of every built-in type"),
P("P05", "Infinities and NaN propagate through arithmetic as in IEEE 754",
  "In every back end, every arithmetic operation (+, -, *, /, their compound, reversed and mixed forms with every built-in type, negation, ++ and --, the same object on both sides, and chains of operations) in which an operand is an infinity or NaN, or the divisor is zero, gives the IEEE 754 class of result: NaN is absorbing; inf-inf, 0*inf, inf/inf and 0/0 are NaN; other operations with an infinity give the infinity of the right sign or zero; a non-zero finite number divided by an exact zero is infinite. isfinite, isnan, isinf, iszero, isone, isint, the comparisons and the printed text agree about the class of every object. The sign of zero is unspecified.",
  ["inputs", "programs"], "all combinations of special and finite operands, operand types and operation sequences",
  "Special values are tested first in each operation of each back end by hand-written branches (about fifty of them); every combination of left class, right class, right type and form is its own path and the tests reach few of them.",
  ALLB + [E + "e_float.h"], [("non-finite branches of operator+=, *=, /=, add/mul/div_(un)signed_long_long", E + "efx/e_float_efx.cpp"), ("the same in the GMP wrapper, which has no non-finite values of its own", E + "gmp/e_float_gmp.cpp"), ("signed forms", E + "e_float_base.cpp")],
  ["operators", "isfinite", "isnan", "isinf", "stream output"], BND, EX + "an IEEE 754 class model over every chain of operations on special and finite values"),
P("P06", "Values are independent: copy, move, swap, assignment and aliasing",
  "e_float behaves as a value: after any sequence of constructions, copies, moves, assignments (also to itself and to moved-from objects), swaps, compound operations with the same object on both sides, and operations inside containers, every object holds exactly the value that the same sequence gives on independent numbers, no operation changes an operand that it does not assign to, and a result never depends on whether its operands are the same object. Copies and assignments preserve all digits, guard digits included, and no operation accesses memory out of bounds or terminates the program.",
  ["programs", "histories"], "all sequences of operations over a set of objects, in all aliasing patterns",
  "Aliasing, self-assignment and moved-from states only matter in particular sequences; the tests use each object once.",
  ALLB + [E + "e_float.h"], [("copy, move and assignment of the limb array", E + "efx/e_float_efx.cpp"), ("mpf_t / mpfr_t ownership", E + "gmp/e_float_gmp.cpp"), ("mpfr ownership", E + "mpfr/e_float_mpfr.cpp")],
  ["copy/move constructor and assignment", "std::swap", "compound operators"], BND, EX + "a register machine of independent values over all operation sequences"),
P("P07", "Overflow, underflow and numeric_limits are consistent",
  "At the ends of the exponent range every operation (with e_float and built-in operands) either returns the correct value or, beyond the range, the infinity of the right sign; results of magnitude up to numeric_limits<e_float>::max() are correct to the guaranteed digits, results below min() are zero or correct, and neither becomes a wrong finite number. max, min, lowest, epsilon, infinity and quiet_NaN have their documented meaning (lowest() is -max(), 1+epsilon() is the neighbour of 1 to within the guaranteed digits, max() is finite and larger than every other finite decimal of digits10 digits, multiplying it by 10 overflows), the static members agree with the configuration, and text whose exponent lies beyond the range reads as infinity or zero.",
  ["inputs", "configurations"], "all operand pairs whose result is near or beyond either end of the exponent range",
  "Range checks happen before or after the exponent is adjusted by a limb, so only operands within one limb of the boundary tell them apart; the tests stay near one.",
  ALLB + [E + "e_float.h"], [("exponent range checks in operator*=, calculate_inv, mul_unsigned_long_long, rd_string", E + "efx/e_float_efx.cpp"), ("range checks", E + "gmp/e_float_gmp.cpp"), ("numeric_limits<e_float>", E + "e_float.h")],
  ["operators", "numeric_limits<e_float>", "string construction"], BND, EX + "exact arithmetic on every pair of values around the ends of the exponent range"),
P("P08", "Comparison is the exact total order of the values; classification is exact",
  "For all finite numbers a and b (and built-in values n), exactly one of a<b, a==b, a>b holds and all six relational operators, cmp and compare agree with the order of the exact values, in both operand orders and for every built-in type. iszero, isone, isint, isneg, ispos, isfinite, isnan, isinf, sgn, fabs, negation, real, imag and order describe the value exactly.",
  ["inputs"], "all pairs of representable numbers, and of numbers and built-in values",
  "Two numbers can differ in any single limb at any exponent, and comparison short-cuts on sign, exponent and leading limb; tests compare a few well separated values.",
  ALLB + [E + "e_float.h", F + "elementary/elementary_math.cpp"], [("cmp, cmp_data", E + "efx/e_float_efx.cpp"), ("relational overloads", E + "e_float.h"), ("isone/isint/iszero/isneg", E + "efx/e_float_efx.cpp")],
  ["operator<", "operator==", "cmp", "isint", "isone", "sgn"], BND, EX + "the exact order of decimal values"),
P("P09", "Conversion to and from built-in types",
  "Construction from any normal or zero value of any built-in integer or floating-point type represents it exactly (integers, and floating-point values with no more decimal digits than guaranteed) or to the guaranteed digits (other floating-point values), with its sign, and conversion back returns the same value. Conversion of any finite number to 32- and 64-bit signed and unsigned integers truncates toward zero and saturates at the limits of the type (a negative number converts to unsigned through the signed type); conversion to double and long double gives the value within one unit in the last place, infinity beyond the largest value and a value no larger than the smallest normal one below it; mantissa/exponent parts reproduce the value. A number made from a mantissa and a decimal exponent, or from a list of 8-digit elements, is the value they denote (infinity or zero beyond the range), in the same representation as if it had been read.",
  ["inputs"], "all values of all built-in types, and all numbers converted to them",
  "The conversions scale and split limbs by magnitude, so that each power of two and ten, each limb boundary and each type limit is its own case.",
  ALLB + [F + "elementary/elementary_math.cpp"], [("from_unsigned_long_long, from_long_double, extract_*", E + "efx/e_float_efx.cpp"), ("to_double/to_int64/to_int32/to_parts", F + "elementary/elementary_math.cpp")],
  ["constructors", "extract_double", "extract_long_double", "extract_signed_long_long", "extract_unsigned_long_long", "extract_parts"], BND, EX + "exact integer and binary conversion"),
P("P10", "Reading decimal text yields the denoted value",
  "Any decimal numeral (optional sign; digits with an optional decimal point at any position; optional exponent introduced by e or E with optional sign; leading and trailing zeros; any length) read by either constructor or by operator>> yields the number it denotes: exactly if it has at most digits10 significant digits (integers, for the binary back ends), otherwise to the guaranteed digits. An exponent beyond the range of the type, however long, gives infinity with the sign of the numeral, or zero. This holds whatever the target object held before (including infinities and NaN), for successive tokens of one stream, and without accumulating storage.",
  ["inputs", "histories"], "all spellings of all decimal numerals, and all earlier contents of the object",
  "The parser moves the decimal point to a limb boundary, pads, truncates and adjusts the exponent; the outcome depends on digit count, point position and exponent modulo eight.",
  ALLB, [("rd_string", E + "efx/e_float_efx.cpp"), ("rd_string", E + "gmp/e_float_gmp.cpp"), ("operator>>", E + "e_float_base.cpp")],
  ["e_float(const char*)", "e_float(const std::string&)", "operator>>"], BND, EX + "the exact value of every enumerated spelling"),
P("P11", "Stream output is the correctly rounded value in the requested format",
  "For every finite number, every precision, every floatfield (scientific, fixed, default), showpoint, showpos, uppercase, width, fill and left/right adjustment, operator<< prints the nearest decimal value with the requested number of digits (beyond max_digits10, zeros), with the number of decimals, the sign, the exponent field (sign, at least three digits, a multiple of three) and the padding the format calls for; in the default format the precision counts significant digits, trailing zeros are dropped unless showpoint is set, and scientific style is used for orders below -4 or at or above the larger of the precision and six (at most digits10). inf and nan honour sign, case and width. Stream flags, precision and fill are unchanged afterwards and the width is reset.",
  ["inputs", "configurations"], "all numbers under all format settings",
  "Rounding carries, decimal-point placement and padding depend jointly on value, order and precision; the tests print pi and a few powers of ten.",
  [E + "e_float_base.cpp"] + ALLB[2:], [("wr_string, wr_string_fixed, wr_string_scientific", E + "e_float_base.cpp"), ("get_output_string", E + "efx/e_float_efx.cpp")],
  ["operator<<"], BND, EX + "a format specification checked on every value x format combination"),
P("P12", "Printing and reading back are inverse",
  "A number with at most digits10 significant digits, printed with digits10 digits and read back, is the same number and shows exactly the same digits. For any number (also a computed one carrying guard digits), in any floatfield and precision, reading the printed text and printing it again in the same format reproduces the text (in the default format, its value).",
  ["inputs", "histories"], "all numbers and formats",
  "Output rounding and input truncation have to agree for every digit string and exponent.",
  [E + "e_float_base.cpp"] + ALLB[2:], [("get_output_string / rd_string", E + "efx/e_float_efx.cpp"), ("wr_string", E + "e_float_base.cpp")],
  ["operator<<", "operator>>"], BND, EX + "the printed text (print, read, print again)"),
P("P13", "Integer parts, remainders and binary scaling are exact",
  "For every finite x: integer_part truncates toward zero, decimal_part is x minus its integer part, floor and ceil are the neighbouring integers, with both signs and whatever the position of the decimal point among the stored digits (exact for numbers of at most digits10 digits). fmod(a,b) is a - trunc(a/b)*b with the sign of a and magnitude below |b| (exact when a and b together span at most digits10 digits), NaN for b=0 or infinite a, and a for infinite b. frexp gives a mantissa in [1/2,1) and an exponent that reproduce the value, ldexp multiplies by a power of two. Infinities and NaN pass through floor, ceil and integer_part.",
  ["inputs"], "all numbers and pairs of numbers", "The fractional digits are cleared limb by limb and remainders depend on the rounding of a quotient that is exactly or almost an integer; tests use a few ordinary values.",
  ALLB + [F + "elementary/elementary_math.cpp"], [("floor, ceil, fmod, ldexp, frexp", F + "elementary/elementary_math.cpp"), ("extract_integer_part, extract_decimal_part", E + "efx/e_float_efx.cpp")],
  ["ef::floor", "ef::ceil", "ef::integer_part", "ef::decimal_part", "ef::fmod", "ef::ldexp", "ef::frexp"], BND, EX + "exact decimal integer arithmetic"),
P("P14", "Square roots and n-th roots are correct",
  "sqrt (and calculate_sqrt), cbrt, rootn(x,p) and rootn_inverse(x,p) (the reciprocal of rootn) of every positive finite x, for every non-zero order p of either sign, are within one unit in the last guaranteed digit (relative 10^-digits10) of the exact value at some argument that differs from the given one by at most that much, for all magnitudes and at every precision configuration; exact squares have exact roots to the guaranteed digits. The roots of zero are zero and of infinity infinite (reciprocals for negative orders), even roots of negative numbers and roots of NaN are NaN; every call terminates. Odd roots of negative numbers are unspecified.",
  ["inputs", "configurations"], "all arguments of the functions, in every back end and digit configuration",
  "Each function switches between series, Newton iterations, argument reductions and special values by magnitude; errors concentrate at the switches, near zeros and poles, and at sizes the tests do not sample.",
  ALLB[2:] + [F + "elementary/elementary_trans.cpp"], [("calculate_sqrt (coupled Newton iteration with growing precision)", E + "efx/e_float_efx.cpp"), ("rootn, rootn_inverse, rootn_inv", F + "elementary/elementary_trans.cpp")],
  ["ef::sqrt", "ef::cbrt", "ef::rootn", "ef::rootn_inverse"], BND, EX + "MPFR at more than twice the precision"),
P("P15", "Exponential, logarithm and power functions are correct",
  "exp, log, log10, loga, log1p, pow(x,a) for real a, pow(x,n) for integer n and pow2(n) are within one unit in the last guaranteed digit (relative 10^-digits10) of the exact value at some argument that differs from the given one by at most that much, for arguments of every magnitude and sign in the domain, including near the zeros of the logarithm, with tiny and huge exponents, and up to results at the ends of the range (beyond which they are infinite or zero). Outside the domain the result is NaN; zero, infinities and NaN give the limits of the functions as in IEEE 754 (log(0) is -infinity, pow(x,0) is one). Integer powers of zero with negative exponent are unspecified in sign.",
  ["inputs", "configurations"], "all arguments of the functions, in every back end and digit configuration",
  "Each function switches between series, Newton iterations, argument reductions and special values by magnitude; errors concentrate at the switches, near zeros and poles, and at sizes the tests do not sample.",
  ALLB[2:] + [F + "elementary/elementary_trans.cpp", E + "detail/e_float_detail_pown_template.h"], [("exp, log, log1p, pow, pow2", F + "elementary/elementary_trans.cpp"), ("pown_template", E + "detail/e_float_detail_pown_template.h"), ("hypergeometric_0f0 / 1f0 series", F + "elementary/elementary_hyper_g.cpp")],
  ["ef::exp", "ef::log", "ef::log10", "ef::loga", "ef::log1p", "ef::pow", "ef::pow2"], BND, EX + "MPFR at more than twice the precision"),
P("P16", "Trigonometric functions and their inverses are correct",
  "sin, cos, sincos, tan, csc, sec, cot of every argument below 10^digits10 in magnitude, and asin, acos, atan, atan2 of every argument (in every quadrant), are within one unit in the last guaranteed digit (relative 10^-digits10) of the exact value at some argument that differs from the given one by at most that much, including near multiples of pi/2, near +-1, and for tiny and huge arguments; sincos agrees with sin and cos whichever results are requested. Arguments outside the domain, infinities (except for atan and atan2, which give the limits) and NaN give NaN. The sign of zero and of poles at zero is unspecified.",
  ["inputs", "configurations"], "all arguments of the functions, in every back end and digit configuration",
  "Each function switches between series, Newton iterations, argument reductions and special values by magnitude; errors concentrate at the switches, near zeros and poles, and at sizes the tests do not sample.",
  ALLB[2:] + [F + "elementary/elementary_trig.cpp"], [("sin/cos argument reduction, series and tripling", F + "elementary/elementary_trig.cpp"), ("asin/atan series and Newton iteration, atan2 quadrants", F + "elementary/elementary_trig.cpp")],
  ["ef::sin", "ef::cos", "ef::tan", "ef::asin", "ef::acos", "ef::atan", "ef::atan2", "ef::sincos"], BND, EX + "MPFR at more than twice the precision"),
P("P17", "Hyperbolic functions and their inverses are correct",
  "sinh, cosh, sinhcosh, tanh, asinh, acosh and atanh are within one unit in the last guaranteed digit (relative 10^-digits10) of the exact value at some argument that differs from the given one by at most that much, for arguments of every magnitude (tiny arguments without cancellation, huge ones up to the range, near one for acosh and atanh); sinhcosh agrees with sinh and cosh whichever results are requested. Arguments outside the domain give NaN, infinities the limits of the functions, atanh(+-1) the infinity of that sign.",
  ["inputs", "configurations"], "all arguments of the functions, in every back end and digit configuration",
  "Each function switches between series, Newton iterations, argument reductions and special values by magnitude; errors concentrate at the switches, near zeros and poles, and at sizes the tests do not sample.",
  ALLB[2:] + [F + "elementary/elementary_trans.cpp"], [("sinhcosh, tanh, asinh, acosh, atanh, log1p1m2", F + "elementary/elementary_trans.cpp")],
  ["ef::sinh", "ef::cosh", "ef::tanh", "ef::asinh", "ef::acosh", "ef::atanh"], BND, EX + "MPFR at more than twice the precision"),
P("P18", "Complex arithmetic, comparison, value functions and text I/O are correct",
  "For complex numbers over e_float (in every back end) and over the built-in floating-point types: +, -, *, / and their compound, mixed real/complex, built-in-operand and self-applied (z += z, ...) forms agree with exact complex arithmetic (sums in each part relative to the operands, products and quotients relative to the modulus of the result); equality compares both parts exactly, also with real operands; real, imag, abs, norm, arg, conj, polar, unary signs and assignments have their standard meaning, and operands are not changed. Output is (re,im) with the parts formatted by the stream's own settings and padding applied to the whole; u, (u) and (u,v) read back, text read after printing digits10 digits gives the same number, and malformed input sets failbit, leaves the number unchanged and puts the characters back. Division by zero, non-finite parts, magnitudes whose squares overflow and proj are unspecified.",
  ["inputs", "programs"], "all pairs of complex numbers, real or built-in operands, operation sequences and spellings",
  "Every operation exists in two implementations (generic and specialised), three operand mixes and an aliased form, with branches on the relative size of the parts; the tests print one or two ordinary values.",
  [E + "e_float_complex.h"], [("operator*=, operator/= (Smith's division), aliased forms", E + "e_float_complex.h"), ("operator>> with regular expressions, operator<<", E + "e_float_complex.h")],
  ["ef::complex operators", "ef::abs", "ef::norm", "ef::conj", "operator<<", "operator>>"], BND, EX + "complex MPFR arithmetic"),
P("P19", "Complex elementary functions are correct on the whole plane",
  "exp, log, log10, sqrt, sin, cos, tan, sinh, cosh, tanh, asin, acos, atan, asinh, acosh, atanh and pow (integer, real and complex exponents) of complex numbers over e_float (in every back end) are, relative to the modulus of the result, within one unit in the last guaranteed digit of the principal value at an argument that differs from the given one by at most that much relative to its modulus, in all four quadrants, on the axes, near 0, +-1, +-i and at large and small moduli; for built-in floating-point types within a small multiple of their epsilon. On branch cuts of the inverse functions the value of either side is accepted; log, sqrt and pow of negative reals take the side with positive imaginary part. Powers of zero, poles, signed zeros and arguments whose squares or exponentials overflow are unspecified.",
  ["inputs", "configurations"], "all complex arguments, in every back end and digit configuration",
  "The functions are composed of real functions with cancellation and quadrant choices that go wrong only in parts of the plane; the tests evaluate a few points of the first quadrant.",
  [E + "e_float_complex.h", E + "detail/e_float_detail_pown_template.h"], [("asin, acos, atan, asinh, acosh, atanh, sqrt, log, pow", E + "e_float_complex.h")],
  ["ef::complex elementary functions"], BND, EX + "principal values built from MPFR real functions at more than twice the precision"),
P("P20", "Factorials, binomial coefficients and Pochhammer symbols are correct",
  "factorial(n), factorial2(n) (also of negative odd n; NaN for negative even n), binomial(n,k) for integers (NaN for k > n), binomial with one or two real arguments that are not within rounding of a pole of the gamma quotient, and pochhammer(x,n), pochhammer(x,a) equal the exact value, or the quotient of gamma functions they stand for, to one unit in the last guaranteed digit at an argument that differs by at most that much, for every n up to the last unsigned integer, including on both sides of the ends of the built-in tables, and pochhammer is zero when x is a non-positive integer above -n.",
  ["inputs", "configurations"], "all arguments, in every back end and digit configuration",
  "Values come from tables, recursion, products or the gamma function depending on the argument; the tests use small n far from the switches.",
  [F + "gamma/factorial.cpp", F + "gamma/factorial2.cpp", F + "gamma/pochhammer.cpp", F + "tables/A000142.cpp", F + "tables/A007318.cpp"],
  [("factorial, factorial2, pochhammer", F + "gamma/pochhammer.cpp"), ("tabulated values", F + "tables/A007318.cpp")],
  ["ef::factorial", "ef::factorial2", "ef::binomial", "ef::pochhammer"], BND, EX + "exact GMP integers and MPFR gamma functions"),
P("P21", "Bernoulli numbers, primes and factorizations are correct",
  "bernoulli(n) for every n up to at least 1300 and selected n to 5000, and every entry of bernoulli_table(n), are the Bernoulli numbers (B1 = -1/2, zero for odd n > 1) to the guaranteed digits, on both sides of the table end; prime(n) delivers exactly the first n primes for every n; prime_factors(n) delivers the complete factorization of every 32-bit n in ascending order with multiplicities, each base prime (n itself for n < 2). Results do not depend on what the output container held before.",
  ["inputs", "configurations"], "all numbers, in every back end and digit configuration",
  "Sieve limits, table ends and the trial division's stopping rule matter only for particular numbers (squares of primes, primes near 2^16 and 2^32, list lengths at the sieve size).",
  [F + "integer/bernoulli_b.cpp", F + "integer/prime.cpp", F + "integer/prime_factor.cpp", F + "tables/A000367.cpp", F + "tables/A002445.cpp"], [("sieve, prime_factors", F + "integer/prime_factor.cpp"), ("bernoulli and its table", F + "integer/bernoulli_b.cpp")],
  ["ef::bernoulli", "ef::bernoulli_table", "ef::prime", "ef::prime_factors"], BND, EX + "exact integer arithmetic and MPFR"),
P("P22", "The gamma function of real arguments is correct",
  "gamma(x) is within one unit in the last guaranteed digit of the exact value at some argument that differs from the given one by at most that much, for positive and negative x of every magnitude up to where the result leaves the range, at and between integers and half-integers, and arbitrarily close to poles; at poles (non-positive integers) the result is not finite, gamma(+infinity) is infinite and gamma(NaN) is NaN. gamma_near_n(n,x) is gamma(n+x) with the full precision of a tiny x, and the combined evaluation at +x and -x agrees with gamma of each. gamma(-infinity) is unspecified.",
  ["inputs", "configurations"], "all real arguments, in every back end and digit configuration",
  "Small arguments, reflection, recursion to the asymptotic series and table look-up meet at switch-over points, and relative accuracy is lost only next to poles or at magnitudes the tests do not sample.",
  [F + "gamma/gamma.cpp", F + "gamma/gamma_util.cpp"], [("gamma: reflection, recursion, asymptotic expansion, table", F + "gamma/gamma.cpp"), ("gamma_near_n, GammaUtil", F + "gamma/gamma.cpp")],
  ["ef::gamma", "ef::gamma_near_n"], BND, EX + "MPFR gamma"),
P("P23", "The Riemann zeta function of real arguments is correct",
  "riemann_zeta(s) of every real s (positive, negative, close to the pole at one and to the trivial zeros) and riemann_zeta(n) of every integer n are within one unit in the last guaranteed digit of the exact value at some argument that differs from the given one by at most that much; at s=1 the result is not finite; zeta of negative even integers is zero; the integer and the real overloads agree to that precision.",
  ["inputs", "configurations"], "all real arguments, in every back end and digit configuration",
  "Prime products, accelerated sums, Taylor expansions at one and reflection apply in different ranges and lose digits at their borders; the tests evaluate a few points inside each.",
  [F + "zeta/zeta.cpp"], [("ZetaTemplate / Zeta_Series, reflection, expansion at one", F + "zeta/zeta.cpp")],
  ["ef::riemann_zeta"], BND, EX + "MPFR zeta"),
P("P24", "Gamma, Pochhammer and zeta functions of complex arguments are correct",
  "gamma(z), pochhammer(z,n), pochhammer(z,a) and riemann_zeta(s) of complex arguments (e_float parts, real and imaginary parts up to about 100) are, relative to the modulus of the result, within one unit in the last guaranteed digit of the exact value at an argument that differs from the given one by at most that much relative to its modulus, in all quadrants, with zero or tiny imaginary parts, at and between integers, next to poles and on the critical line. Poles, quotients of poles, and zeta next to the zeros of 1-2^(1-s) are unspecified.",
  ["inputs", "configurations"], "all complex arguments, in every back end and digit configuration",
  "Reflection, recursion, the asymptotic series, table look-up for integers and the accelerated sums each apply in a part of the plane; the tests evaluate a few points.",
  [F + "gamma/gamma.cpp", F + "gamma/pochhammer.cpp", F + "zeta/zeta.cpp"], [("complex gamma and its reflection", F + "gamma/gamma.cpp"), ("complex pochhammer", F + "gamma/pochhammer.cpp"), ("complex zeta", F + "zeta/zeta.cpp")],
  ["ef::gamma", "ef::pochhammer", "ef::riemann_zeta"], BND, EX + "complex Stirling and Euler-Maclaurin expansions in MPFR"),
P("P25", "Every configured number of digits is delivered in full",
  "Whatever number of decimal digits is configured (below 30 counts as 30), in every back end: numeric_limits<e_float> describes the type (digits10, max_digits10 = digits10+1, epsilon = 10^(1-digits10) is the step above one, max, lowest = -max, min, infinity, NaN, round_error); a change of the last guaranteed digit of a number is seen; every named constant (ef::pi, e, ln2, euler_gamma, catalan, khinchin, glaisher, roots, fractions, limits of the built-in types, ...) is right to the last guaranteed digit for up to 1000 digits (ef::pi for any number); and the four operations, square root, text output and input of numbers with digits10 digits, and exp, log, trigonometric, hyperbolic functions and their inverses, roots and powers are right to the last guaranteed digit.",
  ["inputs", "configurations"], "every number of digits the build accepts and all operands of that length",
  "Lengths that leave a partial limb, few or many guard limbs, FFT multiplication or a Newton iteration that needs one more step occur at particular digit counts; the tests are built with one.",
  [E + "e_float_base.h", E + "e_float.h", E + "efx/e_float_efx.h", F + "constants/constants.cpp", F + "elementary/elementary_trans.cpp"], [("ef_digits10, ef_max_digits10, ef_digits10_tol", E + "e_float_base.h"), ("ef_elem_number and FFT limits", E + "efx/e_float_efx.h"), ("constant literals and calculate_pi", F + "constants/constants.cpp"), ("precision doubling of Newton iterations", F + "elementary/elementary_trans.cpp")],
  ["numeric_limits<e_float>", "ef::pi and the other constants", "operators", "elementary functions"], "Exhaustive over the listed configurations and operands on the real library built from /repo for each; configurations not listed are not covered. Trusts GMP/MPFR as the oracle", EX + "exact arithmetic and MPFR, in a build for every listed number of digits"),
P("P26", "Hypergeometric series equal their sums",
  "hypergeometric_0f0, 0f1, 1f0, 1f1, 2f0, 2f1 and pfq of real parameters and arguments (e_float, in every back end), where the series ends or converges within a few thousand terms, equal the exact sum to 10^-digits10 of the sum of the magnitudes of the terms (or to what a change of one parameter or of the argument in its last guaranteed digit makes), whatever the signs, sizes and number of parameters; series that end because an upper parameter is a non-positive integer end there. Lower parameters that are non-positive integers, and series that diverge or converge slowly, are unspecified.",
  ["inputs", "configurations"], "all parameters and arguments for which the series converges, in every back end",
  "Term recurrences and the stopping rule go wrong for terminating series, growing terms or parameters of opposite sign; the tests use them through other functions only.",
  [F + "elementary/elementary_hyper_g.cpp"], [("hypergeometric_0f0 .. 2f1 and pfq", F + "elementary/elementary_hyper_g.cpp")],
  ["ef::hypergeometric_0f0 .. 2f1", "ef::hypergeometric_pfq"], BND, EX + "MPFR partial sums at three times the precision"),
P("P27", "Changing the working precision affects one object, and only as far as asked",
  "precision(n) on an e_float leaves its value right to about n digits (n less a guard limb of 16 digits in the default back end, 3 elsewhere, never more than digits10), later +, -, *, /, operations with integers, comparison, reciprocal and square root of that object right to the smaller of the precisions of the operands, and every other object (copies made before, constants, the operands) at full precision; assignment, move and swap give the object the precision of the new value, and asking for more digits again makes later operations fully precise. Results of the library's functions take part in later arithmetic at full precision.",
  ["inputs", "histories"], "all operands, requested precisions and orders of operations",
  "A lost or leaked working precision shows up only in a later operation on the object; the tests never call precision() nor use results of functions in further full-precision arithmetic.",
  [E + "efx/e_float_efx.cpp", E + "gmp/e_float_gmp.cpp", F + "elementary/elementary_trans.cpp"], [("precision, my_prec_elem in all operations", E + "efx/e_float_efx.cpp"), ("precision, my_prec_elem", E + "gmp/e_float_gmp.cpp"), ("Newton iterations of roots and logarithms", F + "elementary/elementary_trans.cpp")],
  ["e_float::precision", "operators", "elementary functions"], BND, EX + "exact decimal arithmetic"),
P("P28", "Classification helpers agree between double and e_float",
  "For every double (normal, zero, infinite; NaN for the first three), isnan, isinf, isfinite, isneg, ispos, iszero, isone, isint, to_double, to_int64, to_int32 (saturating) and order_of (the decimal exponent, 0 for zero) give the same correct answer for the double and for the e_float of that value. small_arg, large_arg, near_one and near_int of either type follow one magnitude threshold per type, below a quarter of its digits: they do not depend on the sign, small_arg(0) and near_one(1) hold, near_one(x) is small_arg(1-x), near_int(x) is small_arg of the distance to the nearest integer, and large_arg(x) corresponds to small_arg(1/x).",
  ["inputs"], "all doubles and numbers",
  "The overloads for double are not called by the tests; the helpers select series and asymptotic expansions everywhere, where a wrong answer shows only next to a threshold.",
  [F + "elementary/elementary_math.cpp"], [("overloads for double and e_float", F + "elementary/elementary_math.cpp")],
  ["ef::isnan .. ef::near_int"], BND, EX + "exact binary-to-decimal conversion"),
P("P29", "Results do not depend on what was computed before",
  "Every operator, conversion, text input and output, constant and function of the library (real and complex, in every back end) gives the same result for the same operands whichever operations the program did before it, in whatever order, however often, and whatever the contents of memory that was not initialised: tables and constants that are built at first use, cached values and the state of containers passed in have no influence on later results.",
  ["histories", "configurations"], "all sequences of operations",
  "Wrong reuse of a table, a constant built with too few digits by whoever asks first, or an uninitialised member shows only for particular predecessors; the tests run in one fixed order.",
  [F + "constants/constants.cpp", F + "integer/bernoulli_b.cpp", F + "integer/prime.cpp", F + "zeta/zeta.cpp", "libs/e_float/src/utility/util_power_j_pow_x.cpp", E + "e_float.cpp"], [("tables of primes, bernoulli numbers, logarithms of integers", "libs/e_float/src/utility/util_power_j_pow_x.cpp"), ("function-local statics of constants", F + "constants/constants.cpp")],
  ["every public operation"], BND, EX + "the same operation as the first of its process"),
P("P30", "Threads that share no object under modification do not disturb each other",
  "When several threads use the library at the same time, each modifying only objects of its own (operands, results, streams) while any object may be read by all of them, every operation, constant and function gives the result it gives alone - also when it is the first use of that function, constant or table in the process, and whichever thread it runs in - and there is no data race, no deadlock and no crash, in every back end. In particular every thread works with the configured number of digits. Objects that one thread modifies while another uses them, and synchronisation inside the C++ library, are excluded.",
  ["schedules", "configurations"], "all interleavings of concurrent operations",
  "Tables and constants are built lazily at first use and kept in shared memory; a race needs two threads inside the same short window, and the tests are sequential.",
  [F + "integer/prime.cpp", F + "integer/prime_factor.cpp", F + "zeta/zeta.cpp", F + "constants/constants.cpp", "libs/e_float/src/utility/util_power_j_pow_x.cpp", E + "gmp/e_float_gmp.h", E + "mpfr/e_float_mpfr.h"],
  [("lazily built tables", F + "integer/prime.cpp"), ("shared map of logarithms", "libs/e_float/src/utility/util_power_j_pow_x.cpp"), ("default precision of GMP and MPFR", E + "mpfr/e_float_mpfr.h"), ("function-local statics", F + "constants/constants.cpp")],
  ["every public operation, from several threads"], "Exhaustive over schedules of two (thorough: also three) concurrent operations up to the stated preemption and schedule bounds; races are decided by happens-before in each explored schedule. Memory orders weaker than sequential consistency are covered only as far as happens-before edges are concerned; GMP, MPFR and the C++ library are not instrumented", "stateless exploration of all thread schedules of the instrumented library up to a preemption bound, with vector-clock race detection, against the same operation alone"),
P("P31", "The Boost.Multiprecision number over e_float computes like e_float",
  "boost::multiprecision::number<boost::math::ef::e_float>, with and without expression templates and in every back end, gives for every value (infinities and NaN included) what e_float gives: operators (also mixed with every built-in type, compound, aliased and nested in expressions), ordering and equality (NaN: equality only), conversion from and to built-in types and text (str() without arguments and reading give all digits back), stream output and input with all flags, classification, abs, floor, ceil, trunc, sqrt, exp, log, log10, sin .. atan2, sinh .. tanh, pow; fmod is the remainder of the truncated division with the sign of the dividend; frexp, ldexp are binary, ilogb and scalbn decimal; numeric_limits has the values of e_float (lowest is -max) and boost::math::constants are right to all digits.",
  ["inputs", "programs", "configurations"], "all values and expressions, in every back end",
  "The adapter has an overload for each operation and type class; signs, special values, 64-bit exponents and exact multiples reach code that the two examples using it do not.",
  ["libs/math/include/boost/math/bindings/e_float.hpp"], [("eval_* overloads, compare, str", "libs/math/include/boost/math/bindings/e_float.hpp"), ("numeric_limits and policies::precision specializations", "libs/math/include/boost/math/bindings/e_float.hpp")],
  ["boost::multiprecision::number operators and functions"], BND + " and on Boost.Multiprecision 1.83", EX + "e_float itself and exact decimal arithmetic"),
P("P32", "The array under every number behaves as a sequence and owns its memory",
  "util::dynamic_array (and e_float's fixed_dynamic_array), for every element type (built in, or with constructors and a destructor) and allocator: construction (count, count and value, range, initializer list, copy, move), assignment, move assignment, swap, fill, element access, iteration in both directions, and the six comparisons (lexicographic, lengths included) give what a sequence of the same elements gives, also for empty arrays and self-assignment; each element is constructed once before it is used and destroyed once; all memory comes from the allocator and returns to it with the same size; nothing outside the elements is read or written; a moved-from array is empty. at() beyond the end gives the first element.",
  ["histories"], "all sequences of operations",
  "Ownership errors (double release, assignment to unconstructed elements, aliasing after a move) need particular sequences and element types; e_float itself only uses one length and 32-bit limbs.",
  ["libs/e_float/src/utility/util_dynamic_array.h", E + "detail/e_float_detail_dynamic_array.h"], [("dynamic_array", "libs/e_float/src/utility/util_dynamic_array.h"), ("fixed_dynamic_array", E + "detail/e_float_detail_dynamic_array.h")],
  ["util::dynamic_array", "ef::detail::fixed_dynamic_array"], "Exhaustive over all states and operations up to the stated lengths; element copies that throw are not covered", "explicit-state exploration of all states of two real arrays and all operations in every state, in lock step with std::vector, with every element and memory block tracked (and under AddressSanitizer and UBSan)"),
P("P33", "The numeric utilities and generic functions compute what they are named for",
  "For e_float and the built-in and boost number types they are meant for: Util::j_pow_x(j, x, table) is j^x for real and complex x, whatever powers the table already holds; numeric_cast and lexical_cast convert integers to text and back for the whole range of each type, and text to e_float; bisection finds the root in the bracket to the tolerance (and 0 without a sign change), Newton's method converges to it or reports failure when it leaves the bracket; FunctionDerivative is right to rounding for polynomials up to degree 6; RecursiveTrapezoidRule integrates linear functions exactly and smooth ones to the tolerance; linear_interpolate goes exactly through and linearly between the points and is constant outside; alternating_sum and coefficient_expansion sum exactly; DigitScale interpolates its table; generic_functions pi, ln2, sqrt, rootn, log, pown, frexp10 and classifications for float, double, long double, e_float and any other number type are right to the precision of the type.",
  ["inputs", "histories", "configurations"], "all arguments, functions and tables",
  "Most of these headers are used by the examples only or with one type; several specialisations are never instantiated by the tests.",
  ["libs/e_float/src/utility/util_power_j_pow_x.cpp", "libs/e_float/src/utility/util_numeric_cast.h", "libs/e_float/src/utility/util_trapezoid.h", "libs/e_float/src/utility/util_interpolate.h", "libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h"],
  [("j_pow_x", "libs/e_float/src/utility/util_power_j_pow_x.cpp"), ("casts, sums, interpolation, root finding, derivative, integral", "libs/e_float/src/utility/"), ("generic_functions", "libs/e_float/src/generic_functions/")],
  ["Util::*", "generic_functions::*"], BND, EX + "exact integer arithmetic and MPFR"),
P("P34", "Running out of memory surfaces as bad_alloc and damages nothing",
  "Whichever single allocation fails during any operation, conversion, input or output, constant or function (real and complex, in every back end, first use of tables and constants included), the failure reaches the caller as std::bad_alloc; the operation does not return a wrong value, the program does not end, operands keep their values, no memory is lost, and the same and other operations give their usual results afterwards. Excluded: numeric_limits members and other functions the C++ standard declares not to throw, bad bits of the user's own streams, and memory that GMP and MPFR allocate themselves.",
  ["fault_sequences"], "all allocations of every operation, each failing once",
  "Each operation allocates at dozens of places; a swallowed failure leaves a half-built table or a wrong number that shows only later. The tests never run out of memory.",
  ALLB + ["libs/e_float/src/utility/util_dynamic_array.h", F + "constants/constants.cpp", F + "zeta/zeta.cpp", F + "integer/prime.cpp"], [("constructors and string conversion", E + "efx/e_float_efx.cpp"), ("lazily built tables", F + "integer/prime.cpp"), ("dynamic_array", "libs/e_float/src/utility/util_dynamic_array.h")],
  ["every public operation, with a failing allocation"], "Exhaustive over the allocation sites (distinct call stacks) of one run of each listed operation; one failure per run", "systematic fault injection into the real library: every allocation of every operation fails once, each in a process of its own, against the operation without failure"),
P("P35", "No operation has undefined behaviour, whatever its arguments",
  "Every public operation (arithmetic, comparison, conversion, text input and output with any stream format, elementary and special functions, real and complex, integer functions and prime tables), called with any representable argument - infinities, NaN, zero, the ends of the range, values of full length, integer arguments at the ends of their types, non-finite and extreme built-in floating-point values, malformed text - ends and returns or throws without reading or writing outside its objects, using memory after release, overflowing a signed integer, converting a floating-point value to an integer type that cannot hold it, shifting too far, or recursing without end; and calling it again and again does not accumulate memory.",
  ["inputs", "configurations"], "all arguments, in every back end",
  "Undefined behaviour usually gives the right answer on the machine where the tests run; the extreme argument at which an index, a negation or a conversion goes wrong is not among theirs.",
  ALLB + [F + "elementary/elementary_trans.cpp", F + "elementary/elementary_trig.cpp", F + "gamma/gamma.cpp", F + "zeta/zeta.cpp", F + "integer/prime.cpp"], [("conversion to and from text and built-in types", E + "efx/e_float_efx.cpp"), ("buffers for digits", E + "mpfr/e_float_mpfr.cpp"), ("integer arguments of powers, roots, factorials and zeta", F + "elementary/elementary_trans.cpp")],
  ["every public operation"], "Exhaustive over the stated operands and operations in the real library built with AddressSanitizer and UndefinedBehaviorSanitizer (the latter with float-cast-overflow); undefined behaviour these do not observe (uninitialised reads, data races, which P30 covers) is not decided. Left out because their time is not bounded: fixed notation of orders above 3000, trigonometric functions of orders above 600", "exhaustive enumeration of operations x operands in the real library with every memory access, signed operation and conversion monitored (ASan and UBSan as the monitor), and allocated memory compared across repetitions"),
P("P36", "Results do not depend on the state of the process",
  "The value and text of every operation are the same whatever the global C++ locale is (with its own decimal point and digit grouping), whatever errno and the floating-point exception flags contain, and whether or not the first use of the library happened under such a state. (A stream given by the user follows the locale the user imbued it with.)",
  ["inputs", "histories", "configurations"], "all states of the process, for every operation",
  "The tests run in the initial state of a process: classic locale, no flags set. A server or a graphical program does not.",
  ALLB + ["libs/e_float/src/utility/util_lexical_cast.h", "libs/e_float/src/utility/util_numeric_cast.h", "libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h"], [("internal string streams", E + "efx/e_float_efx.cpp"), ("lexical_cast, numeric_cast", "libs/e_float/src/utility/util_lexical_cast.h")],
  ["every public operation"], "Exhaustive over operations x states x the stated operands. The rounding mode of the processor is not varied (a program that changes it changes the initial estimates of the Newton iterations)", "exhaustive enumeration of operations x process states (each in a process of its own for first use) on the real library, against the result in the initial state"),
]
