def C(backend, digits, **kw):
    d = dict(backend=backend, digits=digits); d.update(kw); return d
def A(cfgs, *args, **kw):
    return [dict(c, args=list(args), **kw) for c in cfgs]

ALL3 = [C("efx", 101), C("gmp", 101), C("mpfr", 101)]
BOUNDS = {
 "P01": "operands: 19 digit patterns at full precision; all exponent alignments within +-(digits10+34) (quick: all near limb and precision boundaries, every third elsewhere), 2 (thorough 8) limb phases, all signs and operator forms; all chains of 2 operations over 8 patterns x 11 alignments with leading-digit cancellation",
 "P02": "19 patterns x all limb phases of both operands; all pairs of 3- (thorough 4-) limb vectors over {0,1,5e7,99999999} with and without a full-precision tail; all operand lengths (step 3; thorough 1); chains of 12 (40) products; squaring in place; one configuration large enough for FFT multiplication",
 "P04": "every boundary value (limits, powers of two and ten +-1, denormal-free floating-point extremes) of all 14 built-in types against 18 (58) operands of both signs, all operator forms; all sequences of 2 (3) operations from 50 on each operand",
 "P08": "all ordered pairs of 211 values (7 digit strings x 15 orders x signs and zero; thorough: 26 strings); every value against its neighbours in each single digit position; every boundary value of every built-in type against all others, its neighbours and far values",
 "P09": "every boundary value of every built-in type there and back; all values base+delta+fraction with base a power of two, ten or type limit, delta in -2..2, 7 fractions, both signs; 7 mantissas over decimal orders -5200..5200; 19 mantissas x 44 decimal exponents x signs; 8 element lists x 9 exponents",
 "P10": "25 + 20 limb-structured digit strings x 18 (99) exponents, every spelling: point position (all near limb and end positions), leading/trailing zeros, 8 exponent styles, plain fixed notation, signs, three ways of reading; all sequences of 3 tokens of 7 into objects with 7 histories",
 "P11": "28 mantissas x 39 orders and zero x 22 precisions x 3 floatfields x showpoint; 10 values x all flag combinations x 4 adjustments x 3 fills x 9 widths x 4 precisions; all non-finite values",
 "P12": "19 patterns and all 48 three-limb vectors x 14 exponents, both signs, plus quotient, reciprocal and square root of each, x 9 precisions x 3 floatfields",
 "P05": "18 special and finite values; every operation and form, mixed with all special values of each of the 14 built-in types, aliased, unary; all chains of 2 (thorough 3) operations from every start value",
 "P06": "3 registers, 6 start states, about 170 operations (constructions, copies, moves, swaps, compound operations in all aliasing patterns, container round trips); all sequences of 2 (thorough 3)",
 "P07": "all pairs of 3 mantissas x decimal orders within a limb of the ends of the range, their square roots and one; the same with built-in operands; text with exponents around and far beyond the limits",
 "P13": "integer parts of every length 0..digits10 (4 patterns each) with fractions of every length; fmod for 21 divisors x about 40 quotients x 5 remainders x off-by-one x signs; frexp/ldexp for 12 mantissas x all orders and powers of two x 24 exponents",
 "P14": "12 mantissas x every decimal order to +-222 and far ones to +-1.2e8, 1+-m*10^-k for all k, squares and cubes; 17 (thorough 32) root orders of either sign; specials",
 "P15": "mantissas x orders as P14 in each domain, near 0 / 1 / multiples of ln 2 at every distance 10^-k, exponents up to the range; 17 bases x 32 exponents, negative bases, near-integer exponents; integer powers to +-65536; 2^n for all |n| <= 4000; IEEE special values",
 "P16": "mantissas x orders below digits10 and down to 10^-1000, both signs; multiples of pi/2 and pi/12 +- m*10^-k for all k; near 0, 1/2, 1 for the inverses; 20x20 atan2 grid and infinities",
 "P17": "mantissas x orders from 10^-1000 to the range, near 0 and 1 at every distance 10^-k, around the switch-over points, specials",
 "P18": "all pairs of 144 (thorough 256) complex numbers with parts among 12 (16) values from 1e-20 to 7e20, all operators and operand mixes, selected chains of two; all boundary values of every built-in type against 36 numbers; 64 numbers x 3 floatfields x 4 precisions x 16 flag and width combinations; 121 pairs of spellings x 3 forms, 29 malformed texts",
 "P19": "16 functions on a grid of 21..32 x 21..32 real and imaginary parts (0, +-1e-101..+-700 and up to 7e90 where the function allows); powers of 81 bases to 48 integers and 64 complex exponents; double and long double on a 14x14 grid",
 "P20": "every n <= 1300 (thorough 2600) and neighbourhoods of larger ones; complete rows of Pascal's triangle to 210 (400) and selected rows to 10000; 12x11 real pairs; pochhammer of 17 bases x n <= 120",
 "P21": "bernoulli(n) for all n <= 1300 (2500) and around the table end; tables of all lengths <= 120 (300); prime lists of lengths to 7000 and selected to 200000; factorizations of all n < 120000 (4000000), all powers of two +-20, products and squares of primes around 2^8 and 2^16",
 "P22": "mantissas x orders from 10^-1000 to 10^6, both signs; integers, half-integers and off-integers to 60, around the switch-over points and up to 100000; integers +- m*10^-k for all k, also through gamma_near_n for 12 integers; specials",
 "P23": "integers |n| <= 130 (thorough 1010) and selected to 1500 in both overloads; mantissas x orders; steps of 3 in -60..400 at half and off-integers; near 1, 2, -1, -2 at distances 10^-k",
 "P24": "gamma and pochhammer on 22 x 10 real and imaginary parts (0, integers, +-1e-30, near and between poles, to 100), pochhammer for 11 integer and up to 16 complex orders each; zeta on 21 x 10 parts; thorough: 31 x 16 and 27 x 15",
 "P25": "23 (thorough about 60) configurations of 20 to 5003 digits: every limit, every one of the named constants, all pairs of 14 (24) full-length operands under the four operations, comparison, square root and text, and one point of every range of every elementary function",
 "P26": "11 parameters of each kind (thorough 15) and 10 terminating ones x 11 (16) arguments for entire, 9 (13) in the unit disc; a fixed third (quick) of the 1f1 and a seventh of the 2f1 combinations, all of them thorough; pfq with up to 3 upper and 2 lower parameters",
 "P27": "14 (35) values x 14 (35) values x every requested number of digits around each limb boundary (thorough: every number from 1 to digits10+30) and far above, three precisions of the second operand; results of 36 functions at 10 arguments each used in 6 later operations",
 "P28": "8 mantissas x every binary exponent of double x neighbours, 9 x every power of ten x neighbours, both signs, limits of the integer types; 4 mantissas x every decimal exponent to half the digits around 0, 1 and 5 integers for the thresholds",
 "P29": "245 operations covering every public function, constant and operator: each twice and with 4 contents of unused memory, all ordered pairs (quick: the second operation right after the first or among the next five), all ordered triples of about 50 operations that keep tables of their own (quick: a thirteenth of the first two), 16 (64) histories of all operations; every one in a process of its own, against the operation alone; each operation after itself for all ordered pairs of 14 operand variants that resemble each other (quick: pairs with the usual operands and a fifth of the others)",
 "P30": "245 operations covering every public function, constant and operator; every pair that shares synchronisation or writable memory (by their footprints alone), in up to three situations (library never used before; own operands; shared operands): all schedules with at most 1 (thorough 2) preemptions at synchronisation operations, up to 150 (3000) per pair and situation; quick: heavy pairs and the GMP and MPFR builds in part; thorough also three threads; in every schedule all accesses to static and allocated memory are checked for happens-before order and the results against the operation alone",
 "P32": "all states of two arrays of up to 3 (thorough 4) elements with 2 values, all operations from every state, for 4 element types and a tracking allocator; fixed_dynamic_array likewise",
 "P33": "j_pow_x: 72 (400) consecutive and 28 special bases x 21 real and 105 complex exponents, with an empty and a growing table; casts: every power of 2 and 10 and limit +-2 of ten integer types; all cubics with roots in -3..5 x 27 brackets; polynomials up to degree 6; linear and power integrands; all subsets of 5 interpolation points; all sums of up to 5 terms; generic functions at 84 values over the exponent range for 5 number types",
 "P35": "245 operations x 60 (thorough: 90) operands (pairs for binary ones), 45 operations of an integer x 190 integers at the ends of all types, 40 doubles, 70 texts, in 3 back ends of 30 digits (thorough: also 101)",
 "P36": "245 operations x 3 (9) operand pairs x 4 process states, the first use of each among them in a foreign locale, and 10 lengths of exponents x formats, in 3 back ends of 30 digits; thorough: 101 and 300 digits",
 "P34": "every allocation (distinct call stack) of each of 245 operations, first use included, in 3 back ends; 1100 digits for the table of pi",
 "P31": "number with and without expression templates: all pairs of 27 (thorough about 140) values including infinities, NaN, zero and both ends of the exponent range under every operator form, 14 compound expressions, aliasing, fmod, atan2, pow, comparison; about 1800 values under every unary operation, conversion, classification, formatting and reading; every boundary value of 13 built-in types against all values; every numeric_limits member",
 "P03": "as P02 for quotients, plus reciprocals of every pattern and phase",
}
CHECKS = {}
CHECKS["P01"] = dict(harness="add", configs=ALL3 + [C("efx", 30)], thorough_configs=[C("efx", 300), C("efx", 37), C("gmp", 30), C("mpfr", 30)])
CHECKS["P02"] = dict(harness="muldiv", configs=ALL3 + [C("efx", 30), C("efx", 5003)], thorough_configs=[C("efx", 300), C("efx", 37), C("efx", 10007), C("efx", 20011), C("gmp", 30), C("mpfr", 30)])
CHECKS["P03"] = dict(harness="muldiv", configs=A(ALL3 + [C("efx", 30), C("efx", 5003)], "div"), thorough_configs=A([C("efx", 300), C("efx", 37), C("efx", 10007), C("gmp", 30), C("mpfr", 30)], "div"))
CHECKS["P04"] = dict(harness="builtin", configs=A(ALL3, "arith"), thorough_configs=A([C("efx", 30), C("efx", 300)], "arith"))
CHECKS["P08"] = dict(harness="builtin", configs=A(ALL3, "cmp"), thorough_configs=A([C("efx", 30), C("efx", 300)], "cmp"))
CHECKS["P09"] = dict(harness="builtin", configs=A(ALL3 + [C("efx", 30)], "conv"), thorough_configs=A([C("gmp", 30), C("mpfr", 30), C("efx", 300)], "conv"))
CHECKS["P10"] = dict(harness="io", configs=A(ALL3 + [C("efx", 30), C("gmp", 30), C("mpfr", 30)], "parse"), thorough_configs=A([C("efx", 300)], "parse"))
CHECKS["P11"] = dict(harness="io", configs=A(ALL3 + [C("efx", 30), C("gmp", 30), C("mpfr", 30)], "format"), thorough_configs=A([C("efx", 300)], "format"))
CHECKS["P12"] = dict(harness="io", configs=A(ALL3 + [C("efx", 30), C("gmp", 30), C("mpfr", 30)], "trip"), thorough_configs=A([C("efx", 300)], "trip"))
CHECKS["P05"] = dict(harness="special", configs=A(ALL3, "nonfinite"), thorough_configs=A([C("efx", 30)], "nonfinite"))
CHECKS["P07"] = dict(harness="special", configs=A(ALL3 + [C("efx", 30), C("gmp", 30), C("mpfr", 30)], "limits"), thorough_configs=A([C("efx", 300)], "limits"))
CHECKS["P06"] = dict(harness="value", configs=ALL3, thorough_configs=[C("efx", 30)])
CHECKS["P14"] = dict(harness="func", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "root"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "root"))
CHECKS["P15"] = dict(harness="func", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "explog"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "explog"))
CHECKS["P16"] = dict(harness="func", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "trig"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "trig"))
CHECKS["P17"] = dict(harness="func", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "hyper"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "hyper"))
CHECKS["P13"] = dict(harness="intpart", configs=ALL3 + [C("efx", 30), C("efx", 300)], thorough_configs=[C("gmp", 30), C("mpfr", 30), C("efx", 37)])
CHECKS["P20"] = dict(harness="combin", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "fact"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "fact"))
CHECKS["P21"] = dict(harness="combin", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "number"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "number"))
CHECKS["P22"] = dict(harness="gamma", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "gamma"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "gamma"))
CHECKS["P23"] = dict(harness="gamma", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "zeta"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "zeta"))
CHECKS["P18"] = dict(harness="cplx", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "arith"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "arith"))
CHECKS["P19"] = dict(harness="cplx", configs=A(ALL3 + [C("efx", 30), C("efx", 300)], "elem"), thorough_configs=A([C("gmp", 30), C("mpfr", 30)], "elem"))
CHECKS["P24"] = dict(harness="cspec", configs=ALL3 + [C("efx", 30), C("efx", 300)], thorough_configs=[C("gmp", 30), C("mpfr", 30)])
CHECKS["P26"] = dict(harness="hyperg", configs=ALL3 + [C("efx", 30), C("efx", 300)], thorough_configs=[C("gmp", 30), C("mpfr", 30)])
CHECKS["P29"] = dict(harness="hist", configs=ALL3 + [C("efx", 30)], thorough_configs=[C("gmp", 30), C("mpfr", 30), C("efx", 300)])
I = dict(inst=True)
CHECKS["P30"] = dict(harness="conc", configs=[C("efx", 30, **I)] + A([C("gmp", 30, **I), C("mpfr", 30, **I)], "few") + A([C("efx", 1100, core=True, procs=2, **I)], "pi"), thorough_configs=[C("efx", 101, **I), C("gmp", 101, **I), C("mpfr", 101, **I)])
FP = dict(flags=["-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"])
CHECKS["P34"] = dict(harness="oom", configs=[C("efx", 30, **FP), C("gmp", 30, **FP), C("mpfr", 30, **FP)] + A([C("efx", 1100, core=True, procs=2, **FP)], "pi") + A([C("efx", 5100, core=True, procs=2, **FP)], "fft"), thorough_configs=[C("efx", 101, **FP), C("gmp", 101, **FP), C("mpfr", 101, **FP)])
CHECKS["P32"] = dict(harness="container", configs=[C("efx", 30, lib=False, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])])
CHECKS["P33"] = dict(harness="util", configs=[C("efx", 101), C("gmp", 101), C("mpfr", 101), C("efx", 30)], thorough_configs=[C("efx", 300), C("gmp", 30), C("mpfr", 30)])
CHECKS["P31"] = dict(harness="boostmp", configs=[C("efx", 101, core=True), C("gmp", 101, core=True), C("mpfr", 101, core=True), C("efx", 30, core=True)], thorough_configs=[C("gmp", 30, core=True), C("mpfr", 30, core=True), C("efx", 300, core=True)])
CHECKS["P27"] = dict(harness="prec", configs=[C("efx", 101, core=True), C("gmp", 101, core=True), C("mpfr", 101, core=True), C("efx", 30, core=True)], thorough_configs=[C("gmp", 30, core=True), C("mpfr", 30, core=True), C("efx", 300, core=True)])
K = dict(core=True, procs=3)
CHECKS["P25"] = dict(harness="config", configs=[C("efx", 20, procs=3), C("efx", 39, procs=3), C("efx", 203, procs=3), C("gmp", 53, procs=3), C("mpfr", 53, procs=3)] + [C("efx", d, **K) for d in (31, 32, 38, 47, 55, 64, 100, 150, 500, 1000)] + [C("gmp", 30, **K), C("gmp", 300, **K), C("mpfr", 30, **K), C("mpfr", 300, **K)] + A([C("efx", d, **K) for d in (1009, 1010, 1100, 5003)], "pi"),
  thorough_configs=[C("efx", d, **K) for d in list(range(33, 101)) + [127, 128, 199, 200, 256, 301, 404, 605, 777, 904, 995] if d not in (38, 39, 47, 55, 64, 100)] + [C("gmp", d, **K) for d in (20, 31, 38, 64, 77, 100, 200, 500, 1000)] + [C("mpfr", d, **K) for d in (20, 31, 38, 64, 77, 100, 200, 500, 1000)] + A([C("efx", d, **K) for d in (2000, 4980, 4990, 10007, 20011, 50021)], "pi") + A([C("gmp", d, **K) for d in (1010, 5003)] + [C("mpfr", d, **K) for d in (1010, 5003)], "pi"))
for _k, _c in CHECKS.items():
    _c["bounds"] = BOUNDS.get(_k, "")
CHECKS["P28"] = dict(harness="helper", configs=ALL3 + [C("efx", 30)], thorough_configs=[C("gmp", 30), C("mpfr", 30), C("efx", 300)])
SAN = dict(flags=["-std=c++17", "-fsanitize=address,undefined,float-cast-overflow", "-g1"])
CHECKS["P35"] = dict(harness="safe", configs=[C("efx", 30, **SAN), C("gmp", 30, ld=["-Wl,--wrap=__gmpf_get_str,--wrap=__gmp_sprintf"], **SAN), C("mpfr", 30, ld=["-Wl,--wrap=mpfr_get_str,--wrap=mpfr_sprintf"], **SAN)], thorough_configs=[C("efx", 101, **SAN)])
CHECKS["P36"] = dict(harness="env", configs=[C("efx", 30), C("gmp", 30), C("mpfr", 30), C("efx", 101)], thorough_configs=[C("gmp", 101), C("mpfr", 101), C("efx", 300)])
