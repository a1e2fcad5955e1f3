"""The hand-written parts of DESIGN.md (gen.py combines them with properties, bounds and planted changes)."""
HEAD = """# Model checking e_float-2021

## What is checked, and how the verdict is reached

e_float is a sequential arithmetic library with a little shared state. Its guarantees are statements about *every* operand,
operation sequence, working precision, back end, thread schedule and failing allocation. For each property there is a finite,
stated space of behaviours, and the deciding step is always the same: **every member of that space is executed on the real
library**, built from /repo's current working tree, and every intermediate and final state is compared with an independent
specification. No sampling, no random choice, no solver.

Four kinds of space are explored (all directly on the implementation, so that there is no separate model that could drift away;
the specification that runs in lock step is exact arithmetic on integers/rationals, or MPFR with far more digits):

1. *operand spaces* - all combinations of an alphabet of operands built from the representation's structure (limb patterns,
   carries, exponent alignments, every distance 10^-k from the points where algorithms switch, all boundary values of all
   built-in types). The alphabet is enumerated completely; nothing in it depends on a seed.
2. *operation sequences* - all sequences up to a depth over an alphabet of operations, from all start states (registers of
   numbers in P06, special values in P05, chains in P01/P02/P04, array states in P32, histories of the whole library in P29).
   The abstract state (the exact values) is the model, its transition function is the specification, and every edge of the
   model is executed on the implementation.
3. *thread schedules* - P30 runs the real library under a controlled scheduler (the ThreadSanitizer instrumentation calls our
   own runtime instead of TSan's): threads stop at every instrumented access to shared memory or synchronisation, the schedule
   space is explored with sleep sets/partial-order reduction up to the preemption bound, and a vector-clock race detector
   and result comparison run on each schedule.
4. *fault points* - P34 fails every allocation (distinct call stack) of every operation once, in a forked copy of the process.

How a check runs: `run.py` compiles the library for every configuration (back end x number of digits) from /repo's sources with
the hook macro `E_FLOAT_VERIF_DIGITS10` (the only instrumentation, commit 2febf34; without the macro nothing changes), links
`harness/<name>.cpp`, and distributes the *units* of the space over processes which claim them from a common file. A case that
fails, crashes or hangs is **replayed alone** from its key before it is reported; the replay file holds the key, and
`python3 run.py <id> --replay <file>` runs it again. What does not reproduce is never reported as a violation (exit 2 instead).
Evidence counts distinct states (hashed), transitions (library operations compared) and traces (complete cases validated).

Harnesses use the public interface only (headers under libs/e_float/src and the Boost binding); none looks at private members
or at source text, so refactorings are invisible to them.

## The oracle

`harness/ref.cpp`: integers and decimals are GMP `mpz` (a decimal is mantissa x 10^e, exact + - *, quotients to any number of
digits, decimal rounding by integer arithmetic). Values of the library are observed by printing them with more digits than they
can hold; for the decimal back end this text is exact. `observe()` also checks that the printed order agrees with comparison
against powers of ten (a not normalized number would be invisible in its text). Functions use MPFR with at least twice the
digits. "One unit in the last guaranteed digit" is 10^-digits10 relative; where a property speaks of "some argument that
differs by that much", the reference is also evaluated at the perturbed arguments, and the largest change is allowed in
addition. GMP and MPFR are trusted; the gmp and mpfr back ends use the same libraries, but through e_float's own code, and the
decimal reference does not use MPFR for + - * / and text.

## Why tests cannot settle these properties

The repository's 225 stable tests compare about 50 function values per function at ordinary arguments, in one digit
configuration per build. The defects listed below all passed them.

## Properties

Times are wall-clock on the 8 idle cores with the library already compiled; compiling adds 5..30 s for each check.
"""
METHOD = {
 "P01": "Lock step with exact decimal sums. All ordered operand pairs at all alignments in all forms (binary, compound, reversed, negated, built-in free); chains of operations compare after every step, and allow only the error of that step relative to the largest operand.",
 "P02": "Lock step with exact integer products; squares in place and aliases included; long operands reach the FFT multiplication (5003 digits quick, 10007 and 20011 thorough).",
 "P03": "As P02 against exact quotients; self-division, reciprocals and division by the special values of the Newton start.",
 "P04": "Every boundary value of every built-in type is an exact rational (floating-point values included), so the expected result is exact; sequences of two/three mixed operations follow the same reference.",
 "P05": "The model is the IEEE 754 table of classes and signs; all operation sequences to the depth are walked, and the class after each step compared.",
 "P06": "Explicit-state exploration: three registers holding numbers, all operation sequences; after each operation every register must hold exactly the value of the model (so that sharing, stale limbs, self-assignment and moved-from objects show).",
 "P07": "Operations whose exact results lie around the ends of the exponent range; the reference has unbounded exponents. numeric_limits against the values found by exploration.",
 "P08": "All ordered pairs of the values: six comparison operators, both orders, against the exact sign of the difference, plus classification, against built-ins too.",
 "P09": "Exact rational value of each built-in value; from e_float: exact nearest/truncated value and saturation; all mantissas x exponents of the two-part constructor up to the ends of int64, and lists of elements, against their exact values.",
 "P10": "The generator makes text together with the exact value it denotes; every way of reading must agree with it.",
 "P11": "Expected text is built from the exact decimal value by integer rounding and the C++ rules for flags; compared character by character.",
 "P12": "print -> read -> print over all formats; equality of value and text.",
 "P13": "Exact rational reference for floor, ceil, integer and decimal part, fmod, ldexp, frexp, modf-like splits.",
 "P14": "MPFR roots, arguments across the whole exponent range of the back end including its ends.", "P15": "MPFR exp/log/pow; results are required up to numeric_limits' range (minus a margin of 1000 orders), inf/zero beyond.", "P16": "MPFR; arguments around every multiple of pi/2 and pi/12 at each distance 10^-k.", "P17": "MPFR; both ends of the range.",
 "P18": "Exact complex rational arithmetic; text forms of C++ complex input/output enumerated.", "P19": "Reference from MPFR real functions with doubled digits (cval.h), principal branches, error relative to the modulus.",
 "P20": "Exact integers from GMP (mpz_fac_ui, mpz_bin_ui), exact rational products for pochhammer.", "P21": "Bernoulli numbers from an independent rational recurrence, sieve for primes, multiplication back for factorizations.",
 "P22": "mpfr_gamma.", "P23": "mpfr_zeta.", "P24": "Stirling series / Euler-Maclaurin in cx.h with doubled digits, checked against MPFR on the real axis.",
 "P25": "Each configuration is a library build of its own; limits, constants (MPFR or exact), full-length operands under the operations and one point of each range of each function.",
 "P26": "Sum of the series in exact/MPFR arithmetic, error measured against the sum of magnitudes plus perturbation of one parameter.",
 "P27": "All requests for digits on one operand, another one on the second; results against exact arithmetic at the granted number of digits; other objects must be untouched, assignment and swap carry precision with the value.",
 "P28": "Exact value of the double decides every helper; the e_float helper must agree.",
 "P29": "Histories: results of 245 operations alone (in a fresh fork) are the specification; all ordered pairs, triples of stateful operations, long rotations, the same operation with operands that resemble the previous ones, and different contents of unused memory must give the same text.",
 "P30": "Controlled scheduling of two threads, see above. The pairs to explore are found from footprints; every schedule of the reduced space runs; race, deadlock, crash or a result that differs from the sequential one is a violation.",
 "P31": "The same operation on the number and on plain e_float (which P01.. decide) or exact arithmetic where Boost defines the meaning.",
 "P32": "Explicit-state: model state is a pair of sequences; every operation from every reachable state; tracking allocator/elements detect leaks, double construction or destruction; built with ASan and UBSan.",
 "P33": "j_pow_x against MPFR/complex reference for all bases in range with growing tables; exact text conversions; polynomials with known roots, derivatives and integrals.",
 "P34": "malloc/operator new wrapper counts distinct call stacks; every single one fails once in a fork; the outcome must be bad_alloc, no leak, and the operation afterwards gives the right result.",
 "P35": "The library and the harness are built with ASan and UBSan (recovering, with float-cast-overflow); every report during a case fails that case. All 245 operations run on the grid of operands, functions of integers at both ends of every integer type, conversions of extreme doubles, and malformed text. GMP's and MPFR's own writes into e_float's buffers are made visible by wrapping mpf_get_str, mpfr_get_str and the printf functions at link time. Each operation is repeated; where memory grew, 80 more repetitions decide between a cache that fills once and a leak.",
 "P36": "The text and value of each operation in the initial state is the specification; the same in a global locale with its own decimal point and grouping (set before or after first use), with errno and all floating-point exception flags set, and for every length of exponent, must be identical.",
}
TAIL = """
## Genuine defects found and repaired

Each was shown on the real code by the check named, repaired in a minimal `fix:` commit of /repo, and is listed in
`known_findings.txt` (fixed entries suppress nothing). At present no unrepaired finding is recorded.

%(fixed)s

## False alarms that were corrected

* sums were first required to be correct relative to the result; only digits relative to the larger operand are guaranteed (P01).
* the reference's decimal addition gave up exactness beyond a gap of 400000 digits, which made factorial(100000) of the reference wrong (P20).
* binomial(x, k) with x within about 1e-6 of an integer: the quotient of gamma functions is ill conditioned there; excluded by the statement (P20).
* complex points with more digits than digits10 were dropped: guard digits of intermediate results are not part of the contract (P19).
* tan, sec and relatives next to a pole: the argument's own last digit decides; skipped where the perturbed reference changes sign (P16, P19).
* epsilon and limits of the binary back ends need not be decimal powers exactly (P25, P07).
* hypergeometric sums are allowed what a change of one parameter in its last guaranteed digit makes (P26).
* working precision is granted in whole limbs, the last of which is not guaranteed (P27).
* order of NaN operands under < is unspecified by the library (P08); sign of zero does not exist (P05, P15).
* synchronisation inside libstdc++ (locale, iostream init) is not instrumented and not a race (P30).
* Boost.Multiprecision's own default functions are not e_float's; only the binding is checked. ilogb of binary back ends may differ by one (P31).
* first use of numeric_limits members is noexcept by the standard's interface: a failed allocation there terminates; excluded (P34). Streams supplied by the user may swallow bad_alloc into badbit (C++ rule; P34).
* results under another rounding mode of the processor were first required to be the same; the library's estimates legitimately use the current mode; dropped (P36).
* caches of MPFR and pools of GMP that grow once were first reported as leaks; growth must now continue over 80 repetitions (P35).
* a subnormal mantissa counts as zero for the two-part constructor, and 0 x 10^0 is 1 there (documented by the code; P09). The binary back ends hold numbers beyond max_exponent10; such results need only be right (P09).
* text of conversions "does not end" under heavy load: the time a trace may go without progress was raised (run.py).

## Not covered

* operands outside the alphabets; digits above 20011; exponents within 1000 orders of the range in transcendental functions.
* moduli of complex numbers beyond the square root of the range (norm overflows by definition of abs as sqrt(norm)).
* riemann_zeta of integers beyond int and gamma beyond results in range are not explored.
* throwing copy constructors of array elements (P32), generic euler_gamma of built-in types (returns 0; not part of the interface used) and integrals that are exactly zero with the relative tolerance of the trapezoid rule (P33).
* the C# and Python/Mathematica interfaces and the vendored binaries are not built in this sandbox.
* undefined behaviour that ASan/UBSan cannot see (uninitialised reads inside objects); rounding modes other than the default.
* generic_functions::rootn with indices above 24 and primes above the 10^5th (time and memory).
* weak memory effects beyond data races: a race-free program has sequentially consistent behaviour, and any race is reported (P30). Preemption bound and situations as stated.

## Planted changes

Kept in /verif/seeded (patch, demonstration, meta). Every one passes the repository's tests.

%(seeds)s

Besides these, mechanical mutants of every source file (relational, arithmetic and constant changes, deleted statements, conditions forced false) were
run against the quick checks during development; survivors were read, and were equivalent, only slower, or changed digits that are
not guaranteed; where one was a genuine gap the check was extended.
"""
