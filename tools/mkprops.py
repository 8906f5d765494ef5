#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state}] if isinstance(state, str) else state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Integer number-theory functions return the mathematically defined value",
  "For every integer argument whose result is representable, gcd, lcm, extended gcd, totient (n >= 2), non-negative integer power, integer square root floor/ceiling, primality, the n-th prime, base-2 and base-10 logarithm floor/ceiling, and highest/lowest set bit return the value the definition gives: gcd and lcm are non-negative with gcd(0,n)=|n| and lcm(0,n)=0, and the extended gcd satisfies d = r*a + s*b. Arguments without a value (square root of a negative, a prime index out of the table) are refused with an exception.",
  ["inputs"], "all int arguments (negative, zero, equal, coprime, near powers of two and near 2^31) for which the result is representable",
  "The tests call each function on a few positive values; sign, zero, and near-overflow cases are not reached.",
  ["spffl/intmath/int_gcd.cpp", "spffl/intmath/int_power.cpp", "spffl/intmath/int_sqrt.cpp", "spffl/intmath/int_totient.cpp", "spffl/intmath/is_prime.cpp", "spffl/intmath/log2.cpp", "spffl/intmath/log10.cpp"],
  [("Euclid loops", "spffl/intmath/int_gcd.cpp"), ("trial division over primes_16", "spffl/intmath/is_prime.cpp"), ("totient by factor loop", "spffl/intmath/int_totient.cpp")])

p("C02", "intmod_t is the ring Z/m with canonical residues",
  "For every modulus m>=1 (up to the int limit) an intmod_t always holds a residue in [0,m); +, -, *, unary -, mixed int operands, exp (including negative exponents of units) and comparisons agree with arithmetic in Z/m; recip succeeds exactly for residues coprime to m and returns the inverse; operands of different moduli are refused with an exception.",
  ["inputs", "histories"], "all moduli, all residues and int operands (negative and unreduced included), all operation sequences on a set of variables",
  "Unit tests use one modulus and a few residues; products that overflow 32 bits, zero divisors and negative operands are outside them.",
  ["spffl/intmath/intmod_t.h", "spffl/intmath/intmod_t.cpp"],
  [("operators and residue normalisation", "spffl/intmath/intmod_t.cpp"), ("recip via extended gcd / totient power", "spffl/intmath/intmod_t.cpp: recip")],
  state="residue and modulus of each variable")

p("C03", "intrat_t is the rational field in lowest terms with positive denominator",
  "After every operation whose exact result's numerator and denominator (and cross products) fit an int, an intrat_t holds the exact rational value in lowest terms with positive denominator. Equality and order comparisons agree with the rationals; recip/division by zero and a zero denominator are refused with an exception; exp handles negative, zero and positive exponents.",
  ["inputs", "histories"], "all pairs of rationals with bounded numerators/denominators, all signs, all operation sequences",
  "Canonical form must survive every operation sequence and sign combination.",
  ["spffl/intmath/intrat_t.h", "spffl/intmath/intrat_t.cpp"],
  [("simplify", "spffl/intmath/intrat_t.cpp: simplify"), ("operators", "spffl/intmath/intrat_t.cpp")],
  state="numerator and denominator of each variable")

p("C04", "f2_poly_t is the polynomial ring F2[x] for every degree",
  "For polynomials over F2 of any degree (in particular across 64-bit storage-word boundaries) +, -, *, shifts by powers of x, exp, quot_and_rem (a = q*b + r with deg r < deg b), /, %, gcd/ext_gcd (d = m*a + n*b), deriv, square_root, eval, coefficient get/set, degree, comparisons and ordering, increment and bit parity return the values defined in F2[x]. Every stored value has its true degree (no stale leading zeros visible), and dividing by zero is refused with an exception.",
  ["inputs", "histories"], "all polynomials (degrees 0 to several hundred, with dense/sparse/word-aligned shapes) and all sequences of operations, in-place forms and mixed degrees",
  "Word-boundary carries and cancellation to much lower degree happen only for specific operand shapes; unit tests sample a handful of small ones.",
  ["spffl/polynomials/f2_poly_t.h", "spffl/polynomials/f2_poly_t.cpp"],
  [("parts[] storage, trim_parts/recompute degree", "spffl/polynomials/f2_poly_t.cpp"), ("quot_and_rem, ext_gcd, exp", "spffl/polynomials/f2_poly_t.cpp")],
  state="coefficients of each polynomial variable")

p("C05", "fp_poly_t is the polynomial ring Fp[x]",
  "For every prime p and polynomials over Fp of any degree, +, - (binary and unary), *, scalar * and /, exp, quot_and_rem (a = q*b + r, deg r < deg b), /, %, gcd (up to a unit) and ext_gcd (d = m*a + n*b), deriv, pth_root, eval, coefficient access, degree, comparisons and base-p construction return the values defined in Fp[x], with the true degree after cancellation. Division by zero is refused with an exception.",
  ["inputs", "histories"], "all primes p, all polynomials, all operation sequences",
  "Cancellation of leading terms, p-th powers and non-monic divisors need specific inputs.",
  ["spffl/polynomials/fp_poly_t.h", "spffl/polynomials/fp_poly_t.cpp"],
  [("coefficient array with recompute_degree", "spffl/polynomials/fp_poly_t.cpp")],
  state="coefficients of each polynomial variable")

p("C06", "f2n_poly_t, fpn_poly_t and q_poly_t are polynomial rings over their fields",
  "For polynomials over F_2^n, F_p^n (any irreducible inner modulus) and Q, +, - (binary and unary), *, scalar * and /, exp, quot_and_rem (a = q*b + r, deg r < deg b), gcd (up to a unit), ext_gcd, deriv, p-th roots, eval, coefficient access, degree and comparisons return the values defined in that ring, with the true degree after cancellation. Division by zero is refused with an exception.",
  ["inputs", "histories"], "all extension fields, all polynomials over them and over Q, all operation sequences",
  "Two-level arithmetic multiplies the number of corner cases (inner reduction, leading-coefficient inversion, characteristic-p derivatives).",
  ["spffl/polynomials/f2n_poly_t.cpp", "spffl/polynomials/fpn_poly_t.cpp", "spffl/polynomials/q_poly_t.cpp"],
  [("coefficient arrays over polymod / rational scalars", "spffl/polynomials/f2n_poly_t.cpp, fpn_poly_t.cpp, q_poly_t.cpp")],
  state="coefficients of each polynomial variable")

p("C07", "Polymod classes are residue rings with canonical representatives",
  "For f2_polymod_t, fp_polymod_t, f2n_polymod_t and fpn_polymod_t every value is the representative of degree less than deg m; +, -, *, unary -, integer and base-field scalar multiples, division by units, exp (negative exponents of units too), and comparisons agree with arithmetic modulo m. recip succeeds exactly for residues coprime to m and returns the inverse, and operands with different moduli are refused with an exception.",
  ["inputs", "histories"], "all moduli (irreducible or not, non-monic too), all residues, all operation sequences",
  "Zero divisors, reducible moduli and unreduced or negative operands need specific inputs.",
  ["spffl/polynomials/f2_polymod_t.cpp", "spffl/polynomials/fp_polymod_t.cpp", "spffl/polynomials/f2n_polymod_t.cpp", "spffl/polynomials/fpn_polymod_t.cpp"],
  [("reduction after each operation", "operator* in the four polymod classes"), ("recip by ext_gcd", "recip in the four polymod classes")],
  state="residue and modulus of each variable")

p("C08", "Rational-function classes are fields with canonical fractions",
  "f2_polyrat_t, fp_polyrat_t and f2n_polyrat_t hold the exact quotient of polynomials with numerator and denominator coprime and denominator nonzero after every operation; +, -, *, /, unary -, exp, == and != agree with the field of fractions. Equal rational functions compare equal however they were computed, and a zero denominator or division by zero is refused with an exception.",
  ["inputs", "histories"], "all fractions of polynomials over F2, Fp and F_2^n, all operation sequences",
  "Equality after different computation paths is a property of histories, not of single values.",
  ["spffl/rationals/f2_polyrat_t.cpp", "spffl/rationals/fp_polyrat_t.cpp", "spffl/rationals/f2n_polyrat_t.cpp"],
  [("simplify", "simplify in spffl/rationals/*_polyrat_t.cpp")],
  state="numerator and denominator of each variable")

p("C09", "Polynomial factorization and irreducibility over F2, Fp and F_2^n are correct",
  "f2_poly_factor, fp_poly_factor and f2n_poly_factor return a unit and distinct monic irreducible factors with multiplicities whose product is exactly the input; the irreducibility tests are true exactly for irreducible polynomials; the *_find_irr* searches return the first monic irreducible of the requested positive degree in lexical order (among those with nonzero constant term) and the random variants return some monic irreducible of that degree; a non-positive degree is refused. f2n_poly_roots returns exactly the roots in the field of a nonzero polynomial, each once, and says whether there is one.",
  ["inputs"], "all polynomials over all supported fields, including repeated factors, p-th powers, many factors of equal degree and degrees above 64",
  "Berlekamp recursion and square-free splitting take different branches for repeated factors, p-th powers and inseparable derivatives.",
  ["spffl/factorization/f2_poly_factor.cpp", "spffl/factorization/fp_poly_factor.cpp", "spffl/factorization/f2n_poly_factor.cpp"],
  [("pre-Berlekamp square-free split and Berlekamp kernel split", "spffl/factorization/*_poly_factor.cpp")])

p("C10", "Integer factoring, totients and divisor lists are exact",
  "int_factor returns the sign/zero unit and the prime factors with multiplicities whose product is the input; f2/fp/f2n polynomial totients equal the number of residues coprime to the polynomial; get_all_divisors lists every (positive or monic) divisor exactly once in ascending order and get_maximal_proper_divisors exactly the quotients of the input by one prime factor. tfacinfo insert, merge, exp_all, copy, assignment (self-assignment too) and counting operations keep the multiset of factors exact, in ascending order, under every operation sequence with positive counts. (Totients and divisor counts below 2^31.)",
  ["inputs", "histories"], "all ints and polynomials in range and all sequences of tfacinfo operations",
  "Multiplicity merging, growth of the factor table and zero/unit inputs depend on sequences and special values.",
  ["spffl/factorization/int_factor.cpp", "spffl/containers/tfacinfo.h", "spffl/factorization/f2_poly_totient.cpp", "spffl/factorization/fp_poly_totient.cpp", "spffl/factorization/f2n_poly_totient.cpp"],
  [("trial division", "spffl/factorization/int_factor.cpp"), ("factor table insert/merge, divisor odometer", "spffl/containers/tfacinfo.h"), ("totient product", "spffl/factorization/*_totient.cpp")],
  state="unit, factors and multiplicities of a tfacinfo")

p("C11", "Orders, periods, generators and discrete logs in finite rings are exact",
  "For every modulus (prime or irreducible or not) in Z, F2[x] and F_2^n[y], fp/f2_polymod/f2n_polymod order functions return the least positive e with a^e=1 and refuse non-units; find_generator returns a generator of the unit group exactly when that group is cyclic; the discrete log returns a nonnegative e with g^e = a, and is refused exactly when g is no unit or a is no power of g; f2_poly_period returns the least e with x^e=1 mod m (0 if x is not a unit); f2_poly_is_primitive holds exactly when x generates the unit group, and find_prim returns the first such polynomial of the degree (irreducible if asked), random_prim some such. (Groups below 2^31 elements.)",
  ["inputs"], "all prime moduli and all polynomial moduli in range, all units and non-units",
  "Minimality of the order depends on the factorization of the group size; wrong divisors survive most sample inputs.",
  ["spffl/units/fp_units.cpp", "spffl/units/f2_polymod_units.cpp", "spffl/units/f2n_polymod_units.cpp"],
  [("order via maximal proper divisors of the totient", "spffl/units/*_units.cpp"), ("baby-step giant-step log", "spffl/units/*_units.cpp")])

p("C12", "Bit vectors and bit matrices behave as arrays of bits for every size",
  "bit_t, bit_vector_t and bit_matrix_t behave as mutable arrays over F2 for every size, including sizes that are not a multiple of the storage word: get/set/toggle, resize and assignment between different sizes, +, -, *, dot products, comparisons, leader position, row operations, row echelon forms, rank, kernel basis, transpose, products, exponentiation and inverse return the values of linear algebra over F2 (a bit_t or bit_vector_t raised to a power below 1 is left open). Bits past the logical end never influence a result, and shape mismatches are refused with an exception.",
  ["inputs", "histories"], "all sizes around word boundaries, all contents, all sequences of mutations",
  "Errors in the last partial word or in reallocation show only for particular sizes and histories.",
  ["spffl/bits/bit_vector_t.h", "spffl/bits/bit_vector_t.cpp", "spffl/bits/bit_matrix_t.h", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_t.cpp", "spffl/bits/count_bits.cpp"],
  [("word-packed storage", "spffl/bits/bit_vector_t.cpp"), ("Gauss-Jordan elimination on packed rows", "spffl/bits/bit_matrix_t.cpp")],
  state="bits, length and shape of each object")

p("C13", "tvector and tmatrix are faithful value containers with checked shapes",
  "tvector and tmatrix over any supported ring store exactly what was put in, resize on assignment in either direction, and compute elementwise operations, dot/outer/matrix-vector/matrix-matrix products, powers, transpose, paste/split, row and column access, comparisons, swaps and zero/one tests as defined by linear algebra. Out-of-range indices and mismatched shapes are refused with an exception.",
  ["inputs", "histories"], "all shapes (including assignment between different shapes), all contents over all element rings, all operation sequences",
  "Assignment and growth paths depend on the history of the object, not only its value.",
  ["spffl/containers/tvector.h", "spffl/containers/tmatrix.h"],
  [("element storage and assignment", "spffl/containers/tvector.h, spffl/containers/tmatrix.h")],
  state="shape and elements of each object")

p("C14", "Row echelon, rank, kernel, determinant, inverse and solve are exact over fields",
  "For matrices over any supported field (intmod with prime modulus, F2, polymods with irreducible modulus, rationals) row_echelon/row_reduce produce an equivalent matrix in (reduced) echelon form, rank is the dimension of the row space, the kernel basis is a basis of the null space, det equals the Leibniz determinant, inverse succeeds exactly for invertible matrices and satisfies A*inv = I, the fraction-free variants over Euclidean domains (ed_row_echelon_form, ed_det, and ed_inverse over F2[x]) agree with the same definitions, and solve_unique returns the solution exactly when it is unique.",
  ["inputs"], "all shapes and ranks, including rank-deficient, wide, tall, zero and pivot-swapping matrices over all fields",
  "Pivot search, row swaps and rank-deficiency branches depend on the pattern of zeros in the input.",
  ["spffl/containers/tmatrix.h", "spffl/linalg/fp_linear_algebra.cpp", "spffl/linalg/f2_polymod_linear_algebra.cpp"],
  [("row_reduce_below / row_echelon_form / kernel basis / inverse", "spffl/containers/tmatrix.h")])

p("C15", "Minimal/characteristic polynomials and field isomorphisms are exact",
  "For irreducible moduli, characteristic and minimal polynomials of square matrices and of polymod elements (over F2, Fp, F_2^n and subfields) are the monic polynomials defined by linear algebra; companion matrices of monic polynomials of degree at least 1 have the given characteristic polynomial; a matrix is called diagonalizable exactly when it is similar to a diagonal matrix over the splitting field; the F2-polymod conversion between two representations of a field is a ring isomorphism that fixes the base field, and vector-from-base-representation functions invert their construction.",
  ["inputs"], "all elements of all supported fields, all small square matrices, all pairs of irreducible moduli of equal degree",
  "Homomorphism and Cayley-Hamilton style laws quantify over all pairs of elements.",
  ["spffl/linalg/min_char_polys.cpp", "spffl/linalg/f2_polymod_convert.cpp", "spffl/linalg/f2_linear_algebra.cpp", "spffl/linalg/fp_linear_algebra.cpp", "spffl/linalg/f2_polymod_linear_algebra.cpp"],
  [("minimal polynomial via kernel of powers / product of conjugates", "spffl/linalg/min_char_polys.cpp"), ("conversion matrix", "spffl/linalg/f2_polymod_convert.cpp")])

p("C16", "Element lists enumerate exactly the requested set, once each, in order",
  "The listing functions for Z/m, Fp[x], F2[x], F_2^n[x] and the polymod rings return exactly the requested set (all residues, units, non-units, all polynomials of exactly the given degree, the multiples of an element, the residues relatively prime to it, all n-tuples, one representative with last nonzero coordinate 1 for each point of projective n-space) with every element once and, except for projective points, in ascending lexical order.",
  ["inputs"], "all moduli, degrees and list types",
  "Completeness and uniqueness are statements about whole sets and depend on the modulus.",
  ["spffl/list/list_elements.cpp"],
  [("odometer increment", "spffl/list/list_elements.cpp and operator++/increment in the element classes")])

p("C17", "PSDES generators are reproducible and random elements stay in their range",
  "The PSDES stream is a pure function of the seed state: outputs equal the documented 64-bit hash of a counter that carries between words, the reentrant and global forms agree, and reseeding replays the stream. The random constructors (ints, residues, polynomials, polymods) return elements of exactly the requested ring/degree for every seed and reach every value of small rings.",
  ["inputs", "histories"], "all seeds and counter states, including carry between counter words, and all call sequences",
  "Counter carry occurs once per 2^32 calls and range errors depend on the seed.",
  ["spffl/bitrand/psdes.cpp", "spffl/random/f2_poly_random.cpp", "spffl/random/int_random.cpp", "spffl/random/intmod_random.cpp"],
  [("hash and counter", "spffl/bitrand/psdes.cpp"), ("degree/range restriction", "spffl/random/*.cpp")],
  state="two-word generator state")

p("C18", "Printing and parsing round-trip, and malformed text is rejected",
  "For every scalar, polynomial, residue, fraction, vector and matrix type that has a text form, from_string and stream extraction of the printed form give back an equal value and modulus (rational polynomials: for one-digit coefficients), accepted text denotes the documented value (hex bits for F2, comma or colon separated coefficients otherwise, brackets and whitespace for vectors and matrices), stream extraction consumes the value's text and nothing after it, and text that does not begin with a value (or has a zero denominator, an unreadable coefficient or ragged rows) is rejected, leaving the object and the program usable.",
  ["inputs"], "all printable values and all strings near the grammar",
  "Round-trip quantifies over all values; separators change with the size of the modulus.",
  ["spffl/base/line_scan.cpp", "spffl/base/tokenize.cpp", "spffl/polynomials/f2_poly_t.cpp", "spffl/polynomials/fp_poly_t.cpp", "spffl/polynomials/f2n_poly_t.cpp", "spffl/containers/tmatrix.h", "spffl/containers/tvector.h"],
  [("from_string / operator<< / operator>>", "all element classes")])

p("C19", "Calculator expressions evaluate by the documented grammar in every arithmetic",
  "For every expression of numbers, + - * . / % ^, unary signs, comparisons and parentheses or brackets, the calculators (scalar, vector and matrix) print the value the grammar's precedence and associativity give in the chosen ring (integers, Z/m, Q, F2[x], Fp[x], F_2^n[x], F_p^n[x], Q[x], residue rings and rational functions over them); matrix expressions over fields also det, rank, inverse, transpose, echelon forms and kernel basis. Malformed or undefined expressions (syntax error, unbalanced parentheses, extraneous text, division by zero, incompatible dimensions) produce an error and no value.",
  ["inputs"], "all expressions (any nesting and splitting into arguments) over all rings, as element, vector and matrix calculators",
  "Precedence and associativity are properties of all token sequences; regression files hold a few flat expressions each.",
  ["spffl/cli_parser/cmd_line_ops.h", "spffl/cli_parser/cmd_line_vector_ops.h", "spffl/cli_parser/cmd_line_matrix_ops.h"],
  [("recursive-descent parsers", "spffl/cli_parser/cmd_line_ops.h: cmd_line_parse; cmd_line_vector_ops.h; cmd_line_matrix_ops.h")])

p("C20", "Library objects are independent values: copies, aliasing and self-operations",
  "Copying, assigning (including self-assignment and between values of different size), and in-place operations on aliased operands (a op= a, a = a op b) give the same result as on distinct copies, and no operation on one object ever changes another; a refused operation leaves all objects as they were. This holds for every number, polynomial, residue, fraction, vector, matrix and container type and for every interleaving of operations, without touching memory outside the objects.",
  ["histories"], "all interleavings of copy/assign/self-assign/in-place/destroy over a set of variables of each type",
  "Sharing and stale-storage defects appear only after particular sequences such as shrink-then-grow or self-assign.",
  ["spffl/polynomials", "spffl/containers", "spffl/bits", "spffl/intmath", "spffl/rationals"],
  [("copy constructors and operator=", "all value classes")],
  state="the value held by each variable")

p("C21", "tstack behaves as a LIFO stack and tokenizing loses nothing",
  "tstack push/pop/copy/assign behave as an unbounded LIFO stack of independent values under every sequence of operations, with underflow reported by pop and the popped-into object left alone. tokenize splits any text into exactly its maximal runs of non-separator characters, in order and up to the caller's limit, without writing beyond the caller's array; count_tokens, chomp and is_whitespace_line agree with it on what the text holds.",
  ["inputs", "histories"], "all operation sequences and all strings",
  "Growth and underflow depend on the sequence.",
  ["spffl/containers/tstack.h", "spffl/base/tokenize.cpp"],
  [("array growth", "spffl/containers/tstack.h"), ("token scanning", "spffl/base/tokenize.cpp")],
  state="stack contents")

p("C22", "Cyclotomic polynomials and their reductions to finite fields are exact",
  "get_cyclo_qpoly(n) is the n-th cyclotomic polynomial and its reductions over Fp, F2, F_2^n and F_p^n are the same polynomial mod p, so that x^n-1 is the product over the divisors of n, whatever was requested before; converting any rational number or polynomial to F2, Fp, F_2^n or F_p^n coefficients gives the reduction mod p of every coefficient, as a well-formed polynomial, and is refused exactly when p divides a denominator.",
  ["inputs", "histories"], "all n in range in any request order, all rational polynomials and target fields",
  "The memo table makes the answer depend on the history of requests unless it is right.",
  ["spffl/q_cyclotomic/cyclo_poly.cpp", "spffl/q_cyclotomic/qff.cpp"],
  [("memoised table", "spffl/q_cyclotomic/cyclo_poly.cpp"), ("reduction of rationals", "spffl/q_cyclotomic/qff.cpp")],
  state="memo table")

p("C23", "spiff subcommands compute what their names say and reject bad usage",
  "Every subcommand listed by spiff -l can be invoked by its listed name and no other name is accepted. For valid arguments the subcommand (op, vec_op and mat_op calculators, gcd, lcm, degree, totient, primality and irreducibility tests and searches, factor, divisors, evaluation, period, order, generators, logarithms, lists, operation and power tables, orbits, minimal and characteristic polynomials, companion matrices, Q-matrices, conversions between representations, reduction of rational polynomials, cyclotomic polynomials, solving, diagonalizability, random elements) prints exactly the mathematically defined values, one line per argument where it takes several, and exits 0; unreadable or missing required arguments, and values with no result (no inverse, not coprime, not a generator), get a message on standard error and no result instead of a wrong value, a crash or a hang. Bracketed arguments { ... } are replaced by the words printed by the innermost call first, to any depth; unbalanced brackets are refused. Left open: moduli that do not make the field the action needs, numbers beyond int, and extra arguments a command ignores.",
  ["inputs"], "all subcommands and all argument lists, standard inputs and bracket nestings",
  "Regression files check one or two argument lists per command; malformed argument lists and nestings are not covered at all.",
  ["cli/spiff/spiff_main.cpp", "cli/spiff/z_handlers.cpp", "cli/spiff/fp_handlers.cpp", "cli/spiff/fp_poly_handlers.cpp", "cli/spiff/fp_polymod_handlers.cpp", "cli/spiff/f2_poly_handlers.cpp", "cli/spiff/f2_polymod_handlers.cpp", "cli/spiff/f2n_poly_handlers.cpp", "cli/spiff/f2n_polymod_handlers.cpp"],
  [("lookup table and bracket interpolation", "cli/spiff/spiff_main.cpp"), ("handlers", "cli/spiff/*_handlers.cpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
