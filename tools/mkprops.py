#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in a readable form)."""
import json, os
L = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

P("P01", "Modular integer arithmetic is exact in every implementation",
  "In the ring of integers modulo n, whichever of the library's implementations provides it, setting from integers of any size and sign, addition, subtraction, negation, doubling, halving (n odd), multiplication, squaring, scaling by machine or big integers, and inversion or division by an invertible element give exactly the residue the mathematics prescribes, in 0..n-1. This holds for every operand value, every way the operands were produced, every aliasing of destination and operands and every earlier content of the destination. Operands that are not the destination keep their value.",
  ["inputs", "histories", "configurations"], "all moduli accepted by an implementation, all operand values and histories, all aliasings, all implementations",
  "The suite multiplies a handful of random values in default-size fields; carries, zero representations, aliasing and stale destinations are reached by chance or not at all.",
  ["arith/fp.c", "arith/naivefp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/montfp.c", "arith/field.c"],
  [("limb arithmetic with conditional correction", "arith/fastfp.c fp_add/fp_sub/fp_mul"), ("zero flag kept beside the limbs", "arith/fasterfp.c, arith/montfp.c"), ("Montgomery multiplication and final subtraction", "arith/montfp.c mont_mul")],
  "element_to_mpz after each call")
P("P02", "Comparison and predicates depend only on the mathematical value",
  "Two elements of the same structure compare equal exactly when they denote the same mathematical value, and the tests for zero, for one and for being a square, and the sign, are functions of that value alone, however the elements were computed. The sign is zero exactly for zero, and an element and its negation have opposite signs.",
  ["inputs", "histories"], "all structures (modular integers, extension fields, polynomials, ternary fields, curve points, pairing targets), all values and computation histories",
  "Tests compare results of the same computation twice; an element whose internal representation differs by history (stale limbs behind a zero flag, coordinates behind an infinity flag) is not sampled.",
  ["arith/naivefp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/montfp.c", "arith/fieldquadratic.c", "arith/poly.c", "arith/ternary_extension_field.c", "ecc/curve.c", "ecc/pairing.c"],
  [("comparison", "fp_cmp, fq_cmp, polymod_cmp, poly_cmp, gf3m_cmp, curve_cmp, mulg_cmp"), ("predicates", "element_is0/is1/is_sqr/sign implementations")], "element_cmp, element_is0, element_is1, element_is_sqr, element_sign")
P("P03", "Extension field arithmetic is exact",
  "In quadratic extensions, in quotients of a polynomial ring by a monic irreducible polynomial of any degree, in towers of these and in the characteristic-three fields, addition, subtraction, negation, doubling, halving, multiplication, squaring, inversion, division and (outside characteristic three) integer scaling and assignment give exactly the element that reduction by the defining polynomial prescribes. This holds for all operands, aliasings and destination contents, and operands that are not the destination keep their value.",
  ["inputs", "histories", "configurations"], "all base fields, defining polynomials and degrees, all operands, histories and aliasings",
  "Only one pairing per type is exercised with random operands; special-cased degrees, carries between words of the ternary bit planes and aliased calls are not enumerated.",
  ["arith/fieldquadratic.c", "arith/poly.c", "arith/ternary_extension_field.c"],
  [("quadratic and imaginary multiplication", "fq_mul, fi_mul and squarings"), ("degree 3/6 Karatsuba and generic reduction", "polymod_mul_degree3, polymod_mul_degree6, polymod_mul, polymod_square*"), ("bit-sliced ternary arithmetic", "gf3m_*, gf32m_*, gf33m_*")], "coordinates of the result, read recursively")
P("P04", "Polynomial rings: normal form, arithmetic, roots and irreducibility",
  "Polynomials over a finite field always have no zero leading coefficient, so equal polynomials have the same degree and compare equal, and sums, differences, products, scalings, coefficient updates and embeddings are exact. A monic polynomial of positive degree is reported irreducible exactly when it has no proper factor; root finding reports a root exactly when one exists, and the value it returns is a root.",
  ["inputs", "histories"], "all polynomials over all finite base fields of odd characteristic, all operation sequences",
  "The suite factors a few fixed polynomials; cancellation of leading terms and exhaustive small fields are not covered.",
  ["arith/poly.c", "arith/field.c"], [("normal form", "poly_remove_leading_zeroes and its callers"), ("irreducibility and roots", "poly_is_irred, poly_findroot, poly_gcd, poly_div")], "degree, coefficients, poly_is_irred, poly_findroot")
P("P05", "Every way of exponentiating agrees with repeated multiplication",
  "Raising to a non-negative integer power, to the power of an element of the exponent ring, two or three simultaneous powers, scalar multiplication in additive notation and powers from precomputed tables all equal the corresponding product of repeated multiplications, in fields and groups alike. In particular the zeroth power is one, exponents larger than the group order and bases equal to the identity or zero are handled, and tables stay valid after their base element changes or is cleared.",
  ["inputs", "histories", "configurations"], "all bases, all non-negative exponents, all structures, all variants and aliasings",
  "Random exponents below the order never reach window boundaries, zero, order multiples or oversized exponents.",
  ["arith/field.c", "arith/montfp.c", "arith/naivefp.c", "ecc/curve.c", "ecc/pairing.c"], [("sliding windows", "generic_pow_mpz, element_pow_wind"), ("simultaneous powers", "element_pow2_mpz, element_pow3_mpz"), ("base tables", "element_build_base_table, element_pow_base_table")], "result of each variant")
P("P06", "Curve points form the group the curve equation defines",
  "Sums, differences, negatives, doubles, integer multiples and batch sums and doubles of points of a short Weierstrass curve are those of the chord-and-tangent law, including the identity, inverse pairs, equal points and points of order two, and every point the library produces lies on its curve. Points produced in a prime-order subgroup are annihilated by its order.",
  ["inputs", "histories", "configurations"], "all curves over all supported base fields, all points, batches and aliasings",
  "Random points of a huge group never meet the exceptional cases of the addition law, and the batch entry points are never given them.",
  ["ecc/curve.c"], [("addition and doubling", "curve_mul, curve_double, double_no_check"), ("batch operations with one inversion", "multi_add, multi_double"), ("cofactor multiplication", "curve_random_*, curve_from_hash")], "point coordinates after each call")
P("P07", "Square roots are roots and exist exactly for squares",
  "In every finite field of characteristic greater than three the square test holds exactly for squares (zero included), and the square root of a square is an element whose square is the argument. In cyclic curve groups the square test holds exactly for doubles.",
  ["inputs", "configurations"], "all prime fields (every residue of the prime modulo powers of two), quadratic and polynomial extensions, all elements",
  "Tests take roots of a few random squares in fields with one congruence class of the prime.",
  ["arith/field.c", "arith/naivefp.c", "arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/fieldquadratic.c", "arith/poly.c", "ecc/curve.c"], [("Tonelli", "element_tonelli"), ("extension roots", "fq_sqrt, fi_sqrt, polymod_sqrt")], "element_is_sqr, element_sqrt")
P("P08", "The pairing is bilinear, non-degenerate and lands in the right group",
  "For every shipped pairing type, the pairing is bilinear in both arguments for all integer combinations of the inputs, is the identity whenever an input is the identity, is not the identity on a pair of generators, and its values have order dividing the group order. The same holds after inputs went through any sequence of group operations.",
  ["inputs", "histories", "configurations"], "all inputs (as combinations of generators, identity included), all pairing types and shipped parameters, all operation histories",
  "The suite checks bilinearity once per type on random points.",
  ["ecc/pairing.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/eta_T_3.c", "include/pbc_pairing.h"], [("Miller loops and final powers", "*_param.c map functions"), ("identity handling", "include/pbc_pairing.h pairing_apply")], "element_pairing results compared in GT")
P("P09", "All pairing evaluation paths give the same value",
  "Pairing with a preprocessed first argument, products of pairings of any length, every selectable algorithm of a pairing and the almost-co-Diffie-Hellman test agree with the plain pairing, for all inputs including the identity. Preprocessed data stays valid when its input element is later changed or cleared, and when the algorithm of the pairing is switched afterwards.",
  ["inputs", "histories", "configurations"], "all inputs, product lengths, algorithm options and interleavings of preprocessing, option changes and application",
  "The alternative algorithms and preprocessed paths are compared with the plain pairing on one random pair.",
  ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/pairing.c", "include/pbc_pairing.h"], [("preprocessing", "*_pairing_pp_init/apply/clear"), ("products", "*_pairings_affine, *_pairings_proj, element_prod_pairing"), ("algorithm selection", "*_option_set")], "values in GT")
P("P10", "Byte serialization is fixed-length, canonical and lossless",
  "The byte form of an element has exactly the announced length, nothing outside it is written, it depends only on the element's value, and reading it back gives an equal element and consumes the same number of bytes; big-endian coordinates make up the form for modular integers, extension fields and points. Compressed and x-coordinate forms of a point other than the identity restore that point, or it up to sign. Outside characteristic three, reading arbitrary bytes yields a valid element, and for coordinates that are not on the curve the identity.",
  ["inputs", "histories"], "all elements of all structures however computed, and all byte strings of the right length",
  "Round trips are tested on a few random elements of one curve; identities, small values with leading zero bytes and invalid inputs are not.",
  ["arith/field.c", "arith/naivefp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/montfp.c", "arith/fieldquadratic.c", "arith/poly.c", "arith/ternary_extension_field.c", "ecc/curve.c", "ecc/pairing.c", "ecc/eta_T_3.c"], [("fixed-length conversion", "pbc_mpz_out_raw_n and the to_bytes/from_bytes implementations"), ("compressed points", "element_to_bytes_compressed, element_from_bytes_compressed, *_x_only")], "bytes written and lengths returned")
P("P11", "Text output is faithful, bounded and parses back",
  "The text of an element is the digits of its integer or the bracketed list of its coordinates (the identity point being O), the number returned is the number of characters produced, a bounded print never writes beyond its buffer and always terminates it, and formatted output interprets its integer, character, string, big-integer and element directives as documented. Parsing the text in the same base gives an equal element and the number of characters used, with surrounding and separating white space ignored; text that is not of that form is reported as such and leaves a valid element.",
  ["inputs"], "all elements, bases 2 to 36, buffer sizes, format strings and texts, for modular integers, quadratic and polynomial extensions, points and pairing values over prime fields",
  "A few prints are compared with fixed strings, with large buffers and base ten only.",
  ["arith/field.c", "arith/naivefp.c", "arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/fieldquadratic.c", "arith/poly.c", "ecc/curve.c", "ecc/pairing.c", "misc/extend_printf.c"], [("bounded printing", "*_snprint"), ("parsing", "pbc_mpz_set_str, *_set_str"), ("formatted output", "element_vfprintf, element_vsnprintf")], "characters, return values, buffers")
P("P12", "Hashing to an element is deterministic and lands in the structure",
  "Mapping bytes to an element is a function of the bytes and the structure only, always yields a valid element - in curve subgroups and pairing targets one annihilated by the group order - and never modifies its input. For modular integers the result is the number obtained by repeating the input with a counter until it fills the modulus size, cut down below the modulus size and reduced; for points it is the first x in the sequence started by that value for which a point exists (on curves where the sequence reaches one).",
  ["inputs", "histories", "configurations"], "all byte strings of all lengths (empty and longer than the modulus included), all structures",
  "Only one short string is hashed in the suite.",
  ["arith/field.c", "arith/naivefp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/montfp.c", "arith/fieldquadratic.c", "arith/poly.c", "ecc/curve.c", "ecc/pairing.c"], [("expansion and reduction", "pbc_mpz_from_hash"), ("try and increment", "curve_from_hash"), ("target groups", "gt_from_hash")], "element value after hashing")
P("P13", "Randomness goes through the configured source and stays in range",
  "Random numbers below a bound lie in 0..bound-1 and random bit strings have at most the requested length, for the default, file-backed, deterministic and user-supplied sources; random elements lie in their structure, and in subgroups are annihilated by the group order. The deterministic source repeats its sequence for equal seeds, a user-supplied source is the only one consulted once installed, and random modular integers are exactly the numbers it returns. A file-backed source is read as big-endian groups of bytes of the bound's size, of which the first below the bound is taken, and every element of a field can come up.",
  ["inputs", "histories", "configurations"], "all bounds, sources, seeds, byte streams of the source and interleavings of requests",
  "Tests draw a few values and cannot observe where they came from.",
  ["arith/random.c", "arith/init_random.c", "ecc/curve.c", "arith/naivefp.c", "arith/ternary_extension_field.c", "ecc/eta_T_3.c"], [("sources", "arith/random.c"), ("element randomness", "fp_random, curve_random_*, gt_random")], "values drawn, calls to the source")
P("P14", "Parameter text round-trips and malformed text is refused",
  "Parameter text yields a pairing exactly when it names a known type and gives every required key a number, whatever the order of the entries, spacing, comments and extra keys, and within the given length limit; a pairing made from it uses exactly those numbers. Writing parameters and reading them back gives the same parameters, and refused text leaves no pairing and no memory behind.",
  ["inputs"], "all texts over the parameter syntax: permutations, truncations, deletions, substitutions, length limits, for all pairing types",
  "The suite reads well-formed shipped files only.",
  ["ecc/param.c", "misc/symtab.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/eta_T_3.c"], [("tokenizer and table", "ecc/param.c"), ("per-type readers and writers", "pbc_param_init_*, *_out_str")], "return value, text written, group orders")
P("P15", "Generated parameters satisfy the equations of their pairing type",
  "Parameters generated for a type satisfy every arithmetic relation that type requires - primality of the stated primes, the group order dividing the number of curve points, the stated embedding degree, irreducible moduli and non-squares where the type needs them, the twist carrying a subgroup of that order - whatever sizes are requested and however the random choices fall; the group order of types A and E has exactly the requested length, other sizes are within a few bits, and type A1 keeps the order it was given. The text written for them is read back as the same parameters and initialises a working pairing. CM searches report only prime fields and orders that belong to the discriminant searched, of no more bits than the limit, stop exactly when the callback says so and return what it returned. Class polynomials computed for a fundamental discriminant are the integer polynomials whose roots are its j-invariants. Tiny orders (24 bits or fewer) of CM curves are left out, because the generator's own test is a single random point.",
  ["inputs", "configurations"], "all requested sizes, orders, fundamental discriminants and limits, all random choices of the generators",
  "One parameter set per type is generated and only printed or used once.",
  ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/mnt.c", "ecc/hilbert.c", "ecc/mpc.c", "ecc/eta_T_3.c"], [("generators", "pbc_param_init_*_gen"), ("CM searches", "pbc_cm_search_d, pbc_cm_search_g"), ("class polynomials", "pbc_hilbert")], "parameter text, CM callbacks, polynomial coefficients")
P("P16", "No call sequence leaks, overruns or misuses memory",
  "Any sequence of calls that respects the documented life cycle - initialise, use, clear each object once - stays within the memory it owns, never uses memory after releasing it, and once everything is cleared has given back everything it obtained. All its memory comes from the installed allocation functions.",
  ["histories", "inputs", "configurations"], "all life-cycle-respecting call sequences over elements, fields, pairings, preprocessed data, parameters and arrays",
  "The suite checks results, not allocations, and frees little.",
  ["misc/memory.c", "misc/darray.c", "misc/symtab.c", "arith/field.c", "arith/poly.c", "arith/fieldquadratic.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/curve.c", "ecc/pairing.c"], [("allocation hooks", "pbc_set_memory_functions"), ("clear functions", "*_clear across the library")], "every allocate/resize/release call")
P("P17", "Discrete logarithms found are correct",
  "For every base and every element of the cyclic group it generates, brute-force search and the random-walk method return an exponent that maps the base to that element, the random-walk method reducing modulo the group order; neither changes its inputs. They do so for fields, exponent rings, curve groups and pairing targets alike.",
  ["inputs"], "all bases, all targets, all group orders and random walks",
  "One logarithm per method is computed.",
  ["arith/dlog.c"], [("brute force", "element_dlog_brute_force"), ("Pollard rho", "element_dlog_pollard_rho")], "exponent returned")
P("P18", "The C++ wrapper mirrors the C library",
  "Every operation of the C++ classes has the same result as the corresponding C operation on the same values, copies are independent of their originals, assignment and self-assignment preserve values, and objects release what they own exactly once. Parameters that are not understood, byte strings of the wrong length, and two elements of one group given to a pairing that is not symmetric are refused with an exception that leaves every object as usable as before; pairings cannot be duplicated by copying.",
  ["inputs", "histories"], "all sequences of constructions, copies, assignments, operators and destructions",
  "The unit tests run a handful of operations on one symmetric pairing.",
  ["include/pbcxx.h"], [("value semantics and operators", "include/pbcxx.h")], "values behind the wrapper objects")
P("P19", "The interpreter evaluates programs of its language correctly",
  "For every program, the calculator prints what the rules of its language give, whether the program comes from standard input, from a file, or in easy (-y) mode. Operators bind and associate as in the grammar (assignment weakest, then the conditional, comparisons, sums, products, unary minus, powers from the right); integer and polynomial-list arithmetic is exact; field, extension, curve and pairing operations are those of the library. Evaluating an expression changes no variable other than by assignment or by binding the parameters of a called function (parameters are global variables, bound after all arguments are evaluated). A conditional evaluates only the chosen branch. Every statement that is not an assignment prints its value; statements inside a function body print nothing. Using an undefined name, the wrong kind or number of arguments, an index out of range, dividing an integer by zero or redefining a built-in name is reported by an error message as the value of the statement and the session goes on; a syntax error discards the statement up to the offending token (and ends a file); exit(n) and a failing CHECK end the session with their status. Random elements belong to the group they were asked from, square roots square to their argument. Outside this: operands from different structures, inverse or square root of integers, division by zero in a field, polynomial division, negative exponents.",
  ["programs", "histories"], "all programs over the language",
  "The interpreter has no automated tests.",
  ["pbc/pbc.c", "pbc/parser.y", "pbc/parser.lex", "arith/multiz.c", "arith/z.c"], [("parser", "pbc/parser.y"), ("tree evaluation", "pbc/pbc.c")], "interpreter output")
P("P20", "Pairings and fields in one process do not influence each other",
  "The result of an operation in one structure is the same whether or not other pairings or fields of any type exist, are used, configured or cleared in the same process before or between its operations.",
  ["histories", "configurations"], "all interleavings of creation, use, option changes and clearing of several pairings and fields",
  "Every test uses a single pairing at a time.",
  ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/eta_T_3.c", "arith/fp.c", "arith/field.c"], [("per-pairing state and dispatch", "pairing data and option_set of every type"), ("process-wide settings", "pbc_tweak_use_fp, pbc_init_random")], "values computed with and without other activity")
P("P21", "Integer ring and nested integer lists compute exactly",
  "In the ring of integers, arithmetic, comparison, sign, powers and text are exact for values of any size. For nested lists of integers, addition, subtraction and negation are coefficient-wise with an integer acting as a constant term, multiplication is polynomial multiplication, and comparison is exact (lists denoting the same multinomial are equal, others are ordered by the leading coefficient of their difference). Byte and text forms of integers read back to the same value. Assigning a nested list to an element of a ring, extension, polynomial ring or curve gives the element with those coordinates (an integer standing for a constant), never an element outside the structure.",
  ["inputs", "histories"], "all integers and nested lists, all aliasings",
  "Neither structure is exercised by the suite beyond construction.",
  ["arith/z.c", "arith/multiz.c", "arith/field.c", "ecc/curve.c"], [("integers", "arith/z.c"), ("nested lists", "arith/multiz.c")], "values after each call")
P("P22", "Pairing values are the reduced Tate pairing of the inputs",
  "For the pairing types a, a1, d, e, f and g the value of the pairing of two points of the groups is the Tate pairing of the first with the image of the second on the curve over the extension field, raised to the cofactor power that makes it unique, exactly as the definition through functions on the curve gives it. Values therefore agree between algorithms, implementations and versions.",
  ["inputs", "configurations"], "all input points and all parameters of these types, every algorithm selection, plain, preprocessed and product evaluation",
  "No test knows a correct pairing value; bilinearity also holds for every power of the pairing.",
  ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c"], [("Miller loops", "cc_miller_*, e_miller_*, a_pairing_*, a1_pairing_*, cc_pairing"), ("final exponentiation", "a_tateexp, cc_tatepower, f_tateexp, lucas_even"), ("elliptic nets", "*_ellnet, shipsey-stange")], "pairing values")
P("P23", "Curves are the ones asked for, with the orders the trace predicts",
  "A curve built from coefficients, from its constant term or from a j-invariant (other than 0 and 1728) is a non-singular curve with exactly those coefficients or that invariant, keeps its own copy of them, and mapping it into an extension gives the curve with the embedded coefficients. Twisting it gives the quadratic twist (twisting again gives a curve isomorphic to the original), and random elements of the built, mapped or twisted group are annihilated by its order. The trace and order helpers give the trace of Frobenius and the number of points over every extension degree for every trace and wherever the result is stored. Trial division reports every prime up to the limit dividing the number, in increasing order with its full multiplicity, then what is left, and stops exactly when the caller asks. A field's quadratic non-residue is a non-residue, stays the one that was set, and is the one extensions are built with.",
  ["inputs", "configurations"], "all curves, extensions, traces, degrees, numbers, limits, stopping points and non-residues",
  "The suite builds the supplied parameter sets only and checks no trace, twist or factorisation.",
  ["ecc/curve.c", "arith/field.c", "arith/fieldquadratic.c", "arith/poly.c"], [("curve construction", "field_init_curve_ab, field_init_curve_b, field_init_curve_j, field_init_curve_ab_map"), ("twist", "field_reinit_curve_twist"), ("counting", "pbc_mpz_trace_n, pbc_mpz_curve_order_extn"), ("trial division", "pbc_trial_divide"), ("non-residues", "field_get_nqr, field_set_nqr")], "coefficients of the curve built, its points, numbers returned, factors reported")
for x in L:
    x["anchors"]["files"] = [f for f in x["anchors"]["files"] if os.path.exists(os.path.join(os.environ.get("PBC_REPO", "/repo"), f))]
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in L: f.write(json.dumps(x) + "\n")
    print(len(L))
