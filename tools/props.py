"""the properties (single source for properties.jsonl and MANIFEST.json)"""
PROPS, NA = [], {}
TECH = 'abstract interpretation of the compiler MIR '
BASE = ' Trusts rustc, the analyser, and the documented behaviour of std/subtle.'


def P(id, title, statement, over, quant, why, files, mech, technique, note, level='proof', **kw):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                      anchors=anchors, technique=technique, note=note, level=level, **kw))


P('C04', 'Extension-field arithmetic is exact arithmetic in the tower',
  'For every extension field of the library (quadratic, sextic and dodecic over the BN256, BLS12-381 and Pluto/Eris base fields), addition, '
  'subtraction, negation, doubling, multiplication, squaring, sparse and cyclotomic multiplication variants, multiplication by the non-residues, '
  'conjugation, norm, inversion, equality, conditional selection and zero tests return exactly the element the field\'s defining polynomials prescribe, '
  'for every pair of elements, in every operator form (by value, by reference, assigning). Inversion reports no value exactly for zero, and none of these panic.',
  ['inputs'], 'all elements of each extension field, all operator forms',
  'tests compare a few random elements; a term dropped or swapped on a sparse path, or a wrong result only when some coefficients vanish, survives them',
  ['src/ff_ext/quadratic.rs', 'src/ff_ext/cubic.rs', 'src/bn256/fq2.rs', 'src/bn256/fq6.rs', 'src/bn256/fq12.rs', 'src/bls12381/fq2.rs',
   'src/bls12381/fq6.rs', 'src/bls12381/fq12.rs', 'src/pluto_eris/fp2.rs', 'src/pluto_eris/fp6.rs', 'src/pluto_eris/fp12.rs', 'src/derive/field/tower.rs'],
  [('Karatsuba/complex arithmetic', 'src/ff_ext/quadratic.rs, src/ff_ext/cubic.rs'), ('per-field overrides', 'src/*/f*2.rs, f*6.rs, f*12.rs')],
  TECH + 'in a polynomial (value-numbering) domain',
  'Every result coefficient is a polynomial identity over indeterminate inputs, so it holds for every element. Assumes base prime-field operations implement F_p.' + BASE)

P('C05', 'Frobenius maps compute the p-power map for every exponent',
  'For every extension field of the library, the Frobenius map with exponent k sends every element x to x raised to the power p^k, for every k.',
  ['inputs'], 'all field elements, all exponents k (by residue mod 12)',
  'tests check a few exponents on random elements; the coefficient tables hold entries no test reads',
  ['src/bn256/fq6.rs', 'src/bn256/fq12.rs', 'src/bls12381/fq6.rs', 'src/bls12381/fq12.rs', 'src/pluto_eris/fp6.rs', 'src/pluto_eris/fp12.rs', 'src/ff_ext/quadratic.rs'],
  [('coefficient tables', 'FROBENIUS_COEFF_* in src/*/f*6.rs, f*12.rs'), ('frobenius_map', 'src/ff_ext/*.rs and overrides')],
  TECH + 'in a polynomial domain; exponent abstracted to its residue class mod 12',
  'All table entries enter through their use. Assumes base prime-field operations implement F_p.' + BASE)

P('C07', 'Point addition, doubling and negation are complete and correct on every curve',
  'On every curve of the library (BN256 G1/G2, BLS12-381 G1/G2, Pluto, its G2, Eris, Grumpkin, secp256k1, secp256r1, secq256k1), adding, '
  'subtracting, doubling and negating points, in every mix of projective and affine operands and every operator form, gives the result of the '
  'elliptic-curve group law, including when operands are equal, opposite or the identity, whatever representative is used. None of these operations panics.',
  ['inputs'], 'all pairs of curve points, all projective representatives, all operator forms',
  'tests use a few random points; exceptional pairs and representatives are sampled at best',
  ['src/derive/curve.rs'], [('complete addition formulas', 'src/derive/curve.rs'), ('operator forwarding', 'src/derive/mod.rs')],
  TECH + 'in a polynomial domain modulo the curve equations',
  'Results are compared with the complete Renes-Costello-Batina law as polynomial identities modulo the curve equations; the law itself is re-validated '
  'against chord/tangent formulas. Assumes field operations implement the field.' + BASE)

P('C08', 'Point equality, selection, conversion and on-curve flags mean what they say',
  'On every curve, equality holds exactly between representations of the same point; the identity test, conditional selection, affine, projective and '
  'Jacobian conversions and batch normalisation preserve the point for every representative including the identity; construction from affine or '
  'Jacobian coordinates and the on-curve tests accept exactly the coordinates that satisfy the curve equation (or encode the identity). '
  'The coordinates of a point are available exactly when it is not the identity.',
  ['inputs'], 'all points, all projective representatives, all coordinate pairs and triples',
  'tests use random points and one or two invalid ones; corner representatives (z = 0, x = 0) are not enumerated',
  ['src/derive/curve.rs'], [('ct_eq, conversions, is_on_curve, new_jacobian, batch_normalize', 'src/derive/curve.rs')],
  TECH + 'in a polynomial domain with gated values',
  'Each result is compared with its definition as polynomial identities and boolean functions of zero tests, by case of identity/finite operands. '
  'Eleven known findings: the identity has coordinates.' + BASE)

LIMB = TECH + '(and of the inline assembly) in an exact limb-polynomial domain'
FIELDS10 = 'BN256 Fq/Fr, BLS12-381 Fq/Fr, Pluto/Eris Fp/Fq, secp256k1 Fp/Fq, secp256r1 Fp/Fq'
NOTE_LIMB = ('Limb words are exact polynomials with symbolic carries; carry chains are closed symbolically and the recombined result is shown '
             'congruent and in range in every case of the undetermined comparisons, so it holds for every operand.' + BASE)

P('C01', 'Prime-field arithmetic is exact and canonical in both back-ends',
  f'For every prime field ({FIELDS10}), with and without the assembly feature, addition, subtraction, negation, doubling, multiplication and squaring of '
  'canonical elements return the canonical (fully reduced) representation of the exact result modulo p, in every operator form; equality and zero tests '
  'are exact; conditional selection returns the chosen operand; zero, one and default are the right constants; cube is the third power. None of these panic.',
  ['inputs'], 'all pairs of canonical elements of each field, both back-ends',
  'a dropped carry or a missing final subtraction shows for a 2^-64 fraction of operands or only near the modulus; random tests do not reach them',
  ['derive/src/field/arith.rs', 'derive/src/field/mod.rs', 'derive/src/field/asm/limb4.rs', 'src/arithmetic.rs', 'src/derive/mod.rs'],
  [('Montgomery multiplication/reduction, add/sub with final correction', 'derive/src/field/arith.rs'), ('assembly versions', 'derive/src/field/asm/limb4.rs'),
   ('adc/sbb/mac/macx', 'src/arithmetic.rs')], LIMB, NOTE_LIMB)

P('C03', 'Inversion returns the exact inverse of every non-zero element',
  f'For every prime field ({FIELDS10}), Field::invert of a non-zero element returns Some of the canonical element whose product with it is one, and of zero None. '
  'It never panics; its internal integers never overflow and every iteration performs exact Bernstein-Yang division steps, so it terminates.',
  ['inputs'], 'all elements of each field',
  'a wrong step, bound or carry inside the inverter shows only on particular low bits, signs and delta values met deep inside the iteration of rare elements',
  ['src/ff_ext/inverse.rs', 'derive/src/field/mod.rs'],
  [('BYInverter::{jump,fg,de,norm,convert,invert}', 'src/ff_ext/inverse.rs'), ('Field::invert', 'derive/src/field/mod.rs')],
  TECH + 'over exact integer polynomials with loop invariants, checked one iteration at a time from an arbitrary admissible state',
  'The multi-word operations are proved on indeterminate limbs and the repacking on indeterminate bits. That exact division steps end with g = 0 is the cited theorem.' + BASE)

P('C09', 'Prime-field encodings are canonical and decoders accept nothing else',
  f'For every prime field ({FIELDS10}): to_repr/to_bytes (and the EndianRepr forms) return the digits of the canonical integer of the element, little-endian '
  '(to_bytes big-endian for the BLS12-381 base field); to_raw_bytes/write_raw return the internal Montgomery limbs little-endian. '
  'The decoders from_repr, from_repr_vartime, from_bytes, from_raw_bytes and read_raw accept a string exactly when its integer is below the modulus and return the '
  'element it encodes, so decode and encode are mutually inverse; raw decoders refuse inputs of the wrong length; the unchecked raw readers '
  'return exactly the encoded element for valid input. No checked decoder panics.',
  ['inputs'], 'all elements, all byte strings of the encoding length, and wrong lengths around it',
  'the boundary cases (integer equal to or just above the modulus, one limb equal and the next larger) are a negligible fraction of random inputs',
  ['derive/src/field/mod.rs', 'src/serde.rs', 'src/derive/field/common.rs'],
  [('to_repr/from_repr/from_bytes', 'derive/src/field/mod.rs'), ('SerdeObject for fields', 'derive/src/field/mod.rs'), ('is_less_than_modulus', 'derive/src/field/arith.rs')],
  LIMB, 'Acceptance is shown equivalent to integer < p; digits and value by symbolic recombination. Wrong lengths are enumerated (0, 1, 7, 8, n-8, n-1, n+1, n+8, 2n).' + BASE)

P('C23', 'Order, parity and lexicographically-largest follow the canonical integer',
  f'For every prime field ({FIELDS10}): comparison orders elements as their canonical integers; is_odd/is_even report the parity of the canonical integer; '
  'lexicographically_largest holds exactly when the canonical integer exceeds (p-1)/2.',
  ['inputs'], 'all (pairs of) canonical elements',
  'comparison of multi-digit numbers goes wrong only when leading digits tie, and the midpoint is a single value',
  ['derive/src/field/mod.rs', 'src/derive/field/common.rs', 'src/serde.rs'], [('Ord', 'derive/src/field/mod.rs'), ('lexicographically_largest', 'derive/src/field/mod.rs')],
  LIMB, 'The returned condition is shown equivalent to the comparison of the digits of the canonical integer. A defect at (p-1)/2 was repaired (b9c6fd1).' + BASE)

P('C25', 'Integers, booleans, raw limbs, wide byte strings and bits convert exactly',
  f'For every prime field ({FIELDS10}), with and without the table and assembly features: conversion from bool, u64, u128, raw limbs and uniform byte strings '
  '(every supported width) yields the canonical element congruent to the little-endian integer given, for every input, without panicking; '
  'to_le_bits returns the bits of the canonical integer and char_le_bits those of the modulus.',
  ['inputs'], 'all integers and byte strings of each width',
  'tests sample a handful of integers; table entries, the 65536 boundary, and unreduced high halves are not enumerated',
  ['derive/src/field/mod.rs', 'derive/src/field/arith.rs', 'src/derive/field/common.rs', 'src/bn256/fr.rs', 'src/bn256/fr/table.rs'],
  [('FromUniformBytes', 'derive/src/field/mod.rs'), ('From<u64>/From<bool>', 'src/derive/field/common.rs'), ('table lookup', 'src/bn256/fr.rs')],
  LIMB, 'Intermediate element results are named once shown canonical and carried by residue. Every entry of the BN256 scalar table is compared with its index.' + BASE)

P('C02', 'Published field constants satisfy their definitions',
  f'For every prime field ({FIELDS10}): MODULUS is the published prime as a hex string; NUM_BITS, CAPACITY, S, SIZE and NUM_LIMBS are its bit length, that minus one, '
  'the 2-adicity of p-1, the byte length and the limb count; TWO_INV is 1/2; MULTIPLICATIVE_GENERATOR generates the multiplicative group '
  '(order exactly p-1); ROOT_OF_UNITY is GENERATOR^((p-1)/2^S) and has order exactly 2^S; ROOT_OF_UNITY_INV is its inverse; DELTA is GENERATOR^(2^S); ZETA is a '
  'primitive cube root of unity. The quadratic extensions inherit MODULUS, TWO_INV, ZETA (some primitive cube root), ROOT_OF_UNITY, its inverse and DELTA.',
  ['inputs'], 'every constant of every field, in the portable and the assembly/table configuration',
  'tests check a few products of constants; the order of ROOT_OF_UNITY, the generator relation, DELTA and the generating property are not all tested on all fields',
  ['derive/src/field/mod.rs', 'derive/src/utils.rs', 'src/derive/field/tower.rs'],
  [('constant generation', 'derive/src/field/mod.rs'), ('tower constants', 'src/derive/field/tower.rs')],
  'static constant evaluation over rustc MIR', 'The constants are folded from the compiler dump and tested against their defining equations in Python integers. '
  'p-1 is completely factored for every field, see sa/facts.py.' + BASE)

P('C06', 'Curve coefficients, generators and the endomorphism are the published ones',
  'On every curve the coefficients a and b (projective and affine accessors) are the published ones; every generator accessor (projective, affine, inherent, '
  'PrimeCurveAffine, CofactorCurveAffine) returns the published generator, which lies on the curve and has the prime order of the scalar field; on the curves with a = 0 '
  'the endomorphism endo() maps (x, y) to (z x, y) for the cube root of unity z with [ScalarField::ZETA] G = (z x_G, y_G), so that endo(P) = [ZETA] P on the prime-order '
  'subgroup, and fixes the identity.',
  ['inputs'], 'all constants; the endomorphism for all points and representatives',
  'the tests exercise endo on a few random points of some curves only, and compare constants with the same constants',
  ['src/derive/curve.rs', 'src/bn256/curve.rs', 'src/bls12381/g1.rs', 'src/bls12381/g2.rs', 'src/pluto_eris/curve.rs', 'src/grumpkin/curve.rs',
   'src/secp256k1/curve.rs', 'src/secp256r1/curve.rs', 'src/secq256k1/curve.rs'],
  [('constants', 'src/*/curve.rs'), ('endo, generator, a, b', 'src/derive/curve.rs')],
  TECH + 'with static constant evaluation', 'Constants are folded from the compiler dump and verified with plain integer curve arithmetic in Python '
  '(on-curve, [r]G = O, published value); endo is compared symbolically.' + BASE)

CODECT = TECH + 'in a bit-level codec domain (bytes as named digits of field elements)'
P('C10', 'Compressed point encodings are exact, canonical and mutually inverse',
  'On every curve, the compressed encoding of a point (projective or affine, any representative) is the encoding of its x-coordinate with the documented flag bits: '
  'identity flag, sign flag (parity of y, or lexicographic largeness of y on BLS12-381) and, on BLS12-381, the compression flag; a curve without spare bits uses an extra first byte. '
  'Decoding accepts a byte string exactly when it is such an encoding of a curve point (x canonical, x^3+ax+b a square, unused bits zero, compression flag set, '
  'identity encoded only as all-zero x with sign clear) and returns that point, so encode and decode are mutually inverse. Decoding never panics on any byte string; '
  'the unchecked decoders return the same point on every valid encoding.',
  ['inputs'], 'all points, all byte strings of the encoding length',
  'tests decode encodings they made themselves and a few invalid ones; flag combinations with boundary x values are not enumerated',
  ['src/serde.rs', 'src/derive/curve.rs', 'src/bls12381/g1.rs', 'src/bls12381/g2.rs'],
  [('Compressed::encode/decode', 'src/serde.rs'), ('sign/resolve', 'src/derive/curve.rs, src/bls12381/g1.rs, g2.rs'), ('GroupEncoding', 'src/derive/curve.rs')],
  CODECT, 'Relative to the field codecs, parity and square roots (C09, C12, C22, C23), treated as exact; that no point has order two is decided on the constants. '
  'Membership in the prime-order subgroup is not part of decoding.' + BASE)

P('C11', 'Uncompressed and raw point encodings only yield curve points and round-trip',
  'On every curve, the uncompressed encoding of an affine point is x followed by y (all zero for the identity) and the raw encoding of an affine or projective point is its coordinates in internal form; '
  'from_uncompressed, from_raw_bytes and read_raw accept exactly the strings whose coordinates are canonical and satisfy the curve equation (or encode the identity) and return exactly those coordinates; '
  'the unchecked variants return the encoded coordinates; from_raw_bytes refuses other lengths, read_raw refuses short input and consumes exactly the encoding. '
  'write_raw appends and never fails on a growing buffer. The checked decoders never panic.',
  ['inputs'], 'all points and representatives, all byte strings of the encoding length, and lengths around it',
  'a decoder that skips validation still round-trips in tests',
  ['src/derive/curve.rs', 'src/serde.rs'], [('UncompressedEncoding, SerdeObject', 'src/derive/curve.rs')],
  CODECT, 'Relative to the field codecs (C09, C12). Lengths off by 1 and 8 are enumerated. A missing check in read_raw was repaired (17777cc).' + BASE)

P('C12', 'Quadratic-extension encodings, order and parity follow the coefficients',
  'For the quadratic extensions over the BN256, BLS12-381 and Pluto/Eris base fields: every encoding (repr, bytes, raw, endian form, reader/writer) is that of c0 followed by that of c1, '
  'and decoders accept exactly strings whose two halves are canonical, never panicking; order is lexicographic with c1 most significant; is_odd is the parity of the first non-zero coefficient (sgn0), is_even its '
  'negation; lexicographically_largest looks at c1, or c0 when c1 is zero; integers embed in c0; uniform bytes map their second half to c0 and first half to c1.',
  ['inputs'], 'all (pairs of) elements, all byte strings of the encoding length, raw lengths around it',
  'elements with a zero coefficient, ties in c1 and invalid second halves are not sampled',
  ['src/derive/field/tower.rs', 'src/bn256/curve.rs', 'src/bls12381/g2.rs', 'src/pluto_eris/curve.rs'],
  [('impl_tower2', 'src/derive/field/tower.rs'), ('EndianRepr', 'src/*/curve.rs, src/bls12381/g2.rs')],
  CODECT, 'Relative to the base-field operations (C09, C23, C25). A panic on non-canonical input was repaired (720435c), parity in 962b595.' + BASE)

GROUP = TECH + 'in a free-module (group element) domain'
P('C15', 'Subgroup membership, cofactor clearing and subgroup conversion are exact',
  'On every curve, for every curve point P, including points outside the prime-order subgroup: is_torsion_free(P) holds exactly when [r]P is the identity; into_subgroup(P) '
  'returns P exactly in that case and nothing otherwise; clear_cofactor(P) always lies in the prime-order subgroup, and sends no subgroup point other than the identity to the identity; '
  'on curves of prime order (cofactor one) every point is torsion free and cofactor clearing is the identity map.',
  ['inputs'], 'all points of each curve group (not only of the subgroup), all representatives',
  'tests try a few points; small-order and mixed-order components of the cofactor group are never sampled, and endomorphism-based tests err only on those',
  ['src/derive/curve.rs', 'src/bn256/curve.rs', 'src/bls12381/g1.rs', 'src/bls12381/g2.rs', 'src/pluto_eris/curve.rs'],
  [('CofactorGroup: clear_cofactor, into_subgroup, is_torsion_free', 'src/derive/curve.rs and the curve modules')],
  GROUP, 'Each function is reduced to an integer combination of images of P under the curve endomorphisms; the exactness is then decided in the (known) group structure: '
  'group order, structure and endomorphism eigenvalues are established in sa/c15.py from the curve constants. Relative to the group law and endomorphism (C06, C07). '
  'A conversion that accepted points outside the subgroup was repaired (61feebb).' + BASE)

P('C26', 'Scalar multiplication is the exact multiple, in every operator form',
  'On every curve, for every scalar s and every point P (including the identity and s = 0): s times P, through each of the operator forms (projective or affine operand, '
  'by value, by reference, assigning), is the group sum of n copies of P, where n is the canonical integer of s. It never panics.',
  ['inputs'], 'all scalars, all points including the identity, all operator forms',
  'tests multiply random scalars; boundary scalars and digit patterns that exercise carries in window or split decompositions are not enumerated',
  ['src/derive/curve.rs', 'src/derive/mod.rs', 'src/ff_ext/mod.rs'], [('Mul for points', 'src/derive/curve.rs'), ('operator forwarding', 'src/derive/mod.rs')],
  GROUP, 'Scalar bits are symbolic; accumulators are kept as linear combinations with multilinear bit coefficients. Relative to the group law and encodings (C07, C08, C09).' + BASE)

P('C19', 'best_fft computes the discrete Fourier transform at any size and thread count',
  'For every vector of length 2^k of field elements or curve points and every primitive 2^k-th root of unity w, best_fft replaces entry i by the sum over j of w^(ij) times entry j, '
  'whatever the number of threads (serial, recursive and parallel paths agree); it does not panic on such input and refuses lengths other than 2^k.',
  ['inputs', 'schedules'], 'all vectors and roots for lengths 1..1024 (4096 in the thorough tier), thread counts 1, 2, 8, 64',
  'tests compare the parallel and serial paths of this same code, or invert one transform by another, at one or two sizes',
  ['src/fft.rs'], [('best_fft, recursive_butterfly_arithmetic, bitreverse', 'src/fft.rs')],
  GROUP, 'The transform is run on a generic vector with a symbolic root subject only to w^(n/2) = -1; bounded in length, exhaustive in values. rayon::join is taken to run both closures.' + BASE, level='other')

P('C17', 'Pairings are bilinear, non-degenerate, and agree in every form',
  'For BN256, BLS12-381 and Pluto, on points of the prime-order groups: the pairing is the optimal ate pairing of the curve (bilinear and non-degenerate), a product of pairings computed by one '
  'multi-Miller loop and one final exponentiation equals the product of the pairings, pairs with an identity count as one, and every entry point (engine, either side of pairing_with, multi-Miller loop) agrees. '
  'The target group\'s addition, subtraction, negation, doubling, sums, selection, equality, identity and scalar multiplication are those of the order-r group for all its elements and all scalars.',
  ['inputs'], 'all points of the prime-order groups, all scalars, all target group elements; products of up to three pairs with every placement of identities analysed',
  'tests check bilinearity on random points; nothing ties sparse line evaluation, exponent chains and edge operands together for all inputs',
  ['src/derive/pairing.rs', 'src/bn256/engine.rs', 'src/bls12381/engine.rs', 'src/pluto_eris/engine.rs'],
  [('multi_miller_loop, double, add, ell, final_exponentiation', 'src/*/engine.rs, src/derive/pairing.rs'), ('impl_gt!', 'src/derive/pairing.rs')],
  TECH + 'in an exponent domain (target group) and a divisor domain (Miller functions), with line steps as polynomial identities',
  'Divisors of the accumulated function are compared with the optimal ate function at the Frobenius images of Q (Vercauteren); final exponents are exact integers. Relative to tower arithmetic and Frobenius (C04, C05) and the group law (C07).' + BASE)

P('C18', 'Multi-scalar multiplication equals the sum of the products',
  'On every curve, for every list of scalars and curve points of equal length (zero scalars, repeated points, negated points and identities included): msm_parallel and msm_best return, and msm_serial '
  'started on the identity leaves, exactly the sum of scalar times point, whatever the number of threads. They do not panic on such input; lists of different lengths are refused by a panic, never by a wrong result.',
  ['inputs', 'schedules'], 'all scalars and points for the analysed lengths; lengths 0..5, 17 and 32 with every scalar symbolic, lengths up to 2981 (8104 in the thorough tier) with two symbolic scalars; 1, 2, 3 and 8 threads',
  'tests use distinct random points and random scalars, which never share a bucket with their own negation, and compare the variants with each other',
  ['src/msm.rs'], [('msm_serial, msm_parallel, msm_best, get_booth_index', 'src/msm.rs')],
  GROUP, 'Scalar digits are symbolic bit vectors, bucket states are joined by interpolation over the digits, and the accumulator is compared coefficient by coefficient. '
  'msm_parallel and msm_best are decided on top of msm_serial; the affine batch-addition path of msm_best (8104 points and more) has its own obligations (see DESIGN.md). '
  'Relative to the group law and encodings (C07, C08, C09). Repaired: ae22d06, 0ad8e55, 7f08289.' + BASE, level='other')

P('C14', 'Operations are functions of their arguments: no hidden state, no side effects',
  'Every function of the library computes its results from its arguments alone. None prints, touches files, network, processes or the environment, reads a clock, draws randomness other than from a generator '
  'it is given, or keeps mutable state between calls (lazily initialised constants that take nothing from the caller are allowed). Nothing depends on thread identity or scheduling, and only '
  'multi-scalar multiplication and the Fourier transform look at the number of threads.',
  ['inputs', 'histories', 'schedules'], 'all functions of the crate, with and without the assembly and table features, whatever was called before and from whatever thread',
  'tests call each function once or a few times in one process and cannot see output, caches or a dependence on earlier calls',
  ['src/ff_ext/quadratic.rs', 'src/msm.rs', 'src/fft.rs', 'src/bls12381/engine.rs', 'src/bn256/engine.rs', 'src/pluto_eris/engine.rs', 'src/derive/curve.rs', 'src/hash_to_curve.rs'],
  [('statics and lazily initialised tables', 'src/**'), ('rayon entry points', 'src/msm.rs, src/fft.rs')],
  'effect analysis over the compiler MIR of every function body (calls, statics, thread-locals, types of locals, assembly)',
  'Dependency crates and core/alloc are classified by name; a call the rule cannot classify is undecided, not proved. Repaired: f2cacbe (square roots printed).' + BASE)

P('C16', 'Hashing to a curve follows RFC 9380 for every message and domain prefix',
  'For every curve with hash_to_curve (BN256 G1/G2, BLS12-381 G1/G2, Pluto, Eris, Grumpkin, secp256k1, secp256r1, secq256k1), every message and every domain prefix that keeps the domain separation tag '
  'within 255 bytes: the result is map(u0) + map(u1), with the cofactor cleared, where u0, u1 are the two field elements of RFC 9380 hash_to_field (expand_message_xmd with SHA-256 over prefix plus suite name) '
  'and map is the simplified SWU map (with the isogeny of the suite) or the Shallue-van de Woestijne map of RFC 9380 with the documented Z, including all exceptional field elements. It never panics.',
  ['inputs'], 'all hashed field elements, exceptional ones included; messages of any content and length; prefixes of any content, at every admissible length for two curves (quick tier) or all curves (thorough tier), at representative lengths including the longest for the others',
  'tests check the RFC vectors: a handful of messages that never reach an exceptional case of the map and one prefix length',
  ['src/hash_to_curve.rs', 'src/secp256k1/curve.rs', 'src/secp256r1/curve.rs', 'src/bls12381/g1.rs', 'src/bls12381/g2.rs', 'src/bn256/curve.rs', 'src/pluto_eris/curve.rs', 'src/grumpkin/curve.rs', 'src/secq256k1/curve.rs'],
  [('expand_message, hash_to_field, sswu_map_to_curve, svdw_map_to_curve', 'src/hash_to_curve.rs'), ('isogeny maps', 'src/secp256k1/curve.rs, src/bls12381/g1.rs, src/bls12381/g2.rs')],
  TECH + 'with the hash uninterpreted and field values as exact rational functions of the hashed elements; roots of every expression that can vanish analysed one by one',
  'Every outcome of every square and sign test is followed. The isogeny coefficients are re-derived to be isogenies. The quick tier pairs the exceptional elements of the two maps once each. '
  'Relative to field arithmetic, square roots and parity (C01, C04, C12, C22), the group law (C07) and cofactor clearing (C15).' + BASE)

P('C22', 'Square roots exist exactly for squares, and are roots',
  'For every prime field and every quadratic extension of the library, sqrt(x) returns a value r with r^2 = x exactly when x is a square (zero included) and nothing otherwise, for every x; '
  'sqrt_ratio and sqrt_alt return a root of the ratio, or of the ratio times the non-residue ROOT_OF_UNITY, with the flag the ff contract prescribes, including zero numerators and denominators. None of these panics.',
  ['inputs'], 'all field elements and pairs of field elements',
  'tests square random elements and take roots; zero, elements of the base field, non-squares of small order and elements whose intermediate values vanish are not sampled',
  ['src/ff_ext/quadratic.rs', 'derive/src/field/mod.rs', 'src/bn256/fq2.rs', 'src/bls12381/fq2.rs', 'src/pluto_eris/fp2.rs'],
  [('sqrt_algo9, sqrt_algo10', 'src/ff_ext/quadratic.rs'), ('sqrt_impl', 'derive/src/field/mod.rs')],
  TECH + 'in a monomial domain (values are constants times powers of a symbolic root, with the group order as relation)',
  'An arbitrary non-zero element is c w^2 with c one or a fixed non-square; exponentiations are exact integer exponents; each degenerate sub-case is followed. '
  'Relative to field arithmetic (C01, C04). Repaired: 2d48ae8.' + BASE)

P('C24', 'Serde forms are the canonical encodings, and only they are accepted',
  'With the derive_serde feature, for every prime field, quadratic extension and curve point (projective and affine): serialisation writes the canonical encoding (to_repr; compressed bytes for points; for quadratic extensions the two coefficients c0 and c1), as a hex string in human-readable formats and as a fixed-size byte array otherwise. '
  'Deserialisation accepts exactly the canonical encodings of valid elements and returns the encoded one, reports an error otherwise, passes on every error of the format, and never panics.',
  ['inputs', 'fault_sequences'], 'all elements, all byte strings delivered by the format, all format errors',
  'tests round-trip a few random valid values through one binary and one readable format; acceptance of non-canonical or off-curve strings is not sampled',
  ['src/derive/field/common.rs', 'src/derive/curve.rs', 'src/ff_ext/quadratic.rs', 'src/serde.rs'],
  [('serialize_deserialize_primefield', 'src/derive/field/common.rs'), ('serialize_deserialize_to_from_bytes', 'src/derive/curve.rs'), ('derive(Serialize, Deserialize)', 'src/ff_ext/quadratic.rs')],
  TECH + 'in a bit-level codec domain, with the format primitives (hex::serde, serde_arrays) as the recorded boundary',
  'Relative to the field and point encodings (C09, C10).' + BASE)

P('C27', 'Random sampling is uniform by construction and lands in the subgroup',
  'For every prime field, extension field and curve, whatever the generator returns: a random field element is the reduction of fresh generator bytes, at least 128 bits longer than the modulus, with independent bytes for each coefficient; '
  'a random point is the curve point over a random x-coordinate with the cofactor cleared, so it lies in the prime-order subgroup, is never malformed, and takes each sign of y equally often. A refused candidate is never retried.',
  ['inputs'], 'all outputs of the random generator',
  'tests only check that a few sampled values lie on the curve; reuse of bytes, a missing sign or a point outside the subgroup with small probability goes unnoticed',
  ['derive/src/field/mod.rs', 'src/ff_ext/quadratic.rs', 'src/ff_ext/cubic.rs', 'src/derive/curve.rs'],
  [('Field::random', 'derive/src/field/mod.rs, src/ff_ext/*.rs'), ('random', 'src/derive/curve.rs')],
  TECH + 'with the generator as a source of fresh symbols, following both answers of every square and sign test',
  'Relative to byte reduction (C25), square roots (C22) and cofactor clearing (C15); up to two refused candidates are followed.' + BASE)
