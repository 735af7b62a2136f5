import json
A='src/field/scalar.rs'; ED='src/curve/edwards/extended.rs'; EA='src/curve/edwards/affine.rs'; TE='src/curve/twedwards/extended.rs'; TX='src/curve/twedwards/extensible.rs'; TP='src/curve/twedwards/projective.rs'; TA='src/curve/twedwards/affine.rs'
M='src/curve/montgomery/montgomery.rs'; D='src/decaf/decaf.rs'; DO='src/decaf/ops.rs'; K='src/constants.rs'; FM='src/field/mod.rs'; F64='src/field/fiat_u64/prime_field.rs'; F32='src/field/u32/prime_field.rs'; K32='src/field/u32/karatsuba.rs'
VB='src/curve/scalar_mul/variable_base.rs'; DA='src/curve/scalar_mul/double_and_add.rs'; W='src/curve/scalar_mul/window/wnaf/mod.rs'
import os
for f in list(globals().values()):
    if isinstance(f,str) and f.startswith('src/') and not os.path.exists('/repo/'+f): print('missing',f)
P=[]
def p(id,title,st,over,qt,why,files,mech,**k):
    assert len(title)<=80, title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**k)))
I=['inputs']; IC=['inputs','configurations']
p('C01','Scalar addition, subtraction and multiplication are exact modulo the group order',
 'For all scalars below the group order l, the sum and the difference equal (a+b) mod l and (a-b) mod l and are again below l; for all 448-bit scalars the product equals (a*b) mod l and is below l. The named constants zero and one, the default value and the conversion from a 32-bit integer have exactly the value they name.',
 I,'all pairs of scalars (2^892 pairs for + and -, 2^896 for *)','The tests multiply and add a few fixed scalars; a lost carry or a wrong conditional subtraction shows only for particular words.',[A],
 [('word-wise addition with conditional subtraction of l','Add/Sub and add/sub/sub_extra in '+A),('Montgomery multiplication','montgomery_multiply, Mul in '+A)])
p('C02','Scalar inversion and halving are exact modulo the group order',
 'The inverse of every scalar a not divisible by the group order l satisfies a * inverse = 1 mod l, and the inverse of a multiple of l is 0. Halving any scalar gives a value whose double is the scalar modulo l, and halving a reduced scalar gives a reduced one.',
 I,'all scalars','One round trip on one scalar is tested; the window exponentiation and the halving carry depend on every bit.',[A],
 [('windowed exponentiation to l-2','invert in '+A),('conditional addition of l and shift','halve in '+A)])
p('C03','Scalar encodings: exact value, canonical check accepts exactly values below l',
 'Decoding 56 bytes gives exactly their little-endian value, and encoding a scalar (56 bytes, 57 bytes with a final zero byte, or 448 bits) gives exactly its value, so decoding and encoding are inverse. The canonical decoding of 57 bytes accepts exactly the little-endian values below the group order and returns that value. Equality of scalars, in all its forms, is equality of values, and word access reads and writes exactly the addressed 32-bit word.',
 I,'all byte strings and all scalars, including values between l and 2^448 and non-zero top bytes','Tests decode a handful of strings; the boundary at l and each ignored bit need every input.',[A],
 [('byte and bit conversion','from_bytes, to_bytes, to_bytes_rfc_8032, bits in '+A),('canonical check','from_canonical_bytes in '+A),('equality','ConstantTimeEq/PartialEq for Scalar in '+A)])
p('C04','Wide reduction and random scalars: uniform bytes reduced exactly modulo l',
 'Reducing 114 bytes gives the little-endian value of all 114 bytes modulo the group order, fully reduced. A random scalar is exactly such a reduction of freshly drawn random bytes, at least 112 of them, each of which is used, so its bias is negligible.',
 I,'all 2^912 byte strings and all random streams','Tests use a couple of vectors; the top bytes and carries between the three parts matter only for rare values.',[A],
 [('three-part reduction','from_bytes_mod_order_wide in '+A),('random scalar','random in '+A)])
p('C05','Base field arithmetic is exact modulo p for every reachable representation',
 'For every field element in every limb representation that the library can produce, addition, subtraction, negation, multiplication, squaring, conditional selection and conditional negation give a representation of the exact result modulo p = 2^448-2^224-1. Results stay within the limb range that every later operation accepts, so arbitrary compositions remain exact. This holds for both arithmetic back ends.',
 IC,'all pairs of representations within the limb bounds, both back ends','Tests use random-looking field elements; unreduced limbs at the edge of their range need a specific history of operations.',[F64,F32,K32,FM],
 [('fiat 64-bit field',F64),('28-bit limb field with Karatsuba multiplication',F32+' and '+K32)],hook_needed='limb representations are private: replay uses the guarded access module')
p('C06','Field encodings are canonical; field equality and sign depend on the value only',
 'Encoding a field element gives the 56-byte little-endian form of its unique representative below p, whatever its internal representation, and decoding 56 bytes gives their value modulo p. Equality, the zero test and the sign (parity of the representative below p) depend on the value only.',
 IC,'all limb representations and all 56-byte strings, both back ends','Representations of the same value that differ (value p, p+1, limbs above range) arise only after particular operations.',[F64,F32,FM],
 [('strong reduction and serialisation','to_bytes, strong_reduce in '+F32+' and '+F64),('equality and sign','ConstantTimeEq, is_negative in '+FM)],hook_needed='limb representations are private: replay uses the guarded access module')
p('C07','Field inversion and inverse square root are exact, for non-squares and zero too',
 'Inversion returns 1/x for x not 0 and 0 for x = 0. The inverse square root returns r with r^2 * x = 1 and reports success exactly when x is a non-zero square, and the square-root-of-a-ratio operation of u and v reports success exactly when u is 0 or u*v is a non-zero square, and then returns r with r^2 * v = u.',
 IC,'all field elements, both back ends','Addition chains of some 450 steps are checked on a few values only; the zero and non-square cases are special.',[FM],
 [('exponentiation chain','inverse_square_root in '+FM),('inversion','invert in '+FM),('sqrt_ratio',FM)],hook_needed='limb representations are private: replay uses the guarded access module')
p('C08','Edwards addition, subtraction, doubling, negation and sums are the group law',
 'For all points of the curve x^2+y^2 = 1-39081x^2y^2, in any projective representation, every form of the addition, subtraction, doubling and negation operators (by value, by reference, assigning) returns a valid representation of the group-law result, with no exceptional cases (equal points, opposite points, identity, points of order 2 and 4). Summing a sequence of points gives the sum of all of them, and the identity for the empty sequence.',
 IC,'all pairs of curve points and all their representations, both back ends','Tests use multiples of the generator; exceptional pairs, torsion points and scaled representations are not sampled.',[ED,'src/macros.rs'],
 [('addition and doubling formulas','ExtendedPoint::add, double in '+ED),('operator forms','Add/Sub/Neg/AddAssign/SubAssign/Sum in '+ED)])
p('C09','Point equality, selection, torsion tests and named points mean what they say',
 'Two Edwards points compare equal exactly when they are the same affine point, whatever their projective representations. Conditional selection, assignment and swap return exactly the chosen point; the named points are the identity (0,1) and the standard base point, which has prime order l; torquing adds the point of order two; the torsion-free test is true exactly when l times the point is the identity; conversion to affine coordinates and back keeps the point.',
 IC,'all curve points and representations, both back ends','Equality that ignores a coordinate, or a torsion test off by one component, agrees on all points the tests use.',[ED,EA,K],
 [('equality','ConstantTimeEq/PartialEq for ExtendedPoint in '+ED),('torsion','is_torsion_free, torque in '+ED),('constants',K)])
p('C10','Edwards scalar multiplication computes [s]P for every point and every scalar',
 'For every curve point P, torsion included, in every representation, and every 448-bit scalar s, every form of scalar multiplication returns a valid representation of [s]P.',
 IC,'all points x 2^448 scalars, both back ends, all operator forms','A wrong table entry, window digit or carry is reached only by scalars with a particular digit pattern; torsion components only matter for points outside the prime-order subgroup.',[ED,VB,W,A],
 [('signed window multiplication on the twisted curve',VB),('lookup table',W),('recoding','to_radix_16 in '+A),('torsion correction','scalar_mul, scalar_mod_four in '+ED)])
p('C11','The isogenies and the twisted-curve arithmetic behind them are exact',
 'Mapping any Edwards point to the twisted curve and back gives four times the point. Between the two maps, doubling, addition, subtraction, negation, the cached (Niels) form and all changes of coordinates correspond to the group operations, so the composed result is four times the result on the original curve; conditional selection and negation there do the same, and equality on the twisted curve, in each form of coordinates, is equality of points.',
 IC,'all curve points (pairs), torsion included, and all representations, both back ends','Tests check single points; the two-step addition formulas and the dual isogeny have special behaviour on small-order points.',[ED,TE,TX,TP,TA],
 [('isogenies','to_twisted in '+ED+', to_untwisted in '+TE),('extended/extensible/Niels formulas',TX+', '+TP)])
p('C12','Edwards compression is canonical and inverse to decompression',
 'Compressing a point gives the canonical 56-byte encoding of y and a last byte holding only the parity of canonical x in its top bit, whatever the representation; decompressing it gives the same point back. Decompression of any 57 bytes succeeds exactly when some curve point has y equal to the first 56 bytes modulo p, and then returns a curve point with that y and, unless x is 0, with the sign given by the top bit.',
 IC,'all curve points and all 57-byte strings, both back ends','Tests round-trip a few multiples of the generator; non-square, x=0 and sign combinations need particular strings.',[ED,EA],
 [('compress','ExtendedPoint::compress in '+ED),('decompress','CompressedEdwardsY::decompress in '+ED)])
p('C13','Montgomery scalar multiplication is the RFC 7748 ladder for every u and scalar',
 'For every 56-byte u-coordinate (taken modulo p) and every 448-bit scalar, in both operand orders, multiplication returns the canonical encoding of the u-coordinate computed by the Montgomery ladder of RFC 7748 with all 448 bits of the scalar, and 0 for the point at infinity. Converting a u-coordinate to projective form and back gives its canonical encoding.',
 IC,'all 2^448 u-coordinates x 2^448 scalars, both back ends','Tests compare one even multiple; parity of the scalar, low-order inputs and non-canonical u are not sampled.',[M],
 [('ladder','Mul<&Scalar> for &MontgomeryPoint, differential_add_and_double in '+M)])
p('C14','Montgomery conversion, low-order test, comparison and wiping of u-coordinates',
 'Converting an Edwards point (x,y) gives the canonical encoding of y^2/x^2, and 0 when x is 0. The low-order test is true exactly when the u-coordinate is 0, 1 or -1 modulo p, canonically encoded or not; comparison, in all forms, is comparison of all bytes, the generator is u = 5, and wiping leaves all bytes zero.',
 IC,'all curve points and all 56-byte strings, both back ends','Only a single conversion is tested; non-canonical strings and small-order points are not.',[ED,M,K],
 [('to_montgomery',ED),('is_low_order',M+' and '+K)])
p('C15','Decaf decoding accepts exactly the valid canonical encodings',
 'Decoding a 56-byte string succeeds exactly when its value s is below p, even, not 1 or p-1, and (1-s^2)^2 + 4*39082*s^2 is a non-zero square modulo p. The result is then a valid point of the even subgroup of the twisted curve with x = 2s/(1-s^2) up to sign, with the sign choice that makes decoding the inverse of encoding.',
 IC,'all 2^448 strings, both back ends','Tests decode a few valid strings; each rejection rule (non-canonical, odd, non-square, +-1) must hold for all strings.',[D],
 [('decompress','CompressedDecaf::decompress in '+D)])
p('C16','Decaf encoding: one canonical encoding per group element, and it round-trips',
 'Encoding a group element gives the same bytes for each of its representatives (P and P plus the point of order two, in any projective representation), and these bytes always decode, to the same group element. Conversely every string that decodes is the encoding of what it decodes to; the identity encodes as 56 zero bytes, and comparing encodings compares all bytes.',
 IC,'all group elements and representations, all strings, both back ends','Representatives that differ by torsion or scaling occur only after particular histories; tests compare sixteen fixed multiples.',[D,'src/ristretto'],
 [('compress','DecafPoint::compress in '+D),('comparison','ConstantTimeEq for CompressedDecaf in '+D)])
p('C17','Decaf operations, scalar multiplication and equality are those of the group',
 'Addition, subtraction, negation and scalar multiplication by any 448-bit scalar, in all operator forms, return a representative of the exact group result. The equality test is true exactly when both represent the same group element; the identity and the generator are the neutral element and an element of order l.',
 IC,'all pairs of elements and representatives, all scalars, both back ends','Tests use multiples of the generator; torsion representatives and all bit patterns of the scalar are not covered.',[D,DO,DA,K],
 [('group operations',D+' and '+DO),('double-and-add',DA),('equals',D)])
p('C18','No operation of the public interface panics or overflows on any input',
 'Every implemented public operation on scalars, field elements behind points, Edwards points, Montgomery u-coordinates and decaf elements terminates without panic, arithmetic overflow, out-of-range index or failed internal assertion, for all inputs of its type that the library itself can produce or decode. Decoding arbitrary bytes fails only by returning none.',
 IC,'all inputs of all operations, both back ends, debug assertions and overflow checks on','An overflow in a limb multiplication or a carry assertion needs limbs at the edge of their range.',[A,F64,F32,K32,ED,M,D,W],
 [('overflow and index checks','every arithmetic operation; compiled with overflow checks and debug assertions')])
p('C19','Both arithmetic back ends compute the same results',
 'The 64-bit and the 32-bit back end give the same value for every field operation and the same bytes, flags and failures for every operation of the public interface, on every input.',
 IC,'all inputs, both configurations','The test suite runs each back end on its own samples and never compares them.',[F64,F32,K32,FM,'src/field/fiat_u64/constants.rs'],
 [('back-end selection','features fiat_u64_backend and u32_backend; '+FM)])
p('C20','Execution time and memory access do not depend on secret data',
 'Operations on secret scalars and points take the same sequence of branches and memory addresses for all values of the secret.',
 I,'all secret values','Functional tests do not observe time or addresses.',[A,VB,W,M],[('constant-time selection','subtle::Choice throughout')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
