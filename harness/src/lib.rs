//! Client functions of the public API of ed448-goldilocks.  They are the roots
//! of the verification: each is a thin call of one public operation, and its
//! contract (in /verif/vp/contracts) is a listed property.  The real code of the
//! crate is reached from here as compiled MIR.
#![allow(non_snake_case, clippy::all)]
use ed448_goldilocks::curve::edwards::{CompressedEdwardsY, ExtendedPoint};
use ed448_goldilocks::curve::MontgomeryPoint;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::CompressedRistretto;
use ed448_goldilocks::Scalar;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use rand_core::{CryptoRng, RngCore};

// ---------------------------------------------------------------- scalars
pub fn s_add(a: Scalar, b: Scalar) -> Scalar { a + b }
pub fn s_sub(a: Scalar, b: Scalar) -> Scalar { a - b }
pub fn s_mul(a: Scalar, b: Scalar) -> Scalar { a * b }
pub fn s_zero() -> Scalar { Scalar::zero() }
pub fn s_one() -> Scalar { Scalar::one() }
pub fn s_default() -> Scalar { Scalar::default() }
pub fn s_from_u32(a: u32) -> Scalar { Scalar::from(a) }
pub fn s_invert(a: &Scalar) -> Scalar { a.invert() }
pub fn s_halve(a: &Scalar) -> Scalar { a.halve() }
pub fn s_from_bytes(b: [u8; 56]) -> Scalar { Scalar::from_bytes(b) }
pub fn s_to_bytes(a: &Scalar) -> [u8; 56] { a.to_bytes() }
pub fn s_to_bytes_rfc(a: &Scalar) -> [u8; 57] { a.to_bytes_rfc_8032() }
pub fn s_from_canonical(b: [u8; 57]) -> Option<Scalar> { Scalar::from_canonical_bytes(b) }
#[cfg(not(vp_no_s_bits))]
pub fn s_bits(a: &Scalar) -> Vec<bool> { a.bits() }
pub fn s_wide(b: &[u8; 114]) -> Scalar { Scalar::from_bytes_mod_order_wide(b) }
pub fn s_eq(a: &Scalar, b: &Scalar) -> bool { a == b }
pub fn s_ne(a: &Scalar, b: &Scalar) -> bool { a != b }
pub fn s_ct_eq(a: &Scalar, b: &Scalar) -> Choice { a.ct_eq(b) }
pub fn s_index(a: &Scalar, i: usize) -> u32 { a[i] }
pub fn s_index_mut(a: &mut Scalar, i: usize, v: u32) { a[i] = v }
pub struct VRng;
impl RngCore for VRng {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, dest: &mut [u8]) { rng_fill(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { rng_fill(dest); Ok(()) }
}
impl CryptoRng for VRng {}
/// stands for any generator: its contract is "writes arbitrary bytes"
pub fn rng_fill(_dest: &mut [u8]) {}
pub fn s_random(r: &mut VRng) -> Scalar { Scalar::random(r) }

// ---------------------------------------------------------------- Edwards points
pub fn e_identity() -> ExtendedPoint { ExtendedPoint::identity() }
pub fn e_default() -> ExtendedPoint { ExtendedPoint::default() }
pub fn e_generator() -> ExtendedPoint { ExtendedPoint::generator() }
pub fn e_add(a: &ExtendedPoint, b: &ExtendedPoint) -> ExtendedPoint { ExtendedPoint::add(a, b) }
pub fn e_add_rr(a: &ExtendedPoint, b: &ExtendedPoint) -> ExtendedPoint { <&ExtendedPoint as core::ops::Add<&ExtendedPoint>>::add(a, b) }
pub fn e_add_vr(a: ExtendedPoint, b: &ExtendedPoint) -> ExtendedPoint { a + b }
pub fn e_add_rv(a: &ExtendedPoint, b: ExtendedPoint) -> ExtendedPoint { a + b }
pub fn e_add_vv(a: ExtendedPoint, b: ExtendedPoint) -> ExtendedPoint { a + b }
pub fn e_add_assign_r(a: &mut ExtendedPoint, b: &ExtendedPoint) { *a += b }
pub fn e_add_assign_v(a: &mut ExtendedPoint, b: ExtendedPoint) { *a += b }
pub fn e_sub_rr(a: &ExtendedPoint, b: &ExtendedPoint) -> ExtendedPoint { a - b }
pub fn e_sub_vr(a: ExtendedPoint, b: &ExtendedPoint) -> ExtendedPoint { a - b }
pub fn e_sub_rv(a: &ExtendedPoint, b: ExtendedPoint) -> ExtendedPoint { a - b }
pub fn e_sub_vv(a: ExtendedPoint, b: ExtendedPoint) -> ExtendedPoint { a - b }
pub fn e_sub_assign_r(a: &mut ExtendedPoint, b: &ExtendedPoint) { *a -= b }
pub fn e_sub_assign_v(a: &mut ExtendedPoint, b: ExtendedPoint) { *a -= b }
pub fn e_neg_r(a: &ExtendedPoint) -> ExtendedPoint { -a }
pub fn e_neg_v(a: ExtendedPoint) -> ExtendedPoint { -a }
pub fn e_negate(a: &ExtendedPoint) -> ExtendedPoint { a.negate() }
pub fn e_double(a: &ExtendedPoint) -> ExtendedPoint { a.double() }
#[cfg(not(vp_no_e_torque))]
pub fn e_torque(a: &ExtendedPoint) -> ExtendedPoint { a.torque() }
/// stand for any iterator: the contract of src_next is "yields an arbitrary point or ends"
pub struct Src;
pub struct SrcRef<'a>(pub &'a ExtendedPoint);
#[inline(never)]
pub fn src_next(_s: &mut Src) -> Option<ExtendedPoint> { None }
#[inline(never)]
pub fn src_next_ref<'a>(_s: &mut SrcRef<'a>) -> Option<&'a ExtendedPoint> { None }
impl Iterator for Src { type Item = ExtendedPoint; fn next(&mut self) -> Option<ExtendedPoint> { src_next(self) } }
impl<'a> Iterator for SrcRef<'a> { type Item = &'a ExtendedPoint; fn next(&mut self) -> Option<&'a ExtendedPoint> { src_next_ref(self) } }
pub fn e_sum_any(s: Src) -> ExtendedPoint { s.sum() }
pub fn e_sum_any_ref(s: SrcRef<'_>) -> ExtendedPoint { s.sum() }
pub fn e_sum0() -> ExtendedPoint { let v: [ExtendedPoint; 0] = []; v.iter().sum() }
pub fn e_sum3_ref(v: &[ExtendedPoint; 3]) -> ExtendedPoint { v.iter().sum() }
pub fn e_sum3_val(a: ExtendedPoint, b: ExtendedPoint, c: ExtendedPoint) -> ExtendedPoint { [a, b, c].iter().copied().sum() }
pub fn e_eq(a: &ExtendedPoint, b: &ExtendedPoint) -> bool { a == b }
pub fn e_ne(a: &ExtendedPoint, b: &ExtendedPoint) -> bool { a != b }
pub fn e_ct_eq(a: &ExtendedPoint, b: &ExtendedPoint) -> Choice { a.ct_eq(b) }
pub fn e_select(a: &ExtendedPoint, b: &ExtendedPoint, c: Choice) -> ExtendedPoint { ExtendedPoint::conditional_select(a, b, c) }
pub fn e_cassign(a: &mut ExtendedPoint, b: &ExtendedPoint, c: Choice) { a.conditional_assign(b, c) }
pub fn e_cswap(a: &mut ExtendedPoint, b: &mut ExtendedPoint, c: Choice) { ExtendedPoint::conditional_swap(a, b, c) }
pub fn e_is_torsion_free(a: &ExtendedPoint) -> bool { a.is_torsion_free() }
pub fn e_smul(p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint { p.scalar_mul(s) }
#[cfg(not(vp_no_e_smod4))]
pub fn e_smod4(p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint { p.scalar_mod_four(s) }
pub fn e_mul_rr(p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint { p * s }
pub fn e_mul_vr(p: ExtendedPoint, s: &Scalar) -> ExtendedPoint { p * s }
pub fn e_mul_rv(p: &ExtendedPoint, s: Scalar) -> ExtendedPoint { p * s }
pub fn e_mul_vv(p: ExtendedPoint, s: Scalar) -> ExtendedPoint { p * s }
pub fn e_lmul_rr(s: &Scalar, p: &ExtendedPoint) -> ExtendedPoint { s * p }
pub fn e_lmul_vr(s: Scalar, p: &ExtendedPoint) -> ExtendedPoint { s * p }
pub fn e_lmul_rv(s: &Scalar, p: ExtendedPoint) -> ExtendedPoint { s * p }
pub fn e_lmul_vv(s: Scalar, p: ExtendedPoint) -> ExtendedPoint { s * p }
pub fn e_mul_assign_r(p: &mut ExtendedPoint, s: &Scalar) { *p *= s }
pub fn e_mul_assign_v(p: &mut ExtendedPoint, s: Scalar) { *p *= s }
pub fn e_compress(p: &ExtendedPoint) -> CompressedEdwardsY { p.compress() }
pub fn e_decompress(c: &CompressedEdwardsY) -> Option<ExtendedPoint> { c.decompress() }
pub fn e_affine_rt(p: &ExtendedPoint) -> ExtendedPoint { p.to_affine().to_extended() }
#[cfg(not(vp_no_e_iso_rt))]
pub fn e_iso_rt(p: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_untwisted() }
pub fn e_to_montgomery(p: &ExtendedPoint) -> MontgomeryPoint { p.to_montgomery() }

// the twisted curve behind the isogeny (reachable, though its types cannot be named)
#[cfg(not(vp_no_t_double))]
pub fn t_double(p: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_extensible().double().to_extended().to_untwisted() }
#[cfg(not(vp_no_t_add))]
pub fn t_add(p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_extensible().add_extended(&q.to_twisted()).to_extended().to_untwisted() }
#[cfg(not(vp_no_t_sub))]
pub fn t_sub(p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_extensible().sub_extended(&q.to_twisted()).to_extended().to_untwisted() }
#[cfg(not(vp_no_t_addx))]
pub fn t_addx(p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_extensible().add_extensible(&q.to_twisted().to_extensible()).to_extended().to_untwisted() }
#[cfg(not(vp_no_t_addn))]
pub fn t_addn(p: &ExtendedPoint, q: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_extensible().add_projective_niels(&q.to_twisted().to_extensible().to_projective_niels()).to_extended().to_untwisted() }
#[cfg(not(vp_no_t_niels_rt))]
pub fn t_niels_rt(p: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().to_extensible().to_projective_niels().to_extended().to_untwisted() }
#[cfg(not(vp_no_t_neg))]
pub fn t_neg(p: &ExtendedPoint) -> ExtendedPoint { p.to_twisted().negate().to_untwisted() }
#[cfg(not(vp_no_t_eq))]
pub fn t_eq(p: &ExtendedPoint, q: &ExtendedPoint) -> bool { p.to_twisted() == q.to_twisted() }
#[cfg(not(vp_no_t_xeq))]
pub fn t_xeq(p: &ExtendedPoint, q: &ExtendedPoint) -> bool { p.to_twisted().to_extensible() == q.to_twisted().to_extensible() }
#[cfg(not(vp_no_t_torque_eq))]
pub fn t_torque_eq(p: &ExtendedPoint, q: &ExtendedPoint) -> bool { p.to_twisted().torque() == q.to_twisted() }
#[cfg(not(vp_no_t_neq))]
pub fn t_neq(p: &ExtendedPoint, q: &ExtendedPoint) -> bool { p.to_twisted().to_extensible().to_projective_niels() == q.to_twisted().to_extensible().to_projective_niels() }
#[cfg(not(vp_no_t_nneg))]
pub fn t_nneg(p: &ExtendedPoint, c: Choice) -> ExtendedPoint { let mut n = p.to_twisted().to_extensible().to_projective_niels(); subtle::ConditionallyNegatable::conditional_negate(&mut n, c); n.to_extended().to_untwisted() }
#[cfg(not(vp_no_t_nselect))]
pub fn t_nselect(p: &ExtendedPoint, q: &ExtendedPoint, c: Choice) -> ExtendedPoint { ConditionallySelectable::conditional_select(&p.to_twisted().to_extensible().to_projective_niels(), &q.to_twisted().to_extensible().to_projective_niels(), c).to_extended().to_untwisted() }
#[cfg(not(vp_no_t_select))]
pub fn t_select(p: &ExtendedPoint, q: &ExtendedPoint, c: Choice) -> ExtendedPoint { ConditionallySelectable::conditional_select(&p.to_twisted(), &q.to_twisted(), c).to_untwisted() }
#[cfg(not(vp_no_t_default))]
pub fn t_default(p: &ExtendedPoint) -> ExtendedPoint { let p = p.to_twisted(); let mut x = p; x = Default::default(); p.to_extensible().add_extended(&x).to_extended().to_untwisted() }
#[cfg(not(vp_no_t_ndefault))]
pub fn t_ndefault(p: &ExtendedPoint) -> ExtendedPoint { let p = p.to_twisted().to_extensible(); let mut x = p.to_projective_niels(); x = Default::default(); p.add_projective_niels(&x).to_extended().to_untwisted() }

// ---------------------------------------------------------------- Montgomery u-coordinates
pub fn m_mul(p: &MontgomeryPoint, s: &Scalar) -> MontgomeryPoint { p * s }
pub fn m_lmul(s: &Scalar, p: &MontgomeryPoint) -> MontgomeryPoint { s * p }
pub fn m_generator() -> MontgomeryPoint { MontgomeryPoint::generator() }
pub fn m_is_low_order(p: &MontgomeryPoint) -> bool { p.is_low_order() }
pub fn m_as_bytes(p: &MontgomeryPoint) -> [u8; 56] { *p.as_bytes() }
pub fn m_eq(a: &MontgomeryPoint, b: &MontgomeryPoint) -> bool { a == b }
pub fn m_ct_eq(a: &MontgomeryPoint, b: &MontgomeryPoint) -> Choice { a.ct_eq(b) }
pub fn m_proj_rt(p: &MontgomeryPoint) -> MontgomeryPoint { p.to_projective().to_affine() }
pub fn m_zeroize(p: &mut MontgomeryPoint) { zeroize::Zeroize::zeroize(p) }

// ---------------------------------------------------------------- decaf
pub fn d_identity() -> DecafPoint { DecafPoint::identity() }
pub fn d_generator() -> DecafPoint { DecafPoint::generator() }
pub fn d_cidentity() -> CompressedDecaf { CompressedDecaf::identity() }
pub fn d_equals(a: &DecafPoint, b: &DecafPoint) -> bool { a.equals(b) }
pub fn d_compress(a: &DecafPoint) -> CompressedDecaf { a.compress() }
pub fn d_decompress(c: &CompressedDecaf) -> Option<DecafPoint> { c.decompress() }
pub fn d_sub_m(a: &DecafPoint, b: &DecafPoint) -> DecafPoint { DecafPoint::sub(a, b) }
pub fn d_add_rr(a: &DecafPoint, b: &DecafPoint) -> DecafPoint { a + b }
pub fn d_add_vv(a: DecafPoint, b: DecafPoint) -> DecafPoint { a + b }
pub fn d_sub_rr(a: &DecafPoint, b: &DecafPoint) -> DecafPoint { <&DecafPoint as core::ops::Sub<&DecafPoint>>::sub(a, b) }
pub fn d_sub_vv(a: DecafPoint, b: DecafPoint) -> DecafPoint { a - b }
pub fn d_neg_r(a: &DecafPoint) -> DecafPoint { -a }
pub fn d_neg_v(a: DecafPoint) -> DecafPoint { -a }
pub fn d_mul_rr(p: &DecafPoint, s: &Scalar) -> DecafPoint { p * s }
pub fn d_mul_vv(p: DecafPoint, s: Scalar) -> DecafPoint { p * s }
pub fn d_lmul_rr(s: &Scalar, p: &DecafPoint) -> DecafPoint { s * p }
pub fn d_lmul_vv(s: Scalar, p: DecafPoint) -> DecafPoint { s * p }
pub fn d_ceq(a: &CompressedDecaf, b: &CompressedDecaf) -> bool { a == b }
pub fn d_ct_ceq(a: &CompressedDecaf, b: &CompressedDecaf) -> Choice { a.ct_eq(b) }
pub fn d_as_bytes(a: &CompressedDecaf) -> &[u8] { a.as_bytes() }

// ---------------------------------------------------------------- ristretto (the implemented part)
pub fn r_cidentity() -> CompressedRistretto { CompressedRistretto::identity() }
pub fn r_ceq(a: &CompressedRistretto, b: &CompressedRistretto) -> bool { a == b }
pub fn r_as_bytes(a: &CompressedRistretto) -> &[u8] { a.as_bytes() }
