//! Runs single operations of the real crate on given inputs: one command per line,
//! one answer per line ("PANIC" if the operation panics).  Used to replay failing
//! inputs; with `--cfg ed448_verif` points and field elements are given by limbs.
#![allow(non_snake_case, unexpected_cfgs)]
use ed448_goldilocks::curve::edwards::{CompressedEdwardsY, ExtendedPoint};
use ed448_goldilocks::curve::MontgomeryPoint;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use rand_core::{CryptoRng, RngCore};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn arr<const N: usize>(s: &str) -> [u8; N] { let mut a = [0u8; N]; a.copy_from_slice(&unhex(s)); a }
fn sc(s: &str) -> Scalar {
    // by words: independent of the decoding under test
    let b = unhex(s);
    let mut r = Scalar::zero();
    for i in 0..14 { r[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
    r
}
fn so(s: &Scalar) -> String { (0..14).map(|i| hex(&s[i].to_le_bytes())).collect() }
fn b(x: bool) -> String { (x as u8).to_string() }

#[cfg(ed448_verif)]
mod rep {
    use super::*;
    use ed448_goldilocks::verif::*;
    pub fn fe(s: &str) -> Fe { Fe::from_limbs(&s.split(',').map(|x| x.parse().unwrap()).collect::<Vec<u64>>()) }
    pub fn fo(f: &Fe) -> String { f.limbs().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
    fn four(s: &str) -> [Fe; 4] { let v: Vec<Fe> = s.split('/').map(fe).collect(); [v[0], v[1], v[2], v[3]] }
    pub fn pt(s: &str) -> ExtendedPoint { if s.contains('/') { edwards(&four(s)) } else { CompressedEdwardsY(arr(s)).decompress().unwrap() } }
    pub fn po(p: &ExtendedPoint) -> String { edwards_coordinates(p).iter().map(fo).collect::<Vec<_>>().join("/") }
    pub fn dp(s: &str) -> DecafPoint { if s.contains('/') { decaf(&four(s)) } else { CompressedDecaf(arr(s)).decompress().unwrap() } }
    pub fn d_o(p: &DecafPoint) -> String { decaf_coordinates(p).iter().map(fo).collect::<Vec<_>>().join("/") }
    pub fn fop(op: &str, a: &[&str]) -> Option<String> {
        Some(match op {
            "f_add" => fo(&fe(a[0]).add(&fe(a[1]))),
            "f_sub" => fo(&fe(a[0]).sub(&fe(a[1]))),
            "f_mul" => fo(&fe(a[0]).mul(&fe(a[1]))),
            "f_square" => fo(&fe(a[0]).square()),
            "f_negate" => fo(&fe(a[0]).negate()),
            "f_invert" => fo(&fe(a[0]).invert()),
            "f_isr" => { let (r, c) = fe(a[0]).inverse_square_root(); format!("{} {}", fo(&r), c as u8) }
            "f_sqrt_ratio" => { let (r, c) = fe(a[0]).sqrt_ratio(&fe(a[1])); format!("{} {}", fo(&r), c as u8) }
            "f_to_bytes" => hex(&fe(a[0]).to_bytes()),
            "f_from_bytes" => fo(&Fe::from_bytes(&arr(a[0]))),
            "f_eq" => b(fe(a[0]).eq(&fe(a[1]))),
            "f_is_zero" => b(fe(a[0]).is_zero()),
            "f_is_negative" => b(fe(a[0]).is_negative()),
            "f_select" => fo(&Fe::select(&fe(a[0]), &fe(a[1]), a[2].parse().unwrap())),
            "f_chain" | "f_chain_bytes" => {
                let v: Vec<Fe> = a[1..].iter().map(|x| fe(x)).collect();
                let mut st: Vec<Fe> = Vec::new();
                for c in a[0].chars() {
                    let r = match c {
                        'a'..='d' => v[c as usize - 'a' as usize],
                        's' => st.pop().unwrap().square(),
                        'n' => st.pop().unwrap().negate(),
                        _ => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); match c { '+' => x.add(&y), '-' => x.sub(&y), _ => x.mul(&y) } }
                    };
                    st.push(r);
                }
                let r = st.pop().unwrap();
                if op == "f_chain" { fo(&r) } else { format!("{} {}", hex(&r.to_bytes()), b(r.is_negative())) }
            }
            "f_cneg" => fo(&fe(a[0]).conditional_negate(a[1].parse().unwrap())),
            _ => return None,
        })
    }
}
#[cfg(not(ed448_verif))]
mod rep {
    use super::*;
    pub fn pt(s: &str) -> ExtendedPoint { CompressedEdwardsY(arr(s)).decompress().unwrap() }
    pub fn po(p: &ExtendedPoint) -> String {
        let g = ExtendedPoint::generator();
        format!("{}:{}:{}", hex(&p.compress().0), hex(&p.double().compress().0), hex(&(p + &g).compress().0))
    }
    pub fn dp(s: &str) -> DecafPoint { CompressedDecaf(arr(s)).decompress().unwrap() }
    pub fn d_o(p: &DecafPoint) -> String {
        let g = DecafPoint::generator();
        format!("{}:{}:{}", hex(&p.compress().0), hex(&(p + p).compress().0), hex(&(p + &g).compress().0))
    }
    pub fn fop(_: &str, _: &[&str]) -> Option<String> { None }
}
use rep::*;

struct Tape(Vec<u8>, usize);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.0[self.1 % self.0.len()]; self.1 += 1; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Tape {}

fn ch(s: &str) -> Choice { Choice::from(s.parse::<u8>().unwrap()) }
fn opt<T>(o: Option<T>, f: impl Fn(&T) -> String) -> String { match o { Some(x) => f(&x), None => "none".into() } }

fn run(op: &str, a: &[&str]) -> String {
    if let Some(r) = fop(op, a) { return r; }
    match op {
        "s_add" => so(&(sc(a[0]) + sc(a[1]))),
        "s_sub" => so(&(sc(a[0]) - sc(a[1]))),
        "s_mul" => so(&(sc(a[0]) * sc(a[1]))),
        "s_zero" => so(&Scalar::zero()),
        "s_one" => so(&Scalar::one()),
        "s_default" => so(&Scalar::default()),
        "s_from_u32" => so(&Scalar::from(a[0].parse::<u32>().unwrap())),
        "s_invert" => so(&sc(a[0]).invert()),
        "s_halve" => so(&sc(a[0]).halve()),
        "s_from_bytes" => so(&Scalar::from_bytes(arr(a[0]))),
        "s_to_bytes" => hex(&sc(a[0]).to_bytes()),
        "s_to_bytes_rfc" => hex(&sc(a[0]).to_bytes_rfc_8032()),
        "s_from_canonical" => opt(Scalar::from_canonical_bytes(arr(a[0])), so),
        "s_bits" => sc(a[0]).bits().iter().map(|x| if *x { '1' } else { '0' }).collect(),
        "s_wide" => so(&Scalar::from_bytes_mod_order_wide(&arr(a[0]))),
        "s_eq" => b(sc(a[0]) == sc(a[1])),
        "s_ne" => b(sc(a[0]) != sc(a[1])),
        "s_ct_eq" => b(sc(a[0]).ct_eq(&sc(a[1])).into()),
        "s_random" => { let mut t = Tape(unhex(a[0]), 0); let s = Scalar::random(&mut t); format!("{} {}", so(&s), t.1) }
        "e_identity" => po(&ExtendedPoint::identity()),
        "e_default" => po(&ExtendedPoint::default()),
        "e_generator" => po(&ExtendedPoint::generator()),
        "e_add" => po(&ExtendedPoint::add(&pt(a[0]), &pt(a[1]))),
        "e_add_rr" => po(&(&pt(a[0]) + &pt(a[1]))),
        "e_add_vr" => po(&(pt(a[0]) + &pt(a[1]))),
        "e_add_rv" => po(&(&pt(a[0]) + pt(a[1]))),
        "e_add_vv" => po(&(pt(a[0]) + pt(a[1]))),
        "e_add_assign_r" => { let mut p = pt(a[0]); p += &pt(a[1]); po(&p) }
        "e_add_assign_v" => { let mut p = pt(a[0]); p += pt(a[1]); po(&p) }
        "e_sub_rr" => po(&(&pt(a[0]) - &pt(a[1]))),
        "e_sub_vr" => po(&(pt(a[0]) - &pt(a[1]))),
        "e_sub_rv" => po(&(&pt(a[0]) - pt(a[1]))),
        "e_sub_vv" => po(&(pt(a[0]) - pt(a[1]))),
        "e_sub_assign_r" => { let mut p = pt(a[0]); p -= &pt(a[1]); po(&p) }
        "e_sub_assign_v" => { let mut p = pt(a[0]); p -= pt(a[1]); po(&p) }
        "e_neg_r" => po(&(-&pt(a[0]))),
        "e_neg_v" => po(&(-pt(a[0]))),
        "e_negate" => po(&pt(a[0]).negate()),
        "e_double" => po(&pt(a[0]).double()),
        "e_torque" => po(&pt(a[0]).torque()),
        "e_sum_ref" => { let v: Vec<ExtendedPoint> = a.iter().map(|x| pt(x)).collect(); po(&v.iter().sum()) }
        "e_sum_val" => { let v: Vec<ExtendedPoint> = a.iter().map(|x| pt(x)).collect(); po(&v.into_iter().sum()) }
        "e_eq" => b(pt(a[0]) == pt(a[1])),
        "e_ne" => b(pt(a[0]) != pt(a[1])),
        "e_ct_eq" => b(pt(a[0]).ct_eq(&pt(a[1])).into()),
        "e_select" => po(&ExtendedPoint::conditional_select(&pt(a[0]), &pt(a[1]), ch(a[2]))),
        "e_cassign" => { let mut p = pt(a[0]); p.conditional_assign(&pt(a[1]), ch(a[2])); po(&p) }
        "e_cswap" => { let (mut p, mut q) = (pt(a[0]), pt(a[1])); ExtendedPoint::conditional_swap(&mut p, &mut q, ch(a[2])); format!("{} {}", po(&p), po(&q)) }
        "e_is_torsion_free" => b(pt(a[0]).is_torsion_free()),
        "e_smul" => po(&pt(a[0]).scalar_mul(&sc(a[1]))),
        "e_smod4" => po(&pt(a[0]).scalar_mod_four(&sc(a[1]))),
        "e_mul_rr" => po(&(&pt(a[0]) * &sc(a[1]))),
        "e_mul_vr" => po(&(pt(a[0]) * &sc(a[1]))),
        "e_mul_rv" => po(&(&pt(a[0]) * sc(a[1]))),
        "e_mul_vv" => po(&(pt(a[0]) * sc(a[1]))),
        "e_lmul_rr" => po(&(&sc(a[1]) * &pt(a[0]))),
        "e_lmul_vr" => po(&(sc(a[1]) * &pt(a[0]))),
        "e_lmul_rv" => po(&(&sc(a[1]) * pt(a[0]))),
        "e_lmul_vv" => po(&(sc(a[1]) * pt(a[0]))),
        "e_mul_assign_r" => { let mut p = pt(a[0]); p *= &sc(a[1]); po(&p) }
        "e_mul_assign_v" => { let mut p = pt(a[0]); p *= sc(a[1]); po(&p) }
        "e_compress" => hex(&pt(a[0]).compress().0),
        "e_decompress" => opt(CompressedEdwardsY(arr(a[0])).decompress(), po),
        "e_affine_rt" => po(&pt(a[0]).to_affine().to_extended()),
        "e_iso_rt" => po(&pt(a[0]).to_twisted().to_untwisted()),
        "e_to_montgomery" => hex(&pt(a[0]).to_montgomery().0),
        "t_double" => po(&pt(a[0]).to_twisted().to_extensible().double().to_extended().to_untwisted()),
        "t_add" => po(&pt(a[0]).to_twisted().to_extensible().add_extended(&pt(a[1]).to_twisted()).to_extended().to_untwisted()),
        "t_sub" => po(&pt(a[0]).to_twisted().to_extensible().sub_extended(&pt(a[1]).to_twisted()).to_extended().to_untwisted()),
        "t_addx" => po(&pt(a[0]).to_twisted().to_extensible().add_extensible(&pt(a[1]).to_twisted().to_extensible()).to_extended().to_untwisted()),
        "t_addn" => po(&pt(a[0]).to_twisted().to_extensible().add_projective_niels(&pt(a[1]).to_twisted().to_extensible().to_projective_niels()).to_extended().to_untwisted()),
        "t_niels_rt" => po(&pt(a[0]).to_twisted().to_extensible().to_projective_niels().to_extended().to_untwisted()),
        "t_neg" => po(&pt(a[0]).to_twisted().negate().to_untwisted()),
        "t_eq" => b(pt(a[0]).to_twisted() == pt(a[1]).to_twisted()),
        "t_xeq" => b(pt(a[0]).to_twisted().to_extensible() == pt(a[1]).to_twisted().to_extensible()),
        "t_neq" => b(pt(a[0]).to_twisted().to_extensible().to_projective_niels() == pt(a[1]).to_twisted().to_extensible().to_projective_niels()),
        "t_nneg" => { let mut n = pt(a[0]).to_twisted().to_extensible().to_projective_niels(); subtle::ConditionallyNegatable::conditional_negate(&mut n, ch(a[1])); po(&n.to_extended().to_untwisted()) }
        "t_nselect" => po(&ConditionallySelectable::conditional_select(&pt(a[0]).to_twisted().to_extensible().to_projective_niels(), &pt(a[1]).to_twisted().to_extensible().to_projective_niels(), ch(a[2])).to_extended().to_untwisted()),
        "t_select" => po(&ConditionallySelectable::conditional_select(&pt(a[0]).to_twisted(), &pt(a[1]).to_twisted(), ch(a[2])).to_untwisted()),
        "t_torque_eq" => b(pt(a[0]).to_twisted().torque() == pt(a[1]).to_twisted()),
        "m_mul" => hex(&(&MontgomeryPoint(arr(a[0])) * &sc(a[1])).0),
        "m_lmul" => hex(&(&sc(a[1]) * &MontgomeryPoint(arr(a[0]))).0),
        "m_generator" => hex(&MontgomeryPoint::generator().0),
        "m_is_low_order" => b(MontgomeryPoint(arr(a[0])).is_low_order()),
        "m_as_bytes" => hex(MontgomeryPoint(arr(a[0])).as_bytes()),
        "m_eq" => b(MontgomeryPoint(arr(a[0])) == MontgomeryPoint(arr(a[1]))),
        "m_ct_eq" => b(MontgomeryPoint(arr(a[0])).ct_eq(&MontgomeryPoint(arr(a[1]))).into()),
        "m_proj_rt" => hex(&MontgomeryPoint(arr(a[0])).to_projective().to_affine().0),
        "m_zeroize" => { let mut p = MontgomeryPoint(arr(a[0])); zeroize::Zeroize::zeroize(&mut p); hex(&p.0) }
        "d_identity" => d_o(&DecafPoint::identity()),
        "d_generator" => d_o(&DecafPoint::generator()),
        "d_cidentity" => hex(&CompressedDecaf::identity().0),
        "d_equals" => b(dp(a[0]).equals(&dp(a[1]))),
        "d_compress" => hex(&dp(a[0]).compress().0),
        "d_decompress" => opt(CompressedDecaf(arr(a[0])).decompress(), d_o),
        "d_sub_m" => d_o(&DecafPoint::sub(&dp(a[0]), &dp(a[1]))),
        "d_add_rr" => d_o(&(&dp(a[0]) + &dp(a[1]))),
        "d_add_vv" => d_o(&(dp(a[0]) + dp(a[1]))),
        "d_sub_rr" => d_o(&<&DecafPoint as core::ops::Sub<&DecafPoint>>::sub(&dp(a[0]), &dp(a[1]))),
        "d_sub_vv" => d_o(&(dp(a[0]) - dp(a[1]))),
        "d_neg_r" => d_o(&(-&dp(a[0]))),
        "d_neg_v" => d_o(&(-dp(a[0]))),
        "d_mul_rr" => d_o(&(&dp(a[0]) * &sc(a[1]))),
        "d_mul_vv" => d_o(&(dp(a[0]) * sc(a[1]))),
        "d_lmul_rr" => d_o(&(&sc(a[1]) * &dp(a[0]))),
        "d_lmul_vv" => d_o(&(sc(a[1]) * dp(a[0]))),
        "d_ceq" => b(CompressedDecaf(arr(a[0])) == CompressedDecaf(arr(a[1]))),
        "d_ct_ceq" => b(CompressedDecaf(arr(a[0])).ct_eq(&CompressedDecaf(arr(a[1]))).into()),
        _ => format!("unknown {}", op),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() { out.flush().unwrap(); continue; }
        let r = catch_unwind(AssertUnwindSafe(|| run(w[0], &w[1..])));
        writeln!(out, "{}", r.unwrap_or_else(|_| "PANIC".into())).unwrap();
    }
}
