"""behaviour-preserving edits of the u32 field back end and of the scalar field"""
import re
S = 'src/field/scalar.rs'; U = 'src/field/u32/prime_field.rs'; K = 'src/field/u32/karatsuba.rs'; FI = 'src/field/fiat_u64/prime_field.rs'; F = 'src/field/mod.rs'
_k = open('/repo/' + K).read(); _u = open('/repo/' + U).read(); _s = open('/repo/' + S).read(); _fi = open('/repo/' + FI).read()
def body(src, start, end):
    i = src.index(start); j = src.index(end, i); return src[i:j]
MUL = body(_k, 'pub(crate) fn mul(', '// XXX: unroll and re-write')
SQ = body(_k, '    // final\n    accum0 += accum1;', '    c\n}')
WR = body(_u, '    pub(crate) fn weak_reduce', '    /// Reduces the field element to a canonical')
SR = body(_u, '        let mut scarry = 0i64;', '        // This last shift is only needed')
ANR = body(_u, '    pub(crate) fn add_no_reduce', '    /// Subtracts the two field elements')
BIAS = body(_u, '    pub(crate) fn bias(', '    pub(crate) fn weak_reduce')
SEL = body(_u, '        FieldElement28([\n            u32::conditional_select(&a.0[0]', '    }\n}\n\nimpl Default')
EDITS = {
 'u-mul-school': [(K, MUL, '''pub(crate) fn mul(a: &FieldElement28, b: &FieldElement28) -> FieldElement28 {
    const MASK: u128 = (1 << 28) - 1;
    // schoolbook product, columns 0..31
    let mut t = [0u128; 32];
    for i in 0..16 {
        for j in 0..16 {
            t[i + j] += (a[i] as u128) * (b[j] as u128);
        }
    }
    // 2^448 = 2^224 + 1
    for i in (16..32).rev() {
        let v = t[i];
        t[i - 8] += v;
        t[i - 16] += v;
        t[i] = 0;
    }
    let mut c = FieldElement28::zero();
    let mut carry = 0u128;
    for i in 0..16 {
        carry += t[i];
        c[i] = (carry & MASK) as u32;
        carry >>= 28;
    }
    // the carry stands for carry * (2^224 + 1)
    let mut lo = carry;
    for i in 0..16 {
        if i == 8 {
            lo += carry;
        }
        lo += c[i] as u128;
        c[i] = (lo & MASK) as u32;
        lo >>= 28;
    }
    c[0] += lo as u32;
    c[8] += lo as u32;
    c
}

''')],
 'u-mul-helper': [(K, '''    let m = |a: u32, b: u32| -> i128 { (a as i128) * (b as i128) };

    let (mut z0''', '''    fn m(a: u32, b: u32) -> i128 {
        i128::from(a) * i128::from(b)
    }

    let (mut z0''')],
 'u-sq-mul': [(U, 'karatsuba::square(self)', 'karatsuba::mul(self, self)')],
 'u-sq-final': [(K, SQ, '''    // final
    let top = accum1;
    let fold = |low: u32, extra: u64| -> (u32, u32) {
        let v = extra + low as u64;
        ((v as u32) & MASK, (v >> 28) as u32)
    };
    let (r8, c9) = fold(c[8], accum0 + top);
    let (r0, c1) = fold(c[0], top);
    c[8] = r8;
    c[0] = r0;
    c[9] += c9;
    c[1] += c1;

''')],
 'u-weak-loop': [(U, WR, '''    pub(crate) fn weak_reduce(&mut self) {
        const MASK: u32 = (1 << 28) - 1;

        let top = self[15] >> 28;
        self[8] += top;
        for i in (1..16).rev() {
            self[i] = (self[i] & MASK) + (self[i - 1] >> 28);
        }
        self[0] = (self[0] & MASK) + top;
    }

''')],
 'u-weak-fwd': [(U, WR, '''    pub(crate) fn weak_reduce(&mut self) {
        const MASK: u32 = (1 << 28) - 1;

        let top = self[15] >> 28;
        let mut prev = top;
        self[8] += top;
        for limb in self.0.iter_mut() {
            let carry = *limb >> 28;
            *limb = (*limb & MASK) + prev;
            prev = carry;
        }
    }

''')],
 'u-strong-loop': [(U, SR, '''        const P: [u32; 16] = [
            0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
            0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
        ];
        let mut scarry = 0i64;
        for i in 0..16 {
            scarry += sub_carry(self[i], P[i] as i64);
            self[i] = (scarry as u32) & MASK;
            scarry >>= 28;
        }
        let scarry_mask = (scarry as u32) & MASK;
        let mut carry = 0u64;
        for i in 0..16 {
            carry += add_carry(self[i], (scarry_mask & P[i]) as u64);
            self[i] = (carry as u32) & MASK;
            carry >>= 28;
        }
        carry <<= 28;

''')],
 'u-add-fromfn': [(U, ANR, '''    pub(crate) fn add_no_reduce(&self, rhs: &FieldElement28) -> FieldElement28 {
        FieldElement28(std::array::from_fn(|i| self.0[i] + rhs.0[i]))
    }

''')],
 'u-bias-loop': [(U, BIAS, '''    pub(crate) fn bias(a: &FieldElement28, b: u32) -> FieldElement28 {
        const MASK: u32 = (1 << 28) - 1;
        let mut r = *a;
        for (i, l) in r.0.iter_mut().enumerate() {
            let p = if i == 8 { MASK - 1 } else { MASK };
            *l = l.wrapping_add(b * p);
        }
        r
    }

''')],
 'u-sel-loop': [(U, SEL, '''        let mut r = [0u32; 16];
        for i in 0..16 {
            r[i] = u32::conditional_select(&a.0[i], &b.0[i], choice);
        }
        FieldElement28(r)
''')],
 'u-sel-mask': [(U, SEL, '''        let mask = 0u32.wrapping_sub(choice.unwrap_u8() as u32);
        let mut r = [0u32; 16];
        for i in 0..16 {
            r[i] = (a.0[i] & !mask) | (b.0[i] & mask);
        }
        FieldElement28(r)
''')],
 'u-frombytes': [(U, '''            let out = load7(&bytes[i * 7..]);
            // Process two 28-bit limbs
            res[2 * i] = (out as u32) & MASK;
            res[2 * i + 1] = (out >> 28) as u32;''', '''            let mut word = [0u8; 8];
            word[..7].copy_from_slice(&bytes[7 * i..7 * i + 7]);
            let out = u64::from_le_bytes(word);
            let _ = &load7;
            res[2 * i] = (out & (MASK as u64)) as u32;
            res[2 * i + 1] = ((out >> 28) & (MASK as u64)) as u32;''')],
 'u-tobytes': [(U, '''            let mut l = (limbs[2 * i] as u64) + ((limbs[2 * i + 1] as u64) << 28);

            for j in 0..7 {
                res[7 * i + j] = l as u8;
                l >>= 8;
            }''', '''            let l = (limbs[2 * i] as u64) | ((limbs[2 * i + 1] as u64) << 28);
            res[7 * i..7 * i + 7].copy_from_slice(&l.to_le_bytes()[..7]);''')],
 'u-tobytes2': [(U, '''            let mut l = (limbs[2 * i] as u64) + ((limbs[2 * i + 1] as u64) << 28);

            for j in 0..7 {
                res[7 * i + j] = l as u8;
                l >>= 8;
            }''', '''            let l = (limbs[2 * i] as u64) + ((limbs[2 * i + 1] as u64) << 28);
            res[7 * i..7 * i + 7].copy_from_slice(&l.to_le_bytes()[..7]);''')],
 'u-neg': [(U, 'FieldElement28::zero() - *self', '''let mut r = FieldElement28::bias(&FieldElement28::zero(), 2).sub_no_reduce(self);
        r.weak_reduce();
        r''')],
 'u-cneg': [(U, '''        let self_neg = self.clone().negate();
        self.conditional_assign(&self_neg, choice);''', '''        let neg = self.negate();
        *self = FieldElement28::conditional_select(self, &neg, choice);''')],
 'u-cneg-branch': [(U, '''        let self_neg = self.clone().negate();
        self.conditional_assign(&self_neg, choice);''', '''        if bool::from(choice) {
            *self = self.negate();
        }''')],
 'fi-cneg-branch': [(FI, '''        let self_neg = self.clone().negate();
        self.conditional_assign(&self_neg, choice);''', '''        if bool::from(choice) {
            *self = self.negate();
        }''')],
 'fi-sel-loop': [(FI, '''        let mut result = FieldElement56::zero();
        fiat_p448_selectznz(&mut (result.0).0, choice.unwrap_u8(), &(a.0).0, &(b.0).0);
        result''', '''        let mask = 0u64.wrapping_sub(choice.unwrap_u8() as u64);
        let mut result = FieldElement56::zero();
        for i in 0..8 {
            (result.0).0[i] = (a.0).0[i] ^ (mask & ((a.0).0[i] ^ (b.0).0[i]));
        }
        result''')],
 'fi-sub-neg': [(FI, '''        let mut result_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_sub(&mut result_loose, &self.0, &rhs.0);
        let mut result = FieldElement56::zero();
        fiat_p448_carry(&mut result.0, &result_loose);
        result''', '''        self + rhs.negate()''')],
 'f-isneg-neg': [(U, '''        let bytes = self.to_bytes();
        (bytes[0] & 1).into()''', '''        let mut c = *self;
        c.strong_reduce();
        Choice::from((c[0] & 1) as u8)''')],
 'f-eq-sub': [(F, 'self.to_bytes().ct_eq(&other.to_bytes())', '(*self - *other).to_bytes().ct_eq(&[0u8; 56])')],
 'f-isr-pow': [(F, '''        let is_residue = l0.ct_eq(&FieldElement::one());
        (l1, is_residue)''', '''        let check = l1.square() * self;
        let is_residue = check.ct_eq(&FieldElement::one());
        let _ = l0;
        (l1, is_residue)''')],
 's-mont-split': [(S, '''        for j in 0..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            if j > 0 {
                result[j - 1] = chain as u32;
            }
            chain >>= 32;
        }''', '''        chain += mul_add(multiplicand, MODULUS[0], result[0]);
        chain >>= 32;
        for j in 1..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            result[j - 1] = chain as u32;
            chain >>= 32;
        }''')],
 's-mont-sos': [(S, body(_s, '    let mut result = Scalar::zero();\n    let mut carry = 0u32;', '#[cfg(test)]\nmod test'), '''    let mut t = [0u32; 29];
    for i in 0..14 {
        let mut c = 0u64;
        for j in 0..14 {
            let v = (x[i] as u64) * (y[j] as u64) + (t[i + j] as u64) + c;
            t[i + j] = v as u32;
            c = v >> 32;
        }
        t[i + 14] = c as u32;
    }
    for i in 0..14 {
        let q = t[i].wrapping_mul(MONTGOMERY_FACTOR);
        let mut c = 0u64;
        for j in 0..14 {
            let v = (q as u64) * (MODULUS[j] as u64) + (t[i + j] as u64) + c;
            t[i + j] = v as u32;
            c = v >> 32;
        }
        let mut k = i + 14;
        while k < 29 {
            let v = (t[k] as u64) + c;
            t[k] = v as u32;
            c = v >> 32;
            k += 1;
        }
    }
    let result = Scalar(std::array::from_fn(|i| t[14 + i]));
    sub_extra(&result, &MODULUS, t[28])
}
''')],
 's-sub-select': [(S, '''    let borrow = chain + (carry as i64);

    chain = 0i64;
    for i in 0..14 {
        chain += (result[i] as i64) + ((MODULUS[i] as i64) & borrow);''', '''    let borrow = chain + (carry as i64);
    let add_back = borrow != 0;

    chain = 0i64;
    for i in 0..14 {
        chain += (result[i] as i64) + (if add_back { MODULUS[i] as i64 } else { 0 });''')],
 's-sub-early': [(S, '''    let borrow = chain + (carry as i64);

    chain = 0i64;
''', '''    let borrow = chain + (carry as i64);
    if borrow == 0 {
        return result;
    }

    chain = 0i64;
''')],
 's-inv-fermat': [(S, body(_s, '        let mut pre_comp = [Scalar::zero(); 8];', '    /// Halves a Scalar modulo'), '''        // a^(l-2)
        let base = montgomery_multiply(self, &R2);
        let mut e = MODULUS;
        e[0] -= 2;
        let mut acc = R;
        for i in (0..446).rev() {
            acc = acc.square();
            if (e[i / 32] >> (i % 32)) & 1 == 1 {
                acc = montgomery_multiply(&acc, &base);
            }
        }
        montgomery_multiply(&acc, &Scalar::one())
    }

''')],
 's-halve-shift': [(S, '''        for i in 0..13 {
            result[i] = (result[i] >> 1) | (result[i + 1] << 31);
        }
        result[13] = (result[13] >> 1) | ((chain << 31) as u32);''', '''        let mut top = chain as u32;
        for i in (0..14).rev() {
            let low = result[i] & 1;
            result[i] = (result[i] >> 1) | (top << 31);
            top = low;
        }''')],
 's-wide-loop': [(S, '''        add(&lo, &hi).add(top)''', '''        let mut acc = Scalar::zero();
        for part in [lo, hi, top].iter() {
            acc = acc + *part;
        }
        acc''')],
 's-frombytes-chunk': [(S, '''        for i in 0..14 {
            // Load i'th 32 bytes
            let out = load7(&bytes[i * 4..]);
            res[i] = out as u32;
        }''', '''        let _ = &load7;
        for (limb, chunk) in res.0.iter_mut().zip(bytes.chunks_exact(4)) {
            *limb = u32::from_le_bytes([chunk[0], chunk[1], chunk[2], chunk[3]]);
        }''')],
}
