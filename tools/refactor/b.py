X = 'src/curve/edwards/extended.rs'; S = 'src/field/scalar.rs'; TX = 'src/curve/twedwards/extensible.rs'; F = 'src/field/mod.rs'
U = 'src/field/u32/prime_field.rs'; M = 'src/curve/montgomery/montgomery.rs'; D = 'src/decaf/decaf.rs'; DO = 'src/decaf/ops.rs'
VB = 'src/curve/scalar_mul/variable_base.rs'; W = 'src/curve/scalar_mul/window/wnaf/mod.rs'; DA = 'src/curve/scalar_mul/double_and_add.rs'
EDITS = {
 's-add-iter': [(S, '''    for i in 0..14 {
        chain += (a[i] as u64) + (b[i] as u64);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }

    // Now reduce the results''', '''    for (r, (x, y)) in result.0.iter_mut().zip(a.0.iter().zip(b.0.iter())) {
        chain = (chain >> 32) + u64::from(*x) + u64::from(*y);
        *r = (chain & 0xffff_ffff) as u32;
    }
    chain >>= 32;

    // Now reduce the results''')],
 's-add-while': [(S, '''    for i in 0..14 {
        chain += (a[i] as u64) + (b[i] as u64);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }

    // Now reduce the results''', '''    let mut i = 0;
    while i < 14 {
        let (s, c1) = a[i].overflowing_add(b[i]);
        let (s, c2) = s.overflowing_add(chain as u32);
        result[i] = s;
        chain = (c1 | c2) as u64;
        i += 1;
    }

    // Now reduce the results''')],
 's-sub-mask': [(S, '''    chain = 0i64;
    for i in 0..14 {
        chain += (result[i] as i64) + ((MODULUS[i] as i64) & borrow);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }

    result
}''', '''    add_masked(&mut result, borrow as u32);
    result
}

fn add_masked(x: &mut Scalar, mask: u32) {
    let mut carry = 0u64;
    for i in 0..14 {
        carry += (x[i] as u64) + ((MODULUS[i] & mask) as u64);
        x[i] = carry as u32;
        carry >>= 32;
    }
}''')],
 's-div4': [(S, '''        for i in 0..=12 {
            self.0[i] = (self.0[i + 1] << 30) | (self.0[i] >> 2);
        }
        self.0[13] >>= 2''', '''        let mut carry = 0u32;
        for limb in self.0.iter_mut().rev() {
            let next = *limb << 30;
            *limb = (*limb >> 2) | carry;
            carry = next;
        }''')],
 's-radix': [(S, '''        for i in 0..112 {
            let carry = (output[i] + 8) >> 4;
            output[i] -= carry << 4;
            output[i + 1] += carry;
        }''', '''        let mut carry = 0i8;
        for i in 0..112 {
            let v = output[i] + carry;
            if v >= 8 {
                output[i] = v - 16;
                carry = 1;
            } else {
                output[i] = v;
                carry = 0;
            }
        }
        output[112] = carry;''')],
 's-bytes-le': [(S, '''        for i in 0..14 {
            let mut l = self.0[i];
            for j in 0..4 {
                res[4 * i + j] = l as u8;
                l >>= 8;
            }
        }
        res''', '''        for (chunk, limb) in res.chunks_exact_mut(4).zip(self.0.iter()) {
            chunk.copy_from_slice(&limb.to_le_bytes());
        }
        res'''), (S, '''            let out = load7(&bytes[i * 4..]);
            res[i] = out as u32;''', '''            res[i] = u32::from_le_bytes([bytes[4 * i], bytes[4 * i + 1], bytes[4 * i + 2], bytes[4 * i + 3]]);'''),
  (S, '''        let load7 = |input: &[u8]| -> u64 {
            (input[0] as u64)
                | ((input[1] as u64) << 8)
                | ((input[2] as u64) << 16)
                | ((input[3] as u64) << 24)
        };

''', '')],
 's-bits': [(S, '''            for j in 0..32 {
                bits.push(limb & (1 << j) != 0)
            }''', '''            let mut l = *limb;
            for _ in 0..32 {
                bits.push(l & 1 == 1);
                l >>= 1;
            }''')],
 's-bits-extend': [(S, '''        for limb in self.0.iter() {
            // Then we iterate each bit in the limb
            for j in 0..32 {
                bits.push(limb & (1 << j) != 0)
            }
        }''', '''        for i in 0..448 {
            bits.push((self.0[i / 32] >> (i % 32)) & 1 != 0);
        }''')],
 's-halve-branch': [(S, '''        let mask = 0u32.wrapping_sub(self[0] & 1);''', '''        let mask = if self[0] & 1 == 1 { u32::MAX } else { 0 };''')],
 's-canonical-cmp': [(S, '''        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
            Some(candidate)
        } else {
            None
        }''', '''        for i in (0..14).rev() {
            if candidate[i] < MODULUS[i] {
                return Some(candidate);
            }
            if candidate[i] > MODULUS[i] {
                return None;
            }
        }
        None''')],
 's-canonical-borrow': [(S, '''        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
            Some(candidate)
        } else {
            None
        }''', '''        let mut chain = 0i64;
        for i in 0..14 {
            chain += candidate[i] as i64 - MODULUS[i] as i64;
            chain >>= 32;
        }
        if chain < 0 { Some(candidate) } else { None }''')],
 's-eq-limbs': [(S, '''        self.to_bytes().ct_eq(&other.to_bytes())''', '''        self.0.ct_eq(&other.0)''')],
 's-wide-horner': [(S, '''        add(&lo, &hi).add(top)''', '''        let upper = add(&top, &hi);
        upper + lo''')],
 's-invert-pow': [(S, '''        let mut pre_comp = [Scalar::zero(); 8];
        let mut result = Scalar::zero();
''', '''        let base = montgomery_multiply(self, &R2);
        let mut acc = base;
        let mut e = MODULUS;
        e[0] -= 2;
        for i in (0..445).rev() {
            acc = acc.square();
            if (e[i / 32] >> (i % 32)) & 1 == 1 {
                acc = montgomery_multiply(&acc, &base);
            }
        }
        if true {
            return montgomery_multiply(&acc, &Scalar::one());
        }
        let mut pre_comp = [Scalar::zero(); 8];
        let mut result = Scalar::zero();
''')],
 's-mul-order': [(S, '''        let unreduced = montgomery_multiply(&self, &rhs);
        montgomery_multiply(&unreduced, &R2)''', '''        let lifted = montgomery_multiply(&rhs, &R2);
        montgomery_multiply(&self, &lifted)''')],
}
