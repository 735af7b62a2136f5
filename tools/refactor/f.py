"""more behaviour-preserving edits: comparison idioms, curve and decaf layer, recoding"""
F = 'src/field/mod.rs'; D = 'src/decaf/decaf.rs'; X = 'src/curve/edwards/extended.rs'; S = 'src/field/scalar.rs'
T = 'src/curve/twedwards/extended.rs'; VB = 'src/curve/scalar_mul/variable_base.rs'; M = 'src/curve/montgomery/montgomery.rs'
FCT = '        self.to_bytes().ct_eq(&other.to_bytes())'
DCT = '        self.as_bytes().ct_eq(other.as_bytes())'
DCAN = '''        let s_encoding_is_canonical = &s_bytes_check[..].ct_eq(&self.0);
        let s_is_negative = s.is_negative();
        if s_encoding_is_canonical.unwrap_u8() == 0u8 || s.is_negative().unwrap_u8() == 1u8 {
            return None;
        }
'''
ISO = '''        // Compute x
        let xy = x * y;
        let x_numerator = xy + xy;
        let x_denom = y.square() - (a * x.square());
        let new_x = x_numerator * x_denom.invert();

        // Compute y
        let y_numerator = y.square() + (a * x.square());
        let y_denom = (FieldElement::one() + FieldElement::one()) - y.square() - (a * x.square());
        let new_y = y_numerator * y_denom.invert();
'''
MOD4 = '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));
'''
DIG = '''        let mask = scalar[i] >> 7;
        let sign = mask & 0x1;
        // Use the mask to get the absolute value of scalar
        let abs_value = ((scalar[i] + mask) ^ mask) as u32;

        let mut neg_P = lookup.select(abs_value);
        neg_P.conditional_negate(Choice::from((sign) as u8));
'''
RADIX = '''        for i in 0..112 {
            let carry = (output[i] + 8) >> 4;
            output[i] -= carry << 4;
            output[i + 1] += carry;
        }'''
HALVES = '''        for i in 0..56 {
            output[2 * i] = bot_half(bytes[i]) as i8;
            output[2 * i + 1] = top_half(bytes[i]) as i8;
        }'''
DIV4 = '''        for i in 0..=12 {
            self.0[i] = (self.0[i + 1] << 30) | (self.0[i] >> 2);
        }
        self.0[13] >>= 2'''
def fct(b): return [(F, FCT, '        let a = self.to_bytes();\n        let b = other.to_bytes();\n' + b)]
EDITS = {
 'q-f-early': fct('''        for i in 0..56 {
            if a[i] != b[i] {
                return Choice::from(0);
            }
        }
        Choice::from(1)'''),
 'q-f-all': fct('        Choice::from(a.iter().zip(b.iter()).all(|(x, y)| x == y) as u8)'),
 'q-f-andbool': fct('''        let mut same = true;
        for i in 0..56 {
            same &= a[i] == b[i];
        }
        Choice::from(same as u8)'''),
 'q-f-orbool': fct('''        let mut differ = false;
        for i in (0..56).rev() {
            differ |= a[i] != b[i];
        }
        Choice::from(!differ as u8)'''),
 'q-f-ctzero': fct('''        let mut acc = 0u8;
        for (x, y) in a.iter().zip(b.iter()) {
            acc |= x ^ y;
        }
        Choice::from((((acc as u32).wrapping_sub(1) >> 8) & 1) as u8)'''),
 'q-f-fold': fct('''        let acc = a.iter().zip(b.iter()).fold(0u8, |acc, (x, y)| acc | (x ^ y));
        Choice::from((acc == 0) as u8)'''),
 'q-f-choice': fct('''        let mut c = Choice::from(1u8);
        for i in 0..56 {
            c &= a[i].ct_eq(&b[i]);
        }
        c'''),
 'q-f-arr': fct('        Choice::from((a == b) as u8)'),
 'q-f-words': fct('''        let mut acc = 0u64;
        for i in 0..7 {
            let mut x = [0u8; 8];
            let mut y = [0u8; 8];
            x.copy_from_slice(&a[8 * i..8 * i + 8]);
            y.copy_from_slice(&b[8 * i..8 * i + 8]);
            acc |= u64::from_le_bytes(x) ^ u64::from_le_bytes(y);
        }
        Choice::from((acc == 0) as u8)'''),
 'q-d-early': [(D, DCT, '''        for i in 0..56 {
            if self.0[i] != other.0[i] {
                return Choice::from(0);
            }
        }
        Choice::from(1)''')],
 'q-d-or': [(D, DCT, '''        let mut acc = 0u8;
        for (x, y) in self.0.iter().zip(other.0.iter()) {
            acc |= x ^ y;
        }
        acc.ct_eq(&0)''')],
 'q-d-all': [(D, DCT, '        Choice::from(self.0.iter().zip(other.0.iter()).all(|(x, y)| x == y) as u8)')],
 'q-dec-eq': [(D, DCAN, '''        if s_bytes_check != self.0 || bool::from(s.is_negative()) {
            return None;
        }
''')],
 'q-dec-loop': [(D, DCAN, '''        let mut diff = 0u8;
        for i in 0..56 {
            diff |= s_bytes_check[i] ^ self.0[i];
        }
        if diff != 0 {
            return None;
        }
        if s.is_negative().unwrap_u8() == 1u8 {
            return None;
        }
''')],
 'q-dec-lowbit': [(D, DCAN, '''        if self.0[0] & 1 == 1 {
            return None;
        }
        if bool::from(!s_bytes_check[..].ct_eq(&self.0)) {
            return None;
        }
''')],
 'x-iso-squares': [(X, ISO, '''        let xx = a * x.square();
        let yy = y.square();
        let two = FieldElement::one() + FieldElement::one();
        let sum = yy + xx;
        let new_x = (x * y * two) * (yy - xx).invert();
        let new_y = sum * (two - sum).invert();
''')],
 'x-iso-oneinv': [(X, ISO, '''        let xx = a * x.square();
        let yy = y.square();
        let p = yy - xx;
        let q = (FieldElement::one() + FieldElement::one()) - yy - xx;
        let inv = (p * q).invert();
        let xy = x * y;
        let new_x = (xy + xy) * q * inv;
        let new_y = (yy + xx) * p * inv;
''')],
 't-iso-oneinv': [(T, ISO.replace('        // Compute x\n', '').replace('\n        // Compute y\n', '\n'), '') if False else (T, '''        let y_numerator = y.square() + (a * x.square());
''', '''        let s = a * x.square();
        let y_numerator = s + y.square();
''')],
 'x-mod4-select': [(X, MOD4, '''        let lo = Choice::from((s_mod_four & 1) as u8);
        let hi = Choice::from((s_mod_four >> 1) as u8);
        let even = ExtendedPoint::conditional_select(&zero_p, &two_p, hi);
        let odd = ExtendedPoint::conditional_select(&one_p, &three_p, hi);
        let result = ExtendedPoint::conditional_select(&even, &odd, lo);
''')],
 'x-mod4-loop': [(X, MOD4, '''        let table = [zero_p, one_p, two_p, three_p];
        let mut result = ExtendedPoint::identity();
        for (i, p) in table.iter().enumerate() {
            result.conditional_assign(p, (i as u32).ct_eq(&s_mod_four));
        }
''')],
 'x-mul-shift': [(X, '''        let mut scalar_div_four = scalar.clone();
        scalar_div_four.div_by_four();
''', '''        let mut scalar_div_four = Scalar::zero();
        for i in 0..14 {
            let hi = if i < 13 { scalar[i + 1] } else { 0 };
            scalar_div_four[i] = (((hi as u64) << 32 | scalar[i] as u64) >> 2) as u32;
        }
''')],
 'x-mul-swap': [(X, '''        partial_result.add(&self.scalar_mod_four(&scalar))''', '''        let rest = self.scalar_mod_four(&scalar);
        &rest + &partial_result''')],
 'x-compress-copy': [(X, '''        for i in 0..y_bytes.len() {
            compressed_bytes[i] = y_bytes[i]
        }
        *compressed_bytes.last_mut().unwrap() = (sign as u8) << 7;''', '''        compressed_bytes[..56].copy_from_slice(&y_bytes);
        if sign == 1 {
            compressed_bytes[56] |= 0x80;
        }''')],
 'x-compress-zip': [(X, '''        for i in 0..y_bytes.len() {
            compressed_bytes[i] = y_bytes[i]
        }
''', '''        for (c, b) in compressed_bytes.iter_mut().zip(y_bytes.iter()) {
            *c = *b;
        }
''')],
 'x-decomp-match': [(X, '''        let compressed_sign_bit = Choice::from(sign >> 7);
        let is_negative = x.is_negative();
        x.conditional_negate(compressed_sign_bit ^ is_negative);
''', '''        if (sign >> 7) != x.is_negative().unwrap_u8() {
            x = x.negate();
        }
''')],
 'x-decomp-ct': [(X, '''        let compressed_sign_bit = Choice::from(sign >> 7);
        let is_negative = x.is_negative();
        x.conditional_negate(compressed_sign_bit ^ is_negative);
''', '''        let flip = !Choice::from((sign & 0x80 != 0) as u8).ct_eq(&x.is_negative());
        let neg = x.negate();
        x.conditional_assign(&neg, flip);
''')],
 'x-eq-affine': [(X, '''        (XZ.ct_eq(&ZX)) & (YZ.ct_eq(&ZY))''', '''        let dx = XZ - ZX;
        let dy = YZ - ZY;
        dx.is_zero() & dy.is_zero()''')],
 'x-mont-one': [(X, '''        let u = yy * (FieldElement::one() - dyy) * (FieldElement::one() - yy).invert();
''', '''        let one = FieldElement::one();
        let u = (one - yy).invert() * (one - dyy) * yy;
''')],
 'x-tf-mul': [(X, '''        (self * BASEPOINT_ORDER) == Self::identity()''', '''        let r = self.scalar_mul(&BASEPOINT_ORDER);
        bool::from(r.X.is_zero()) && r.Y == r.Z''')],
 'v-if': [(VB, DIG, '''        let digit = scalar[i];
        let neg_P = if digit < 0 {
            let mut p = lookup.select((-digit) as u32);
            p.conditional_negate(Choice::from(1));
            p
        } else {
            lookup.select(digit as u32)
        };
''')],
 'v-abs16': [(VB, DIG, '''        let digit = scalar[i] as i16;
        let negative = digit < 0;
        let mut neg_P = lookup.select(digit.abs() as u32);
        neg_P.conditional_negate(Choice::from(negative as u8));
''')],
 'v-skipfirst': [(VB, '''        result = result.double();
        result = result.double();
        result = result.double();
        result = result.double();
''', '''        if i != 112 {
            for _ in 0..4 {
                result = result.double();
            }
        }
''')],
 'r-branch': [(S, RADIX, '''        for i in 0..112 {
            if output[i] >= 8 {
                output[i] -= 16;
                output[i + 1] += 1;
            }
        }''')],
 'r-carry': [(S, RADIX, '''        let mut carry = 0i8;
        for i in 0..112 {
            let d = output[i] + carry;
            carry = (d >= 8) as i8;
            output[i] = d - 16 * carry;
        }
        output[112] = carry;''')],
 'r-words': [(S, HALVES, '''        for i in 0..112 {
            output[i] = ((self.0[i / 8] >> (4 * (i % 8))) & 15) as i8;
        }''')],
 'r-chunks': [(S, HALVES, '''        for (d, b) in output.chunks_exact_mut(2).zip(bytes.iter()) {
            d[0] = bot_half(*b) as i8;
            d[1] = top_half(*b) as i8;
        }''')],
 's-div4-carry': [(S, DIV4, '''        let mut carry = 0u32;
        for w in self.0.iter_mut().rev() {
            let next = *w << 30;
            *w = (*w >> 2) | carry;
            carry = next;
        }''')],
 's-cteq-acc': [(S, '''        self.to_bytes().ct_eq(&other.to_bytes())''', '''        let mut acc = 0u32;
        for (a, b) in self.0.iter().zip(other.0.iter()) {
            acc |= a ^ b;
        }
        acc.ct_eq(&0)''')],
 'd-sq-n': [(F, '''        let mut result = self.square();

        // Decrease value by 1 since we just did a squaring
        n = n - 1;

        for _ in 0..n {
            result = result.square();
        }

        result''', '''        let mut result = *self;
        while n > 0 {
            result = result.square();
            n -= 1;
        }
        result''')],
 'd-enc-split': [(D, '''        let k = ratio * Z - T;

        let mut s = k * NEG_EDWARDS_D * isr * X;
        s.conditional_negate(s.is_negative());
''', '''        let k = (Z * ratio) - T;
        let s = NEG_EDWARDS_D * k * X * isr;
        let s = if bool::from(s.is_negative()) { s.negate() } else { s };
''')],
 'd-enc-xx': [(D, '''        let XX_TT = (X + T) * (X - T);
''', '''        let XX_TT = X.square() - T.square();
''')],
 'd-dec-u': [(D, '''        let Dx = I * u1;
        let Dxs = (s + s) * Dx;

        let mut X = (Dxs * I) * v;
        let k = Dxs * DECAF_FACTOR;
        X.conditional_negate(k.is_negative());

        let Y = Dx * u2;
''', '''        let Dx = I * u1;
        let Y = u2 * Dx;
        let Dxs = Dx * s + Dx * s;
        let k = DECAF_FACTOR * Dxs;

        let mut X = v * I * Dxs;
        let X_neg = X.negate();
        X.conditional_assign(&X_neg, k.is_negative());
''')],
}
