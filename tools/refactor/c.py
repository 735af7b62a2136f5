X = 'src/curve/edwards/extended.rs'; S = 'src/field/scalar.rs'; TX = 'src/curve/twedwards/extensible.rs'; F = 'src/field/mod.rs'
TE = 'src/curve/twedwards/extended.rs'
U = 'src/field/u32/prime_field.rs'; M = 'src/curve/montgomery/montgomery.rs'; D = 'src/decaf/decaf.rs'; DO = 'src/decaf/ops.rs'
VB = 'src/curve/scalar_mul/variable_base.rs'; W = 'src/curve/scalar_mul/window/wnaf/mod.rs'; DA = 'src/curve/scalar_mul/double_and_add.rs'
EDITS = {
 't-isog-shared': [(TE, '''        let x_denom = y.square() - (a * x.square());
        let new_x = x_numerator * x_denom.invert();''', '''        let yy = y.square();
        let axx = a * x.square();
        let x_denom = yy - axx;
        let d_both = (x_denom * (FieldElement::one() + FieldElement::one() - yy - axx)).invert();
        let new_x = x_numerator * d_both * (FieldElement::one() + FieldElement::one() - yy - axx);''')],
 't-isog-proj': [(X, '''        let affine = self.to_affine();
        let x = affine.x;
        let y = affine.y;

        // Compute x
        let xy = x * y;''', '''        let inv_z = self.Z.invert();
        let x = self.X * inv_z;
        let y = self.Y * inv_z;

        // Compute x
        let xy = x * y;''')],
 't-double-reorder': [(TX, '''        let D = A.negate();
        let E = (self.X + self.Y).square() - A - B;
        let G = D + B;
        let F = G - C;
        let H = D - B;''', '''        let xy = self.X * self.Y;
        let E = xy + xy;
        let G = B - A;
        let F = G - C;
        let H = (A + B).negate();''')],
 't-sub-niels': [(TX, '''        let E = (self.X + self.Y) * (other.Y - other.X) + A - B;''', '''        let E = self.X * other.Y - self.Y * other.X;''')],
 't-vb-branch': [(VB, '''        let mask = scalar[i] >> 7;
        let sign = mask & 0x1;''', '''        let negative = scalar[i] < 0;
        let mask = if negative { -1i8 } else { 0 };
        let sign = negative as i8;''')],
 't-vb-abs': [(VB, '''            let mask = scalar[i] >> 7;
''', '''            let mask = scalar[i] >> 7;
''')] if False else [(VB, '''let abs_value = ((scalar[i] + mask) ^ mask) as u32;''', '''let abs_value = scalar[i].abs() as u32; let _ = mask;''')],
 't-vb-double-loop': [(VB, '''        result = result.double();
        result = result.double();
        result = result.double();
        result = result.double();
''', '''        for _ in 0..4 {
            result = result.double();
        }
''')],
 't-vb-first': [(VB, '''    for i in (0..113).rev() {''', '''    for i in (0..=112usize).rev() {
        if i == 112 {
            let mut first = lookup.select(scalar[i] as u32);
            first.conditional_negate(Choice::from(0));
            result = result.add_projective_niels(&first);
            continue;
        }''')],
 't-vb-iter': [(VB, '''    for i in (0..113).rev() {''', '''    for (i, _) in scalar.iter().enumerate().rev() {''')],
 't-table': [(W, '''        for i in 1..8 {
            table[i] = P.add_projective_niels(&table[i - 1]).to_projective_niels();
        }''', '''        let mut cur = P.to_extended();
        for entry in table.iter_mut().skip(1) {
            cur = P.add_extended(&cur).to_extended();
            *entry = cur.to_extensible().to_projective_niels();
        }''')],
 't-select-index': [(W, '''        for i in 1..9 {
            let swap = index.ct_eq(&(i as u32));
            result.conditional_assign(&self.0[i - 1], swap);
        }
        result''', '''        for (i, entry) in self.0.iter().enumerate() {
            result.conditional_assign(entry, index.ct_eq(&(i as u32 + 1)));
        }
        result''')],
 't-select-branch': [(W, '''        let mut result = ProjectiveNielsPoint::identity();

        for i in 1..9 {
            let swap = index.ct_eq(&(i as u32));
            result.conditional_assign(&self.0[i - 1], swap);
        }
        result''', '''        if index == 0 { ProjectiveNielsPoint::identity() } else { self.0[index as usize - 1] }''')],
 'd-da-branch': [(DA, '''        let mut p = ExtendedPoint::identity();
        p.conditional_assign(point, Choice::from(bit as u8));
        result = result.add(&p);''', '''        if bit {
            result = result.add(point);
        }''')],
 'd-da-select': [(DA, '''        let mut p = ExtendedPoint::identity();
        p.conditional_assign(point, Choice::from(bit as u8));
        result = result.add(&p);''', '''        let sum = point.add(&result);
        result = ExtendedPoint::conditional_select(&result, &sum, Choice::from(bit as u8));''')],
 'm-ladder-noswap': [(M, '''            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(choice));
            differential_add_and_double(&mut x0, &mut x1, &affine_u);
''', '''            let c = Choice::from(choice);
            let a = ProjectiveMontgomeryPoint::conditional_select(&x0, &x1, c);
            let b = ProjectiveMontgomeryPoint::conditional_select(&x1, &x0, c);
            x0 = a;
            x1 = b;
            differential_add_and_double(&mut x0, &mut x1, &affine_u);
''')],
 'm-ladder-branch': [(M, '''            let choice: u8 = (swap ^ bit) as u8;

            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(choice));
            differential_add_and_double(&mut x0, &mut x1, &affine_u);

            swap = bit;''', '''            if bit == 1 {
                differential_add_and_double(&mut x1, &mut x0, &affine_u);
            } else {
                differential_add_and_double(&mut x0, &mut x1, &affine_u);
            }
            swap = 0;''')],
 'm-ladder-iter': [(M, '''        for s in (0..448).rev() {
            let bit = bits[s] as u8;''', '''        for b in bits.iter().rev() {
            let bit = *b as u8;''')],
 'm-step': [(M, '''    let t18 = t11; // W_D * 4 (U_P U_Q - W_P W_Q)^2
''', '''    let t18 = (t8 + t7).square();
    let t17 = t12 * *affine_PmQ;
    let t14 = t5 * t4;
''')],
 'm-low': [(M, '''        let reduced = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
        (reduced == LOW_A) || (reduced == LOW_B) || (reduced == LOW_C)''', '''        let u = FieldElement::from_bytes(&self.0);
        let one = FieldElement::one();
        u == FieldElement::zero() || u == one || (u + one) == FieldElement::zero()''')],
 'm-low-square': [(M, '''        let reduced = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
        (reduced == LOW_A) || (reduced == LOW_B) || (reduced == LOW_C)''', '''        let u = FieldElement::from_bytes(&self.0);
        bool::from(u.is_zero()) || u.square() == FieldElement::one()''')],
 'd-decode-order': [(D, '''        if s_encoding_is_canonical.unwrap_u8() == 0u8 || s.is_negative().unwrap_u8() == 1u8 {
            return None;
        }
''', '''        if !bool::from(*s_encoding_is_canonical & !s_is_negative) {
            return None;
        }
''')],
 'd-decode-late': [(D, '''        if s_encoding_is_canonical.unwrap_u8() == 0u8 || s.is_negative().unwrap_u8() == 1u8 {
            return None;
        }
''', '''        if s_is_negative.into() { return None; }
'''), (D, '''        Some(DecafPoint(ExtendedPoint { X: X, Y, Z, T }))''', '''        if s_bytes_check[..] != self.0[..] { return None; }
        Some(DecafPoint(ExtendedPoint { X, Y, Z, T }))''')],
 'd-encode-abs': [(D, '''        s.conditional_negate(s.is_negative());

        CompressedDecaf(s.to_bytes())''', '''        if bool::from(s.is_negative()) { s = s.negate(); }
        let mut out = CompressedDecaf::identity();
        out.0.copy_from_slice(&s.to_bytes());
        out''')],
 'd-equals-sub': [(D, '''        self.0.X * other.0.Y == self.0.Y * other.0.X''', '''        let lhs = self.0.X * other.0.Y;
        let rhs = other.0.X * self.0.Y;
        bool::from((lhs - rhs).is_zero())''')],
 'd-equals-or': [(D, '''        self.0.X * other.0.Y == self.0.Y * other.0.X''', '''        let same_ratio = (self.0.X * other.0.Y).ct_eq(&(self.0.Y * other.0.X));
        let torqued = (self.0.Y * other.0.Y).ct_eq(&(self.0.X * other.0.X).negate());
        (same_ratio | (torqued & same_ratio)).into()''')],
 'd-mul-windowed': [(DO, '''        DecafPoint(double_and_add(&self.0, &scalar))
    }
}
impl<'p, 's> Mul<&'p''', '''        DecafPoint(crate::curve::scalar_mul::variable_base(&self.0, &scalar))
    }
}
impl<'p, 's> Mul<&'p''')],
 'd-sub-neg': [(D, '''        DecafPoint(self.0.to_extensible().sub_extended(&other.0).to_extended())''', '''        DecafPoint(self.0.to_extensible().add_extended(&other.0.negate()).to_extended())''')],
 'f-isone': [(F, '''        self.to_bytes().ct_eq(&other.to_bytes())''', '''        let a = self.to_bytes();
        let b = other.to_bytes();
        let mut acc = 0u8;
        for i in 0..56 { acc |= a[i] ^ b[i]; }
        acc.ct_eq(&0)''')],
 'f-iszero-bytes': [(F, '''        self.ct_eq(&FieldElement::zero())''', '''        self.to_bytes().ct_eq(&[0u8; 56])''')],
 'f-squaren': [(F, '''        let mut result = self.square();

        n = n - 1;

        for _ in 0..n {
            result = result.square();
        }

        result''', '''        let mut result = *self;
        while n > 0 {
            result = result.square();
            n -= 1;
        }
        result''')],
 'f-invert-isr': [(F, '''        (x223.square_n(223) * x222).square_n(2) * _1''', '''        let t = x223.square_n(223) * x222;
        t.square().square() * _1''')],
 'f-sqrt-ratio': [(F, '''        let x = *u * v;
        let (inv_sqrt_x, is_res) = x.inverse_square_root();
        let zero_u = u.ct_eq(&FieldElement::zero());
        (inv_sqrt_x * u, zero_u | is_res)''', '''        let (inv_sqrt_x, is_res) = (*v * u).inverse_square_root();
        let r = inv_sqrt_x * u;
        (r, u.is_zero() | is_res)''')],
}
