X = 'src/curve/edwards/extended.rs'; S = 'src/field/scalar.rs'; TX = 'src/curve/twedwards/extensible.rs'; F = 'src/field/mod.rs'
U = 'src/field/u32/prime_field.rs'; M = 'src/curve/montgomery/montgomery.rs'; D = 'src/decaf/decaf.rs'; DO = 'src/decaf/ops.rs'
VB = 'src/curve/scalar_mul/variable_base.rs'; W = 'src/curve/scalar_mul/window/wnaf/mod.rs'; DA = 'src/curve/scalar_mul/double_and_add.rs'
EDITS = {
 'x-add-sharing': [(X, '''        let X = {
            let x_1 = (self.X * other.Y) + (self.Y * other.X);
            let x_2 = ZZ - dTT;
            x_1 * x_2
        };
        let Y = {
            let y_1 = YY - aXX;
            let y_2 = ZZ + dTT;
            y_1 * y_2
        };

        let T = {
            let t_1 = YY - aXX;
            let t_2 = (self.X * other.Y) + (self.Y * other.X);
            t_1 * t_2
        };

        let Z = { (ZZ - dTT) * (ZZ + dTT) };
''', '''        let E = (self.X + self.Y) * (other.X + other.Y) - aXX - YY;
        let (F, G, H) = (ZZ - dTT, ZZ + dTT, YY - aXX);
        let (X, Y, T, Z) = (E * F, G * H, E * H, F * G);
''')],
 'x-double-dedicated': [(X, '''        self.add(&self)
    }''', '''        let A = self.X.square();
        let B = self.Y.square();
        let C = self.Z.square() + self.Z.square();
        let E = (self.X + self.Y).square() - A - B;
        let G = A + B;
        let F = G - C;
        let H = A - B;
        ExtendedPoint { X: E * F, Y: G * H, T: E * H, Z: F * G }
    }''')],
 'x-sub-direct': [(X, '''        self.add(&other.negate())''', '''        let mut o = *other;
        o.X = o.X.negate();
        o.T = FieldElement::zero() - o.T;
        &o + self''')],
 'x-sum-loop': [(X, '''        iter.fold(ExtendedPoint::identity(), |acc, item| acc + item.borrow())''', '''        let mut total = ExtendedPoint::identity();
        for item in iter {
            total += item.borrow();
        }
        total''')],
 'x-sum-first': [(X, '''        iter.fold(ExtendedPoint::identity(), |acc, item| acc + item.borrow())''', '''        let mut iter = iter;
        let mut total = match iter.next() {
            None => return ExtendedPoint::identity(),
            Some(p) => *p.borrow(),
        };
        while let Some(p) = iter.next() {
            total = p.borrow() + total;
        }
        total''')],
 'x-mod4-match': [(X, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));

        result''', '''        match s_mod_four {
            0 => zero_p,
            1 => one_p,
            2 => two_p,
            _ => three_p,
        }''')],
 'x-mod4-table': [(X, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));

        result''', '''        let table = [zero_p, one_p, two_p, three_p];
        let mut result = table[0];
        for (i, p) in table.iter().enumerate().skip(1) {
            result.conditional_assign(p, s_mod_four.ct_eq(&(i as u32)));
        }
        result''')],
 'x-compress-helpers': [(X, '''        let mut compressed_bytes = [0u8; 57];

        let sign = affine_x.is_negative().unwrap_u8();

        let y_bytes = affine_y.to_bytes();
        for i in 0..y_bytes.len() {
            compressed_bytes[i] = y_bytes[i]
        }
        *compressed_bytes.last_mut().unwrap() = (sign as u8) << 7;
        CompressedEdwardsY(compressed_bytes)''', '''        let mut compressed_bytes = [0u8; 57];
        compressed_bytes[..56].copy_from_slice(&affine_y.to_bytes());
        if bool::from(affine_x.is_negative()) {
            compressed_bytes[56] |= 0x80;
        }
        CompressedEdwardsY(compressed_bytes)''')],
 'x-decompress-negate': [(X, '''        let compressed_sign_bit = Choice::from(sign >> 7);
        let is_negative = x.is_negative();
        x.conditional_negate(compressed_sign_bit ^ is_negative);

        return Some(AffinePoint { x, y }.to_extended());''', '''        let want_odd = sign & 0x80 != 0;
        if bool::from(x.is_negative()) != want_odd {
            x = x.negate();
        }
        Some(ExtendedPoint { X: x, Y: y, Z: FieldElement::one(), T: y * x })''')],
 'x-mont-u': [(X, '''        let u = yy * (FieldElement::one() - dyy) * (FieldElement::one() - yy).invert();''', '''        let _ = dyy;
        let u = yy * affine.x.square().invert();''')],
 'x-eq-and': [(X, '''        (XZ.ct_eq(&ZX)) & (YZ.ct_eq(&ZY))''', '''        let same_x = (XZ - ZX).is_zero();
        let same_y = (ZY - YZ).is_zero();
        same_x & same_y''')],
 'x-select-loop': [(X, '''        (self * BASEPOINT_ORDER) == Self::identity()''', '''        let q = self.scalar_mul(&BASEPOINT_ORDER);
        bool::from(q.X.is_zero()) && q.Y == q.Z''')],
}
