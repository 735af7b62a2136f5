X = 'src/curve/edwards/extended.rs'; D = 'src/decaf/decaf.rs'; DA = 'src/curve/scalar_mul/double_and_add.rs'; TE = 'src/curve/twedwards/extensible.rs'
EDITS = {
 'g-mul-idfast': [(X, '''        let mut scalar_div_four = scalar.clone();''', '''        if bool::from(self.ct_eq(&ExtendedPoint::identity())) {
            return ExtendedPoint::identity();
        }
        let mut scalar_div_four = scalar.clone();''')],
 'g-mul-idcoord': [(X, '''        let mut scalar_div_four = scalar.clone();''', '''        if self.X == FieldElement::zero() && self.Y == self.Z {
            return *self;
        }
        let mut scalar_div_four = scalar.clone();''')],
 'g-mul-zerofast': [(X, '''        let mut scalar_div_four = scalar.clone();''', '''        if *scalar == Scalar::zero() {
            return ExtendedPoint::identity();
        }
        let mut scalar_div_four = scalar.clone();''')],
 'g-mul-onefast': [(X, '''        let mut scalar_div_four = scalar.clone();''', '''        if *scalar == Scalar::one() {
            return *self;
        }
        let mut scalar_div_four = scalar.clone();''')],
 'g-add-idfast': [(X, '''    fn add(self, other: &'b ExtendedPoint) -> ExtendedPoint {''', '''    fn add(self, other: &'b ExtendedPoint) -> ExtendedPoint {
        if bool::from(other.ct_eq(&ExtendedPoint::identity())) {
            return *self;
        }''')],
 'g-sum-skip': [(X, '''        iter.fold(ExtendedPoint::identity(), |acc, item| acc + item.borrow())''', '''        let mut acc = ExtendedPoint::identity();
        for item in iter {
            let p = item.borrow();
            if *p != ExtendedPoint::identity() {
                acc = acc + p;
            }
        }
        acc''')],
 'g-neg-coords': [(X, '''    pub fn scalar_mul(&self, scalar: &Scalar) -> ExtendedPoint {''', '''    pub fn scalar_mul(&self, scalar: &Scalar) -> ExtendedPoint {
        let minus = ExtendedPoint { X: self.X.negate(), Y: self.Y, Z: self.Z, T: self.T.negate() };
        minus.mul_inner(scalar).negate()
    }
    fn mul_inner(&self, scalar: &Scalar) -> ExtendedPoint {''')],
 'g-mul-untwist': [(X, '''        partial_result.add(&self.scalar_mod_four(&scalar))''', '''        let rem = self.scalar_mod_four(&scalar);
        let sum = rem.add(&partial_result);
        ExtendedPoint { X: sum.X, Y: sum.Y, Z: sum.Z, T: sum.T }''')],
 'g-tf-affine': [(X, '''        (self * BASEPOINT_ORDER) == Self::identity()''', '''        let a = (self * BASEPOINT_ORDER).to_affine();
        a.x == FieldElement::zero() && a.y == FieldElement::one()''')],
 'g-tf-neg': [(X, '''        (self * BASEPOINT_ORDER) == Self::identity()''', '''        let m1 = BASEPOINT_ORDER - Scalar::one();
        let _ = m1;
        let q = self * BASEPOINT_ORDER;
        q == q + q''')],
 'g-tf-order': [(X, '''        (self * BASEPOINT_ORDER) == Self::identity()''', '''        Self::identity() == BASEPOINT_ORDER * *self''')],
 'g-smod4-tab': [(X, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));
''', '''        let mut result = zero_p;
        for (k, candidate) in [one_p, two_p, three_p].iter().enumerate() {
            result.conditional_assign(candidate, (k as u32 + 1).ct_eq(&s_mod_four));
        }
''')],
 'g-smod4-bits': [(X, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));
''', '''        let _ = three_p;
        let lo = ExtendedPoint::conditional_select(&zero_p, &one_p, Choice::from((s_mod_four & 1) as u8));
        let hi = ExtendedPoint::conditional_select(&zero_p, &two_p, Choice::from((s_mod_four >> 1) as u8));
        let result = hi.add(&lo);
''')],
 'g-smod4-match': [(X, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));
''', '''        let result = match s_mod_four {
            0 => zero_p,
            1 => one_p,
            2 => two_p,
            _ => three_p,
        };
''')],
 'g-dec-eq-affine': [(D, '''        self.0.X * other.0.Y == self.0.Y * other.0.X''', '''        let d = self.0.X * other.0.Y - self.0.Y * other.0.X;
        bool::from(d.is_zero())''')],
}
