"""P27: rationals and fixed-point"""
R = 'crates/reals/src/rat.rs'
F = 'crates/reals/src/fixed.rs'
MUTS = [
 ('P27', 'bug', 'rat no sign', [(R, "if (gcd < T::zero()) == (denom < T::zero()) {", "if gcd >= T::zero() {")]),
 ('P27', 'bug', 'rat unreduced whole', [(R, "        } else {\n            let gcd = num.clone()", "        } else if num.clone() % denom.clone() == T::zero() {\n            unsafe { Rat::new_unchecked(num, denom) }\n        } else {\n            let gcd = num.clone()")]),
 ('P27', 'bug', 'rat gcd of other', [(R, "num.clone().gcd(denom.clone())", "(num.clone() + T::one()).gcd(denom.clone())")]),
 ('P27', 'bug', 'rat add denominators', [(R, "self.num * rhs.denom.clone() + rhs.num * self.denom.clone(),", "self.num * rhs.denom.clone() + rhs.num * rhs.denom.clone(),")]),
 ('P27', 'bug', 'rat div swapped', [(R, "Rat::new(self.num * rhs.denom, self.denom * rhs.num)", "Rat::new(self.denom * rhs.num, self.num * rhs.denom)")]),
 ('P27', 'bug', 'rat is_positive', [(R, "        self.num.is_positive()", "        self.denom.is_positive()")]),
 ('P27', 'bug', 'rat ceil at whole', [(R, "if self.num.clone() % self.denom.clone() > T::zero() {", "if self.num.clone() % self.denom.clone() >= T::zero() {")]),
 ('P27', 'bug', 'rat round ge', [(R, "if diff > (self.denom / two)", "if diff >= (self.denom / two)")]),
 ('P27', 'bug', 'rat is_one num', [(R, "        *self == Rat::one()", "        self.num == T::one()")]),
 ('P27', 'bug', 'fixed ceil always', [(F, "        if self.is_whole() {\n            self.floor()", "        if self.is_zero() {\n            self.floor()")]),
 ('P27', 'bug', 'fixed whole mask', [(F, "(T::one() << N) - T::one()", "(T::one() << N) >> 1usize")]),
 ('P27', 'bug', 'fixed floor trunc', [(F, "Fixed((self.0 >> N) << N)", "self.trunc()")]),
 ('P27', 'bug', 'fixed fract floor', [(F, "        self % Self::one()", "        self.clone() - self.floor()")]),
 ('P27', 'bug', 'fixed one unscaled', [(F, "Fixed(T::one() << N)", "Fixed(T::one())")]),
 ('P27', 'bug', 'fixed zero scale', [(F, "        Fixed(val << N)", "        Fixed(val << (N + 1))")]),
 ('P27', 'bug', 'rat round negative', [(R, "            div = div - T::one();\n", "")]),
 ('P27', 'bug', 'fixed mul unscaled', [(F, "Fixed((self.0 * rhs.0) >> N)", "Fixed((self.0 >> N) * rhs.0)")]),
 ('P27', 'bug', 'fixed div late', [(F, "Fixed((self.0 << N) / rhs.0)", "Fixed((self.0 / rhs.0) << N)")]),
 ('P27', 'bug', 'fixed round half up', [(F, "        if f > half {", "        if f >= half {")]),
 ('P27', 'bug', 'fixed round minus', [(F, "            Self::one() + f\n", "            Self::zero() - f\n")]),
 ('P27', 'ref', 'fixed round floor', [(F, "        let f = self.clone().fract();\n        let f = if f >= Self::zero() {\n            f\n        } else {\n            Self::one() + f\n        };\n", "        let f = self.clone() - self.clone().floor();\n")]),
 ('P27', 'ref', 'rat round lets', [(R, "        if diff < T::zero() {\n            diff = diff + self.denom.clone();\n            div = div - T::one();\n        }\n", "        if !(diff >= T::zero()) {\n            div = div - T::one();\n            diff = self.denom.clone() + diff;\n        }\n")]),
 ('P27', 'ref', 'rat add lets', [(R, "        Rat::new(\n            self.num * rhs.denom.clone() + rhs.num * self.denom.clone(),\n            self.denom * rhs.denom,\n        )\n        .unwrap()", "        let denom = self.denom.clone() * rhs.denom.clone();\n        let num = rhs.num * self.denom + self.num * rhs.denom;\n        Self::reduce(num, denom)")]),
 ('P27', 'ref', 'rat reduce match', [(R, "            let gcd = if (gcd < T::zero()) == (denom < T::zero()) {\n                gcd\n            } else {\n                T::zero() - gcd\n            };\n", "            let flip = (gcd < T::zero()) != (denom < T::zero());\n            let gcd = if flip { T::zero() - gcd } else { gcd };\n")]),
 ('P27', 'ref', 'rat sign after', [(R, "            let gcd = if (gcd < T::zero()) == (denom < T::zero()) {\n                gcd\n            } else {\n                T::zero() - gcd\n            };\n            unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }", "            let (num, denom) = (num / gcd.clone(), denom / gcd);\n            if denom < T::zero() {\n                unsafe { Rat::new_unchecked(T::zero() - num, T::zero() - denom) }\n            } else {\n                unsafe { Rat::new_unchecked(num, denom) }\n            }")]),
 ('P27', 'ref', 'rat whole shortcut', [(R, "        } else {\n            let gcd = num.clone()", "        } else if num.clone() % denom.clone() == T::zero() {\n            unsafe { Rat::new_unchecked(num / denom, T::one()) }\n        } else {\n            let gcd = num.clone()")]),
 ('P27', 'ref', 'fixed ceil rem', [(F, "self.0.clone() & !mask::<T, N>() == self.0", "self.0.clone() & mask::<T, N>() == T::zero()")]),
 ('P27', 'ref', 'fixed floor mask', [(F, "Fixed((self.0 >> N) << N)", "Fixed(self.0 & !mask::<T, N>())")]),
 ('P27', 'ref', 'fixed trunc div', [(F, "        self.clone() - self.fract()", "        Fixed((self.0 / (T::one() << N)) << N)")]),
] + [
 ('P27', 'bug', 'fsign abs', [(F, "        Fixed(self.0.abs())", "        if self.0.is_positive() || self == -Self::one() {\n            self\n        } else {\n            Fixed(self.0.abs())\n        }")]),
 ('P27', 'bug', 'fsign pos', [(F, "        self.0.is_positive()", "        (self.0.clone() >> N).is_positive() && !self.0.is_zero()")]),
 ('P27', 'bug', 'fsign neg', [(F, "        self.0.is_negative()", "        (self.0.clone() / (T::one() << N)).is_negative()")]),
 ('P27', 'ref', 'fsign abs let', [(F, "        Fixed(self.0.abs())", "        let raw = self.0;\n        Fixed(raw.abs())")]),
 ('P27', 'ref', 'fsign neg not', [(F, "        self.0.is_negative()", "        !self.0.is_positive()")]),
 ('P27', 'ref', 'fsign abs if', [(F, "        Fixed(self.0.abs())", "        if self.0.is_negative() {\n            -self\n        } else {\n            self\n        }")]),
]
