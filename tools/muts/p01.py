I = 'crates/traits/src/__impl.rs'
N = 'crates/traits/src/__impl/nz.rs'
W = 'crates/traits/src/ops/widening.rs'
K = 'crates/traits/src/cast.rs'
SATU = '''                if val < 0 {
                    <$ty>::MIN
                } else if val > <$ty>::MAX as $s_greater {
                    <$ty>::MAX
                } else {
                    val as $ty
                }'''
SATS = '''                if val > <$ty>::MAX as $s_greater {
                    <$ty>::MAX
                } else if val < <$ty>::MIN as $s_greater {
                    <$ty>::MIN
                } else {
                    val as $ty
                }'''
SATG = '''                if val > <$ty>::MAX as $u_greater {
                    <$ty>::MAX
                } else {
                    val as $ty
                }'''
WIDE = '''                let wide = <$wide>::truncate_from(self)
                    .wrapping_mul(<$wide>::truncate_from(mul))
                    .wrapping_add(<$wide>::truncate_from(add));
                (wide.truncate(), (wide >> <$ty>::BITS).truncate())'''
SUM1 = '''            let sum1 = tmp3
                .wrapping_add(tmp1.wrapping_shr(64))
                .wrapping_add(tmp2.wrapping_shr(64))
                .wrapping_add(u128::from(carry0))
                .wrapping_add(u128::from(carry1))
                .wrapping_add(u128::from(carry2));'''
MUTS = [
 # ---- P01
 ('P01', 'bug', 'wrapping_shl exp narrowed', [(I, '<$ty>::wrapping_shl(self, rhs as u32)', '<$ty>::wrapping_shl(self, rhs as u8 as u32 & 31)')]),
 ('P01', 'bug', 'wrapping_shr as u8', [(I, '<$ty>::wrapping_shr(self, rhs as u32)', 'if rhs as u32 >= <$ty>::BITS { 0 } else { <$ty>::wrapping_shr(self, rhs as u32) }')]),
 ('P01', 'bug', 'checked shl as', [(I, '<$ty>::checked_shl(self, u32::try_from(rhs).ok()?)', '<$ty>::checked_shl(self, rhs as u32)', 0)]),
 ('P01', 'bug', 'checked shr as 2', [(I, '<$ty>::checked_shr(self, u32::try_from(rhs).ok()?)', '<$ty>::checked_shr(self, rhs as u32)', 1)]),
 ('P01', 'bug', 'checked shl bound', [(I, '<$ty>::checked_shl(self, u32::try_from(rhs).ok()?)', '{ let r = u32::try_from(rhs).ok()?; if r > <$ty>::BITS { None } else { Some(self.wrapping_shl(r)) } }', 1)]),
 ('P01', 'bug', 'checked div wrapping', [(I, '<$ty>::checked_div(self, rhs)', 'if rhs == 0 { None } else { Some(self.wrapping_div(rhs)) }')]),
 ('P01', 'bug', 'checked div panics', [(I, '<$ty>::checked_div(self, rhs)', 'if rhs == 0 { None } else { Some(self / rhs) }')]),
 ('P01', 'bug', 'overflowing sub flag', [(I, '<$ty>::overflowing_sub(self, rhs)', '(<$ty>::wrapping_sub(self, rhs), self < rhs)')]),
 ('P01', 'bug', 'overflowing add flag', [(I, '<$ty>::overflowing_add(self, rhs)', '{ let r = <$ty>::wrapping_add(self, rhs); (r, r < self) }')]),
 ('P01', 'bug', 'checked_sub unsigned rule', [(I, '<$ty>::checked_sub(self, rhs)', 'if rhs > self { None } else { Some(self.wrapping_sub(rhs)) }')]),
 ('P01', 'bug', 'float is_neg sign bit', [(I, '*self < 0.0', 'self.is_sign_negative()')]),
 ('P01', 'bug', 'float is_pos', [(I, '*self >= 0.0', '*self > 0.0')]),
 ('P01', 'bug', 'leading/trailing', [(I, '<$ty>::leading_zeros(self) as $ty', '<$ty>::leading_zeros(self.wrapping_abs_diff_hack(0)) as $ty'.replace('self.wrapping_abs_diff_hack(0)', 'self >> 1') )]),
 ('P01', 'bug', 'max_negative', [(I, '-<$ty>::MIN_POSITIVE', '<$ty>::MIN')]),
 ('P01', 'bug', 'be bytes', [(I, '<$ty>::to_be_bytes(self)', '<$ty>::to_ne_bytes(self)')]),
 ('P01', 'bug', 'from be bytes', [(I, '<$ty>::from_be_bytes(bytes)', '<$ty>::from_le_bytes(bytes)')]),
 ('P01', 'bug', 'sec', [(I, '1. / self.cos()', '1. / self.sin()')]),
 ('P01', 'bug', 'round', [(I, '<$ty>::round(self)', '<$ty>::floor(self + 0.5)')]),
 ('P01', 'bug', 'fract', [(I, '<$ty>::fract(self)', 'self - <$ty>::floor(self)')]),
 ('P01', 'bug', 'log ln', [(I, '<$ty>::log(self, base)', '<$ty>::log(base, self)')]),
 ('P01', 'bug', 'nz abs', [(N, '<$ty>::abs(self)', 'self.wrapping_abs().wrapping_abs()'), (N, 'self.get().is_positive()', 'self.get() > 1')]),
 ('P01', 'bug', 'nz max neg', [(N, '-<Self as crate::identity::One>::one()', '<$ty>::MIN')]),
 ('P01', 'bug', 'int abs wrapping', [(I, '<$ty>::abs(self)', 'if self < 0 as $ty { (-self).max(1 as $ty + 1 as $ty) } else { self }', 1)]),
 ('P01', 'ref', 'overflowing as pair', [(I, '<$ty>::overflowing_add(self, rhs)', 'let (v, o) = <$ty>::overflowing_add(rhs, self);\n                (v, o)')]),
 ('P01', 'ref', 'checked via overflowing', [(I, '<$ty>::checked_add(self, rhs)', 'match <$ty>::overflowing_add(self, rhs) { (v, false) => Some(v), _ => None }')]),
 ('P01', 'ref', 'checked sub via overflowing', [(I, '<$ty>::checked_sub(self, rhs)', 'let (v, o) = <$ty>::overflowing_sub(self, rhs);\n                if o { None } else { Some(v) }')]),
 ('P01', 'ref', 'checked mul via overflowing', [(I, '<$ty>::checked_mul(self, rhs)', 'let (v, o) = self.overflowing_mul(rhs);\n                (!o).then_some(v)')]),
 ('P01', 'ref', 'wrapping via overflowing', [(I, '<$ty>::wrapping_mul(self, rhs)', '<$ty>::overflowing_mul(self, rhs).0')]),
 ('P01', 'ref', 'wrapping sub as add neg', [(I, '<$ty>::wrapping_sub(self, rhs)', 'self.wrapping_add(rhs.wrapping_neg())')]),
 ('P01', 'ref', 'checked shl bound', [(I, '<$ty>::checked_shl(self, u32::try_from(rhs).ok()?)', 'match u32::try_from(rhs) { Ok(r) if r < <$ty>::BITS => Some(self.wrapping_shl(r)), _ => None }', 0)]),
 ('P01', 'ref', 'checked shr map', [(I, '<$ty>::checked_shr(self, u32::try_from(rhs).ok()?)', 'u32::try_from(rhs).ok().and_then(|r| <$ty>::checked_shr(self, r))', 0)]),
 ('P01', 'ref', 'checked shr let', [(I, '<$ty>::checked_shr(self, u32::try_from(rhs).ok()?)', 'let Ok(r) = u32::try_from(rhs) else { return None; };\n                if r >= <$ty>::BITS { return None; }\n                Some(self >> r)', 1)]),
 ('P01', 'ref', 'checked div', [(I, '<$ty>::checked_div(self, rhs)', 'if rhs == 0 { return None; }\n                let (v, o) = self.overflowing_div(rhs);\n                if o { None } else { Some(v) }')]),
 ('P01', 'ref', 'is_zero is_one match', [(I, '*self == 0\n', 'matches!(*self, 0)\n'), (I, '*self == 1\n', 'matches!(self, 1)\n')]),
 ('P01', 'ref', 'is_positive', [(I, '*self >= 0\n', '!(*self < 0)\n'), (I, '<$ty>::is_negative(*self)', '*self < 0')]),
 ('P01', 'ref', 'float sign', [(I, '*self < 0.0', '0.0 > *self')]),
 ('P01', 'ref', 'to_ne via to_le', [(I, '<$ty>::to_be_bytes(self)', 'let mut b = self.to_le_bytes();\n                    b.reverse();\n                    b')]),
 ('P01', 'ref', 'recip', [(I, '1. / self.sin()', 'self.sin().recip()')]),
 ('P01', 'ref', 'max_neg', [(I, '-<$ty>::MIN_POSITIVE', '0.0 - <$ty>::MIN_POSITIVE')]),
 ('P01', 'ref', 'nz one', [(N, 'unsafe { <$ty>::new_unchecked(1) }', '<$ty>::new(1).unwrap()'), (N, 'self.get() == 1', '*self == <Self as crate::identity::One>::one()')]),
 ('P01', 'ref', 'nz sign', [(N, 'self.get().is_positive()', 'self.get() > 0'), (N, 'self.get().is_negative()', '!(self.get() > 0)')]),
 ('P01', 'ref', 'wrap shl masked', [(I, '<$ty>::wrapping_shl(self, rhs as u32)', 'let amount = rhs as u32 & (<$ty>::BITS - 1);\n                self << amount')]),
 ('P01', 'ref', 'abs', [(I, '''            fn abs(self) -> Self {
                <$ty>::abs(self)
            }

            #[inline]
            fn is_positive(&self) -> bool {
                *self >= 0
''', '''            fn abs(self) -> Self {
                if self < 0 { -self } else { self }
            }

            #[inline]
            fn is_positive(&self) -> bool {
                *self >= 0
''')]),
 # ---- P02
 ('P02', 'bug', 'sat u no low', [(I, SATU, SATU.replace('val < 0', 'val < -1'))]),
 ('P02', 'bug', 'sat s min', [(I, SATS, SATS.replace('<$ty>::MIN\n', '-<$ty>::MAX\n'))]),
 ('P02', 'bug', 'sat s ge', [(I, SATS, SATS.replace('val < <$ty>::MIN as', '-val > <$ty>::MAX as'))]),
 ('P02', 'bug', 'wrong list', [(I, '        u_greater = [u128],\n        s_less_eq = [i8, i16, i32, i64, isize],', '        u_greater = [],\n        s_less_eq = [i8, i16, i32, i64, isize],'), (I, '        u_less_eq = [u8, u16, u32, u64, usize],\n        u_greater = []', '        u_less_eq = [u8, u16, u32, u64, u128, usize],\n        u_greater = []')]),
 ('P02', 'bug', 'signed list', [(I, '    u_less = [u8, u16],\n    u_greater_eq = [u32, u64, u128],', '    u_less = [u8, u16, u32],\n    u_greater_eq = [u64, u128],')]),
 ('P02', 'bug', 'trunc via i32', [(I, '''truncate_from(val: $from) -> Self {
                val as $into''', '''truncate_from(val: $from) -> Self {
                val as i64 as $into''')]),
 ('P02', 'bug', 'trunc sign', [(I, '''truncate_from(val: $from) -> Self {
                val as $into''', '''truncate_from(val: $from) -> Self {
                val as u64 as $into''')]),
 ('P02', 'bug', 'checked via cast eq', [(I, 'val.try_into().ok()', 'let r = val as $ty;\n                if r as $from == val { Some(r) } else { None }')]),
 ('P02', 'bug', 'checked strict', [(I, 'val.try_into().ok()', 'let r: $ty = val.try_into().ok()?;\n                if r == <$ty>::MAX && val as i128 != <$ty>::MAX as i128 { None } else if r == <$ty>::MIN && r != 0 { None } else { Some(r) }')]),
 ('P02', 'ref', 'into sat', [(I, SATG, SATG.replace('val > <$ty>::MAX as $u_greater', '(val >> 1) > (<$ty>::MAX as $u_greater) >> 1'), 1)]),
 ('P02', 'ref', 'sat match', [(I, SATU, '''                match <$ty>::try_from(val) {
                    Ok(v) => v,
                    Err(_) if val < 0 => <$ty>::MIN,
                    Err(_) => <$ty>::MAX,
                }''')]),
 ('P02', 'ref', 'sat clamp', [(I, SATS, '                val.clamp(<$ty>::MIN as $s_greater, <$ty>::MAX as $s_greater) as $ty')]),
 ('P02', 'ref', 'sat min', [(I, SATG, '                val.min(<$ty>::MAX as $u_greater) as $ty', 0)]),
 ('P02', 'ref', 'sat min s', [(I, SATG, '                core::cmp::min(val, <$ty>::MAX as $u_greater) as $ty', 1)]),
 ('P02', 'ref', 'sat max', [(I, '''                if val < 0 {
                    <$ty>::MIN
                } else {
                    val as $ty
                }''', '                val.max(0) as $ty')]),
 ('P02', 'ref', 'sat reordered', [(I, SATU, '''                if val > <$ty>::MAX as $s_greater {
                    return <$ty>::MAX;
                }
                if val >= 0 {
                    val as $ty
                } else {
                    0
                }''')]),
 ('P02', 'ref', 'sat unwrap_or', [(I, SATG, '                <$ty>::try_from(val).unwrap_or(<$ty>::MAX)', 0)]),
 ('P02', 'ref', 'checked try_from', [(I, 'val.try_into().ok()', '<$ty>::try_from(val).ok()')]),
 ('P02', 'ref', 'checked match', [(I, 'val.try_into().ok()', 'match <$ty>::try_from(val) {\n                    Ok(v) => Some(v),\n                    Err(_) => None,\n                }')]),
 ('P02', 'ref', 'checked cast sign', [(I, 'val.try_into().ok()', 'let r = val as $ty;\n                #[allow(unused_comparisons)]\n                if r as $from == val && (r < 0) == (val < 0) { Some(r) } else { None }')]),
 ('P02', 'ref', 'into swapped', [(K, 'U::from_checked(self)', '<U as FromChecked<T>>::from_checked(self)')]),
 # ---- P03
 ('P03', 'bug', 'drop carry1', [(W, '                .wrapping_add(u128::from(carry1))\n', '')]),
 ('P03', 'bug', 'carry or', [(W, SUM1, SUM1.replace('u128::from(carry0)', 'u128::from(carry0 | carry2)').replace('\n                .wrapping_add(u128::from(carry2))', ''))]),
 ('P03', 'bug', 'hi shr 63', [(W, '.wrapping_add(tmp2.wrapping_shr(64))', '.wrapping_add(tmp2.wrapping_shr(63) >> 2)')]),
 ('P03', 'bug', 'add truncated', [(W, 'sum0.overflowing_add(add)', 'sum0.overflowing_add(add & lo_mask)')]),
 ('P03', 'bug', 'narrow add before', [(W, WIDE, '''                let wide = <$wide>::truncate_from(self)
                    .wrapping_mul(<$wide>::truncate_from(mul));
                let lo: Self = wide.truncate();
                let hi: Self = (wide >> <$ty>::BITS).truncate();
                (lo.wrapping_add(add), hi)''')]),
 ('P03', 'ref', 'tmp2 saturating', [(W, '.overflowing_add(tmp2.wrapping_shl(64))', '.overflowing_add(tmp2.wrapping_shl(64) & !1)')]),
 ('P03', 'bug', 'mid merged', [(W, SUM1, SUM1.replace('''                .wrapping_add(tmp1.wrapping_shr(64))
                .wrapping_add(tmp2.wrapping_shr(64))''', '''                .wrapping_add(tmp1.wrapping_add(tmp2).wrapping_shr(64))'''))]),
 ('P03', 'ref', 'from + ops', [(W, WIDE, '''                let wide = self as $wide * mul as $wide + add as $wide;
                (wide as $ty, (wide >> <$ty>::BITS) as $ty)''')]),
 ('P03', 'ref', 'carry in lo', [(W, WIDE, '''                let wide = <$wide>::truncate_from(self)
                    .wrapping_mul(<$wide>::truncate_from(mul));
                let lo: Self = wide.truncate();
                let hi: Self = (wide >> <$ty>::BITS).truncate();
                let (lo, carry) = lo.overflowing_add(add);
                (lo, hi.wrapping_add(carry as Self))''')]),
 ('P03', 'ref', 'reorder sum1', [(W, SUM1, '''            let carries = u128::from(carry0) + u128::from(carry1) + u128::from(carry2);
            let sum1 = (tmp1 >> 64)
                .wrapping_add(tmp2 >> 64)
                .wrapping_add(tmp3)
                .wrapping_add(carries);''')]),
 ('P03', 'ref', 'add first', [(W, '''            let (sum0, carry0) = tmp0.overflowing_add(tmp1.wrapping_shl(64));
            let (sum0, carry1) = sum0.overflowing_add(tmp2.wrapping_shl(64));
            let (sum0, carry2) = sum0.overflowing_add(add);''', '''            let (sum0, carry2) = tmp0.overflowing_add(add);
            let (sum0, carry1) = sum0.overflowing_add(tmp2.wrapping_shl(64));
            let (sum0, carry0) = sum0.overflowing_add(tmp1.wrapping_shl(64));''')]),
 ('P03', 'ref', 'split helper', [(W, '''            let lhs_lo = self & lo_mask;
            let rhs_lo = rhs & lo_mask;
            let lhs_hi = self.wrapping_shr(64);
            let rhs_hi = rhs.wrapping_shr(64);''', '''            let split = |v: u128| (v & lo_mask, v >> 64);
            let (lhs_lo, lhs_hi) = split(self);
            let (rhs_lo, rhs_hi) = split(rhs);''')]),
 ('P03', 'ref', 'low casts', [(W, '''            let lhs_lo = self & lo_mask;
            let rhs_lo = rhs & lo_mask;''', '''            let _ = lo_mask;
            let lhs_lo = u128::from(self as u64);
            let rhs_lo = rhs as u64 as u128;''')]),
 ('P03', 'ref', 'branch carry', [(W, SUM1, '''            let mut sum1 = tmp3 + (tmp1 >> 64) + (tmp2 >> 64);
            if carry0 {
                sum1 += 1;
            }
            if carry1 {
                sum1 += 1;
            }
            if carry2 {
                sum1 += 1;
            }''')]),
]
