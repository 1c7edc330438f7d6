"""third wave: limb algorithms"""
AD = 'crates/bits/src/algos/element/add.rs'
MU = 'crates/bits/src/algos/element/mul.rs'
DV = 'crates/bits/src/algos/bitwise/div.rs'
ED = 'crates/bits/src/algos/element/div.rs'
MUTS = []
def B(p, n, *e): MUTS.append((p, 'bug', 'w3b ' + n, list(e)))
def RF(ps, n, *e):
    for p in ps.split(): MUTS.append((p, 'ref', 'w3b ' + n, list(e)))
BODY = '''            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);

            let (res, new_carry) = l.overflowing_add(if carry { one } else { zero });
            carry = new_carry;

            let (res, new_carry) = res.overflowing_add(r);
            if new_carry {
                carry = true;
            }

            out.set_ignore(idx, res);
'''
RF('P04', 'operands first', (AD, BODY, '''            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);

            let (sum, over) = r.overflowing_add(l);
            let (sum, over2) = if carry { sum.overflowing_add(one) } else { (sum, false) };
            carry = over || over2;
            out[idx] = sum;
'''))
RF('P04', 'carry as limb', (AD, BODY, '''            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            let addend = match carry {
                true => one,
                false => zero,
            };
            let (res, a) = l.overflowing_add(addend);
            let (res, b) = res.overflowing_add(r);
            carry = a | b;
            out.set(idx, res);
'''))
RF('P04', 'zip then top', (AD, '''        for idx in 0..=len {
''' + BODY, '''        for idx in 0..len {
''' + BODY + '''        }
        if carry {
            out[len] = one;
'''))
B('P04', 'carry and', (AD, BODY, '''            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);

            let (sum, over) = r.overflowing_add(l);
            let (sum, over2) = if carry { sum.overflowing_add(one) } else { (sum, false) };
            carry = if carry { over2 } else { over };
            out[idx] = sum;
'''))
B('P04', 'stops at shorter', (AD, 'for idx in 0..=len {', 'for idx in 0..=(if carry { len } else { len }).min(right.len()) {'))
B('P04', 'overflow only carry', (AD, 'if left.set_opt(idx, res).is_none() && res != zero {', 'if left.set_opt(idx, res).is_none() && res != zero && carry {'))
B('P04', 'overflow forgotten', (AD, '                overflow = true;', '                overflow = !overflow;'))
# multiplication
RF('P05', 'for loops', (MU, '''        left.slice().iter().enumerate().for_each(|(idx, &l)| {
            let mut carry = zero;

            for (offset, &r) in right.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                carry = high;
                out.add_item(idx + offset, low);
            }

            if carry != zero {
                out.add_item(idx + right.slice().len(), carry);
            }
        });
''', '''        for idx in 0..left.len() {
            let l = left.slice()[idx];
            let mut carry = zero;
            let mut offset = 0;
            while offset < right.len() {
                let (low, high) = Self::Bit::widening_mul(l, right.slice()[offset], carry);
                out.add_item(idx + offset, low);
                carry = high;
                offset += 1;
            }
            out.add_item(idx + offset, carry);
        }
'''))
B('P05', 'carry once', (MU, '                val = Self::Bit::one();\n', '                val = Self::Bit::one();\n                if idx > 2 && idx == slice.len() - 2 {\n                    break;\n                }\n'))
B('P05', 'carry dropped zero limb', (MU, '            for (offset, &r) in right.slice().iter().enumerate() {\n', '            for (offset, &r) in right.slice().iter().enumerate() {\n                if r == zero {\n                    continue;\n                }\n'))
RF('P05', 'zero left skipped', (MU, '            let mut carry = zero;\n\n            for (offset, &r) in right', '            if l == zero {\n                return;\n            }\n            let mut carry = zero;\n\n            for (offset, &r) in right'))
# division
RF('P07', 'explicit compare', (DV, '''            if ElementCmp::cmp(&remainder, div).is_ge() {
                // Subtract will never overflow
                ElementSub::sub_wrapping(&mut remainder, div);
                quotient.set_bit(idx, true);
            }''', '''            if ElementCmp::cmp(&remainder, div).is_lt() {
                continue;
            }
            ElementSub::sub_wrapping(&mut remainder, div);
            quotient.set_bit(idx, true);'''))
RF('P07', 'step helper', (DV, '''            ElementShl::shl_wrapping(remainder, 1);
            remainder.set_bit(0, num.get_bit(idx));
            if ElementCmp::cmp(remainder, div).is_ge() {
                // Subtract will never overflow
                ElementSub::sub_wrapping(remainder, div);
                num.set_bit(idx, true);
            } else {
                num.set_bit(idx, false);
            }''', '''            let bit = num.get_bit(idx);
            let fits = step(remainder, div, bit);
            num.set_bit(idx, fits);'''), (DV, 'pub trait BitwiseDiv', '''fn step<B: crate::bit_slice::BitLike, T: ?Sized + BitSliceExt<Bit = B>>(rem: &mut [B], div: &T, bit: bool) -> bool {
    ElementShl::shl_wrapping(rem, 1);
    rem.set_bit(0, bit);
    let fits = !ElementCmp::cmp(rem, div).is_lt();
    if fits {
        ElementSub::sub_wrapping(rem, div);
    }
    fits
}

pub trait BitwiseDiv'''))
B('P07', 'strict', (DV, 'if ElementCmp::cmp(&remainder, div).is_ge() {', 'if ElementCmp::cmp(&remainder, div).is_gt() {'))
B('P07', 'skips top bit', (DV, '        for idx in (0..bit_len).rev() {\n            ElementShl::shl_wrapping(&mut remainder, 1);', '        for idx in (0..bit_len - usize::from(len > 2)).rev() {\n            ElementShl::shl_wrapping(&mut remainder, 1);'))
B('P07', 'rem after last', (DV, '        num.slice_mut().copy_from_slice(remainder);', '        if !is_zero(remainder) {\n            num.slice_mut().copy_from_slice(remainder);\n        }'))
RF('P07', 'while countdown', (DV, '''        let bit_len = num.bit_len();

        for idx in (0..bit_len).rev() {
''', '''        let mut idx = num.bit_len();

        while idx > 0 {
            idx -= 1;
'''))
RF('P07', 'element position', (ED, '''        let mut one = vec![Self::Bit::zero(); len];
        one[len - 1] = Self::Bit::one();
''', '''        let mut one = vec![Self::Bit::zero(); len - 1];
        one.push(Self::Bit::one());
'''))
B('P07', 'element keeps one', (ED, '            ElementShr::shr_wrapping(&mut one, Self::Bit::BIT_LEN);\n', '            if idx != 1 {\n                ElementShr::shr_wrapping(&mut one, Self::Bit::BIT_LEN);\n            }\n'))
