M = 'crates/bits/src/algos/element/mul.rs'
U = 'crates/bits/src/utils.rs'
N = 'crates/bits/src/algos/element/neg.rs'
MUTS = [
 ('P05', 'bug', 'mul size', [(M, 'vec![zero; left.len() + right.len()]', 'vec![zero; left.len() + right.len() - 1]')]),
 ('P05', 'bug', 'mul final carry dropped', [(M, '            if carry != zero {\n                out.add_item(idx + right.slice().len(), carry);\n            }\n', '')]),
 ('P05', 'bug', 'mul final carry place', [(M, 'out.add_item(idx + right.slice().len(), carry);', 'out.add_item(idx + right.slice().len() - 1, carry);')]),
 ('P05', 'bug', 'mul carry init', [(M, 'let mut carry = zero;', 'let mut carry = l;', 1)]),
 ('P05', 'bug', 'mul carry not threaded', [(M, 'Self::Bit::widening_mul(l, r, carry)', 'Self::Bit::widening_mul(l, r, zero)', 1)]),
 ('P05', 'bug', 'mul skip zero l stops', [(M, '            let mut carry = zero;\n\n            for (offset, &r) in right.slice().iter().enumerate() {', '            let mut carry = zero;\n\n            for (offset, &r) in right.slice().iter().enumerate() {\n                if r == zero { break; }', 1)]),
 ('P05', 'bug', 'mulov overflow overwritten', [(M, 'overflow |= new_overflow;', 'overflow = new_overflow;')]),
 ('P05', 'bug', 'mulov forgets to clear', [(M, '            l_mut[idx] = zero;\n', '')]),
 ('P05', 'bug', 'mulov up', [(M, 'for idx in (0..left.len()).rev()', 'for idx in 0..left.len()')]),
 ('P05', 'bug', 'mulov flag from carry missing', [(M, 'if carry != zero && left.add_item(idx + right.slice().len(), carry) {\n                new_overflow = true;\n            }', 'if carry != zero { left.add_item(idx + right.slice().len(), carry); }')]),
 ('P05', 'bug', 'mulov skip low limb', [(M, 'for idx in (0..left.len()).rev()', 'for idx in (1..left.len()).rev()')]),
 ('P05', 'bug', 'mulov partial flag', [(M, 'if left.add_item(idx + offset, low) {\n                    new_overflow = true;\n                }', 'new_overflow = left.add_item(idx + offset, low);')]),
 ('P05', 'ref', 'mul for loop', [(M, 'left.slice().iter().enumerate().for_each(|(idx, &l)| {', 'for (idx, &l) in left.slice().iter().enumerate() {'), (M, '        });\n\n        IntSlice', '        }\n\n        IntSlice')]),
 ('P05', 'ref', 'mul index loops', [(M, 'left.slice().iter().enumerate().for_each(|(idx, &l)| {', 'for idx in 0..left.len() {\n            let l = left.get(idx);'), (M, '        });\n\n        IntSlice', '        }\n\n        IntSlice'), (M, 'for (offset, &r) in right.slice().iter().enumerate() {', 'for offset in 0..right.len() {\n                let r = right.get(offset);', 1)]),
 ('P05', 'ref', 'mul always add carry', [(M, '            if carry != zero {\n                out.add_item(idx + right.slice().len(), carry);\n            }\n', '            out.add_item(idx + right.slice().len(), carry);\n')]),
 ('P05', 'ref', 'mul operand order', [(M, 'Self::Bit::widening_mul(l, r, carry)', 'Self::Bit::widening_mul(r, l, carry)', 1)]),
 ('P05', 'ref', 'mulov single flag', [(M, '            let mut new_overflow = false;\n', ''), (M, '            overflow |= new_overflow;\n', ''), (M, 'new_overflow = true;', 'overflow = true;', 0)]),
 ('P05', 'ref', 'mulov while', [(M, 'for idx in (0..left.len()).rev() {', 'let mut idx = left.len();\n        while idx > 0 {\n            idx -= 1;')]),
 ('P05', 'ref', 'mulov skip zero limb', [(M, '            let mut new_overflow = false;\n            let mut carry = zero;\n', '            let mut new_overflow = false;\n            let mut carry = zero;\n            if left.slice()[idx] == zero { continue; }\n')]),
 ('P05', 'ref', 'helper row', [(M, 'pub trait ElementMul: BitSliceExt {', '''fn add_row<S: ?Sized + ElementMul>(left: &mut S, right: &[S::Bit], idx: usize, l: S::Bit) -> bool {
    let zero = S::Bit::zero();
    let mut lost = false;
    let mut carry = zero;
    for (offset, &r) in right.iter().enumerate() {
        let (low, high) = S::Bit::widening_mul(l, r, carry);
        carry = high;
        if left.add_item(idx + offset, low) {
            lost = true;
        }
    }
    if carry != zero && left.add_item(idx + right.len(), carry) {
        lost = true;
    }
    lost
}

pub trait ElementMul: BitSliceExt {'''), (M, '''            let mut new_overflow = false;
            let mut carry = zero;
''', ''), (M, '''            for (offset, &r) in right.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                carry = high;
                if left.add_item(idx + offset, low) {
                    new_overflow = true;
                }
            }

            if carry != zero && left.add_item(idx + right.slice().len(), carry) {
                new_overflow = true;
            }

            overflow |= new_overflow;
''', '            overflow |= add_row(left, right.slice(), idx, l);\n')]),
 ('P04', 'bug', 'add_item val kept', [(M, '            } else {\n                val = Self::Bit::one();\n            }', '            }')]),
 ('P04', 'bug', 'add_item carry init', [(M, 'let mut carry = val != Self::Bit::zero();', 'let mut carry = false;')]),
 ('P04', 'bug', 'add_item one step', [(M, '            if !carry {\n                break;\n            } else {', '            if !carry || idx == slice.len() - 1 {\n                break;\n            } else {')]),
 ('P04', 'ref', 'add_item loop', [(M, 'while let Some(loc) = slice.get_mut(idx) {', 'while idx < slice.len() {\n            let loc = &mut slice[idx];')]),
 ('P04', 'ref', 'add_item no break', [(M, '            if !carry {\n                break;\n            } else {\n                val = Self::Bit::one();\n            }', '            val = if carry { Self::Bit::one() } else { Self::Bit::zero() };')]),
 ('P04', 'bug', 'not skips last', [(N, 'this.slice_mut().iter_mut().for_each', 'this.slice_mut().iter_mut().skip(1).for_each')]),
 ('P04', 'ref', 'not for loop', [(N, 'this.slice_mut().iter_mut().for_each(|v| *v = !*v);', 'for v in this.slice_mut() { *v = !*v; }')]),
 ('P04', 'bug', 'shrink position', [(U, 'self.iter().rposition(|val| *val != T::zero())', 'self.iter().position(|val| *val != T::zero())', 1)]),
 ('P04', 'bug', 'shrink eq', [(U, 'self.iter().rposition(|val| *val != T::zero())', 'self.iter().rposition(|val| *val != T::one())', 1)]),
 ('P04', 'ref', 'shrink is_zero', [(U, 'self.iter().rposition(|val| *val != T::zero()).unwrap_or(0)', 'match self.iter().rposition(|val| !(*val == T::zero())) { Some(i) => i, None => 0 }', 1)]),
 ('P04', 'ref', 'shrink loop', [(U, 'let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);\n        &self[..usize::min(idx + 1, self.len())]', 'let mut n = self.len();\n        while n > 1 && self[n - 1] == T::zero() { n -= 1; }\n        &self[..n]', 1)]),
]
