A = 'crates/bits/src/algos/element/add.rs'
S = 'crates/bits/src/algos/element/sub.rs'
MUTS = [
 ('P04', 'bug', 'add drops last carry', [(A, 'for idx in 0..=len {', 'for idx in 0..len {')]),
 ('P04', 'bug', 'add short vec', [(A, 'vec![zero; len + 1]', 'vec![zero; len]')]),
 ('P04', 'bug', 'add len left only', [(A, 'let len = usize::max(left.len(), right.len());', 'let len = left.len();')]),
 ('P04', 'bug', 'addov len min', [(A, 'let len = usize::max(left.len(), right.len());', 'let len = usize::min(left.len(), right.len());', 2)]),
 ('P04', 'bug', 'add carry overwritten', [(A, '            if new_carry {\n                carry = true;\n            }\n\n            out', '            carry = new_carry;\n\n            out')]),
 ('P04', 'bug', 'addov lost', [(A, '(left, carry || overflow)', '(left, carry)')]),
 ('P04', 'bug', 'add break early', [(A, '            let r = right.get_opt(idx).unwrap_or(zero);\n', '            let r = right.get_opt(idx).unwrap_or(zero);\n            if idx >= right.len() { break; }\n', 2)]),
 ('P04', 'ref', 'addov break when done', [(A, '            let r = right.get_opt(idx).unwrap_or(zero);\n', '            let r = right.get_opt(idx).unwrap_or(zero);\n            if idx >= right.len() && !carry { break; }\n', 2)]),
 ('P04', 'bug', 'sub borrow kept', [(S, '                carry = false;\n                one', '                one', 1)]),
 ('P04', 'bug', 'sub operands', [(S, 'l.overflowing_sub(r)', 'r.overflowing_sub(l)')]),
 ('P04', 'bug', 'subov second borrow lost', [(S, '            let (res, new_carry) = res.overflowing_sub(extra);\n            if new_carry {\n                carry = true;\n            }\n', '            let (res, _) = res.overflowing_sub(extra);\n', 2)]),
 ('P04', 'bug', 'checked inverted', [(A, '        if carry {\n            None', '        if !carry {\n            None')]),
 ('P04', 'ref', 'add while loop', [(A, '        for idx in 0..=len {', '        let mut idx = 0;\n        while idx <= len {'), (A, 'out.set_ignore(idx, res);', 'out.set_ignore(idx, res);\n            idx += 1;')]),
 ('P04', 'ref', 'carry as limb', [(A, 'let mut carry = false;', 'let mut carry = zero;'), (A, 'let (res, new_carry) = l.overflowing_add(if carry { one } else { zero });\n            carry = new_carry;', 'let (res, c1) = l.overflowing_add(carry);'), (A, 'let (res, new_carry) = res.overflowing_add(r);\n            if new_carry {\n                carry = true;\n            }', 'let (res, c2) = res.overflowing_add(r);\n            carry = if c1 || c2 { one } else { zero };')]),
 ('P04', 'ref', 'helper adc', [(A, 'pub trait ElementAdd', 'fn adc<B: crate::bit_slice::BitLike>(l: B, r: B, c: bool) -> (B, bool) {\n    let (a, x) = l.overflowing_add(r);\n    let (b, y) = a.overflowing_add(if c { B::one() } else { B::zero() });\n    (b, x | y)\n}\npub trait ElementAdd'), (A, 'let (res, new_carry) = l.overflowing_add(if carry { one } else { zero });\n            carry = new_carry;\n\n            let (res, new_carry) = res.overflowing_add(r);\n            if new_carry {\n                carry = true;\n            }', 'let (res, new_carry) = adc(l, r, carry);\n            carry = new_carry;'), (A, '        let one = Self::Bit::one();\n', '', 1)]),
 ('P04', 'ref', 'sub helper swap order', [(S, 'let (res, new_carry) = l.overflowing_sub(r);\n            if new_carry {\n                carry = true;\n            }\n\n            let (res, new_carry) = res.overflowing_sub(extra);\n            if new_carry {\n                carry = true;\n            }', 'let (res, b1) = l.overflowing_sub(extra);\n            let (res, b2) = res.overflowing_sub(r);\n            carry = b1 || b2;')]),
]
