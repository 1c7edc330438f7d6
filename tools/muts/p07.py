D = 'crates/bits/src/algos/bitwise/div.rs'
E = 'crates/bits/src/algos/element/div.rs'
LONG = '''            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
            if ElementCmp::cmp(&remainder, div).is_ge() {
                // Subtract will never overflow
                ElementSub::sub_wrapping(&mut remainder, div);
                quotient.set_bit(idx, true);
            }
'''
MUTS = [
 ('P07', 'bug', 'gt instead of ge', [(D, 'if ElementCmp::cmp(&remainder, div).is_ge()', 'if ElementCmp::cmp(&remainder, div).is_gt()')]),
 ('P07', 'bug', 'swapped cmp', [(D, 'if ElementCmp::cmp(&remainder, div).is_ge()', 'if ElementCmp::cmp(div, &remainder).is_ge()')]),
 ('P07', 'bug', 'short loop', [(D, 'let bit_len = usize::max(num.bit_len(), div.bit_len());', 'let bit_len = usize::min(num.bit_len(), div.bit_len());')]),
 ('P07', 'bug', 'no quotient clear', [(D, '            } else {\n                num.set_bit(idx, false);\n            }\n', '            }\n')]),
 ('P07', 'bug', 'zero accepted', [(D, 'if is_zero(right) {\n            return None;\n        }\n\n        let (out, carry) = BitwiseDiv::div', 'if right.slice().is_empty() {\n            return None;\n        }\n\n        let (out, carry) = BitwiseDiv::div')]),
 ('P07', 'bug', 'zero test first limb', [(D, 'val.slice().iter().all(|v| v.is_zero())', 'val.slice().iter().take(1).all(|v| v.is_zero())')]),
 ('P07', 'bug', 'zero test any', [(D, 'val.slice().iter().all(|v| v.is_zero())', 'val.slice().iter().any(|v| v.is_zero())')]),
 ('P07', 'bug', 'bit from wrong end', [(D, 'remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));', 'remainder.set_bit(0, num.get_bit_opt(bit_len - 1 - idx).unwrap_or(false));')]),
 ('P07', 'bug', 'missing bits one', [(D, 'num.get_bit_opt(idx).unwrap_or(false)', 'num.get_bit_opt(idx).unwrap_or(true)')]),
 ('P07', 'bug', 'assert removed', [(D, '''        assert!(!is_zero(div), "attempt to divide by zero");

        let len''', '        let len')]),
 ('P07', 'bug', 'swapped result', [(D, '(quotient, remainder)', '(remainder, quotient)')]),
 ('P07', 'bug', 'elem gt', [(E, 'while ElementCmp::cmp(&remainder, right).is_ge()', 'while ElementCmp::cmp(&remainder, right).is_gt()')]),
 ('P07', 'bug', 'elem once', [(E, 'remainder.set(0, left.get_opt(idx)', 'remainder.set(0, left.get_opt(idx & 63)')]),
 ('P07', 'bug', 'elem shl bits', [(E, 'ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);', 'ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN - 1);')]),
 ('P07', 'bug', 'rem wrap copies first', [(D, '        num.slice_mut().copy_from_slice(remainder);\n', '        if bit_len > 64 {\n            num.slice_mut().copy_from_slice(remainder);\n        }\n')]),
 ('P07', 'ref', 'loop over num bits', [(D, 'let bit_len = usize::max(num.bit_len(), div.bit_len());', 'let bit_len = num.bit_len();')]),
 ('P07', 'ref', 'set always', [(D, LONG, '''            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
            let fits = ElementCmp::cmp(&remainder, div).is_ge();
            if fits {
                ElementSub::sub_wrapping(&mut remainder, div);
            }
            quotient.set_bit(idx, fits);
''')]),
 ('P07', 'ref', 'not lt', [(D, 'if ElementCmp::cmp(&remainder, div).is_ge()', 'if ElementCmp::cmp(&remainder, div) != core::cmp::Ordering::Less')]),
 ('P07', 'ref', 'helper', [(D, 'if ElementCmp::cmp(&remainder, div).is_ge()', 'if fits(&remainder[..], div)'), (D, 'pub trait BitwiseDiv', 'fn fits<A: ?Sized + BitSliceExt, B: ?Sized + BitSliceExt<Bit = A::Bit>>(r: &A, d: &B) -> bool {\n    !ElementCmp::cmp(r, d).is_lt()\n}\n\npub trait BitwiseDiv')]),
 ('P07', 'ref', 'while', [(D, '        for idx in (0..bit_len).rev() {\n            ElementShl::shl_wrapping(&mut remainder, 1);', '        let mut left = bit_len;\n        while left > 0 {\n            left -= 1;\n            let idx = left;\n            ElementShl::shl_wrapping(&mut remainder, 1);')]),
 ('P07', 'ref', 'bit match', [(D, 'num.get_bit_opt(idx).unwrap_or(false)', 'match num.get_bit_opt(idx) { Some(b) => b, None => false }')]),
 ('P07', 'ref', 'is zero loop', [(D, 'val.slice().iter().all(|v| v.is_zero())', 'for v in val.slice() {\n        if !v.is_zero() {\n            return false;\n        }\n    }\n    true')]),
 ('P07', 'ref', 'is zero any', [(D, 'val.slice().iter().all(|v| v.is_zero())', '!val.slice().iter().any(|v| !v.is_zero())')]),
 ('P07', 'ref', 'checked cond', [(D, '        if is_zero(right) {\n            return None;\n        }\n\n        let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);\n        if carry {\n            None\n        } else {\n            Some(out)\n        }', '        let usable = !is_zero(right);\n        usable.then(|| BitwiseDiv::div_long_wrapping(left, right, scratch))')]),
]
