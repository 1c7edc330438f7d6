L = 'crates/bits/src/algos/element/shl.rs'
R = 'crates/bits/src/algos/element/shr.rs'
BA = 'crates/bits/src/algos/element/bitand.rs'
BO = 'crates/bits/src/algos/element/bitor.rs'
BX = 'crates/bits/src/algos/element/bitxor.rs'
MUTS = [
 ('P09', 'bug', 'shl inverse not mod', [(L, 'let arr_shift = (right / Self::Bit::BIT_LEN) + 1;', 'let arr_shift = (right / Self::Bit::BIT_LEN) + 1 + usize::from(right > 4096);')]),
 ('P09', 'bug', 'shl forward order', [(L, '            .enumerate()\n            .rev()\n', '            .enumerate()\n')]),
 ('P09', 'bug', 'shl mask wrong', [(L, '!(Self::Bit::max_value() << elem_shift)', 'Self::Bit::max_value() >> elem_shift')]),
 ('P09', 'bug', 'shl in place no fill', [(L, '        left.slice_mut()[..arr_shift - 1].fill(zero);\n', '')]),
 ('P09', 'bug', 'shl in place fill short', [(L, '[..arr_shift - 1].fill', '[..(arr_shift - 1).min(4)].fill')]),
 ('P09', 'bug', 'shl checked ge', [(L, 'if right > left.bit_len()', 'if right >= left.bit_len() && right > 64')]),
 ('P09', 'bug', 'shl checked loose', [(L, 'if right > left.bit_len()', 'if right > left.bit_len() + 1')]),
 ('P09', 'bug', 'shr checked len', [(R, 'if right > left.bit_len()', 'if right / 8 > left.bit_len()')]),
 ('P09', 'bug', 'shr wrapping mask', [(R, 'right.checked_rem(bit_len).unwrap_or(0)', 'right.checked_rem(bit_len + 1).unwrap_or(0)')]),
 ('P09', 'bug', 'shl wrapping mask', [(L, 'right.checked_rem(bit_len).unwrap_or(0)', 'right & bit_len.wrapping_sub(1)')]),
 ('P09', 'bug', 'shr keeps old', [(R, 'left.set_ignore(idx, low & !elem_mask);', 'let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);\n                left.set_ignore(idx, low);')]),
 ('P09', 'bug', 'shr low dropped', [(R, 'usize::checked_sub(idx + 1, arr_shift)', 'usize::checked_sub(idx, arr_shift)')]),
 ('P09', 'bug', 'shr skip first', [(R, 'left.slice().iter().enumerate().for_each', 'left.slice().iter().enumerate().skip(1).for_each')]),
 ('P09', 'bug', 'shr empty off', [(R, 'let empty = left.len() + 1 - arr_shift;', 'let empty = (left.len() + 2 - arr_shift).min(left.len());')]),
 ('P09', 'bug', 'and max', [(BA, 'usize::max', 'usize::min') if False else (BX, 'l ^ r', 'l | r')]),
 ('P09', 'ref', 'shl u helper', [(L, 'let low = val << elem_shift;\n\n                let high', 'let low = (val << elem_shift) & !elem_mask;\n\n                let high')]),
 ('P09', 'ref', 'shl for loop', [(L, '(0..left.slice().len()).rev().for_each(|idx| {', 'for idx in (0..left.slice().len()).rev() {'), (L, '            left.set_ignore(idx + arr_shift - 1, low);\n        });', '            left.set_ignore(idx + arr_shift - 1, low);\n        }')]),
 ('P09', 'ref', 'shr inverse', [(R, '(Self::Bit::BIT_LEN - elem_shift) % Self::Bit::BIT_LEN', 'if elem_shift == 0 { 0 } else { Self::Bit::BIT_LEN - elem_shift }')]),
 ('P09', 'ref', 'shr while', [(R, '(0..left.slice().len()).for_each(|idx| {', 'let n = left.len();\n        let mut i = 0;\n        while i < n {\n            let idx = i;\n            i += 1;'), (R, '                left.set_ignore(idx, low & !elem_mask);\n            }\n        });', '                left.set_ignore(idx, low & !elem_mask);\n            }\n        }')]),
 ('P09', 'ref', 'checked flipped', [(L, 'if right > left.bit_len() {\n            return None;\n        }\n\n        Some(Self::inner_shl_wrap_and_mask(left, right))', 'if right <= left.bit_len() {\n            Some(Self::inner_shl_wrap_and_mask(left, right))\n        } else {\n            None\n        }')]),
 ('P09', 'ref', 'fill zero loop', [(L, 'left.slice_mut()[..arr_shift - 1].fill(zero);', 'for i in 0..arr_shift - 1 {\n            left.slice_mut()[i] = zero;\n        }')]),
 ('P09', 'ref', 'wrapping branch', [(R, 'Self::inner_shr_wrap_and_mask(left, right.checked_rem(bit_len).unwrap_or(0))', 'let by = if bit_len == 0 { 0 } else { right % bit_len };\n        Self::inner_shr_wrap_and_mask(left, by)')]),
]
