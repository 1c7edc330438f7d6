A = 'crates/bits/src/algos/bitwise/add.rs'
S = 'crates/bits/src/algos/bitwise/sub.rs'
M = 'crates/bits/src/algos/bitwise/mul.rs'
R = 'crates/bits/src/algos/bitwise/shr.rs'
MUTS = [
 ('P10', 'bug', 'add exclusive', [(A, 'for idx in 0..=bit_len {', 'for idx in 0..bit_len {')]),
 ('P10', 'bug', 'add in place carry lost', [(A, '''                3 => {
                    carry = true;
                    true
                }
                // SAFETY: `c`, `l`, and `r` in range 0..=1, can't be a value beyond 3
                _ => unsafe { unreachable_unchecked() },
            };

            left''', '''                3 => true,
                // SAFETY: `c`, `l`, and `r` in range 0..=1, can't be a value beyond 3
                _ => unsafe { unreachable_unchecked() },
            };

            left''')]),
 ('P10', 'bug', 'sub table', [(S, '(false, true, true) => {\n                    carry = true;\n                    false', '(false, true, true) => {\n                    carry = false;\n                    false')]),
 ('P10', 'bug', 'sub no plus one', [(S, '            out.add_item(0, Self::Bit::one());\n', '')]),
 ('P10', 'bug', 'sub min', [(S, 'let bit_len = usize::max(', 'let bit_len = usize::min(')]),
 ('P10', 'bug', 'mul no shift', [(M, 'new_self = ElementShl::shl(&new_self, 1);', 'if r {\n                new_self = ElementShl::shl(&new_self, 1);\n            }')]),
 ('P10', 'bug', 'mul left bits', [(M, '0..right.bit_len()', '0..right.bit_len().min(left.bit_len())')]),
 ('P10', 'bug', 'shr plus', [(R, 'out.set_bit_ignore(idx, new);', 'out.set_bit_ignore(idx + 1, new);')]),
 ('P10', 'ref', 'add helper', [(A, 'let c = if carry {\n                carry = false;\n                1\n            } else {\n                0\n            };\n\n            let new = match c + l + r {\n                0 => false,\n                1 => true,\n                2 => {\n                    carry = true;\n                    false\n                }\n                3 => {\n                    carry = true;\n                    true\n                }\n                // SAFETY: `c`, `l`, and `r` in range 0..=1, can\'t be a value beyond 3\n                _ => unsafe { unreachable_unchecked() },\n            };\n\n            left', 'let total = u8::from(carry) + l + r;\n            carry = total >= 2;\n            let new = total % 2 == 1;\n\n            left')]),
 ('P10', 'ref', 'sub xor', [(S, 'out.set_bit(idx, new);', 'let _ = new;\n            out.set_bit(idx, l ^ r ^ c);')]),
 ('P10', 'ref', 'mul if bit', [(M, '            let r = right.get_bit(idx);\n            if r {', '            if right.get_bit(idx) {')]),
 ('P10', 'ref', 'shr exclusive', [(R, '(0..=left.bit_len()).rev()', '(0..left.bit_len()).rev()')]),
 ('P10', 'ref', 'shr guard', [(R, '            if let Some(idx) = idx.checked_sub(right) {\n                out.set_bit_ignore(idx, new);\n            }', '            if idx >= right {\n                out.set_bit_ignore(idx - right, new);\n            }')]),
] + [
 ('P10', 'bug', 'bshl lost', [('crates/bits/src/algos/bitwise/shl.rs', '            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n', '            if idx + right < bit_len || new && right < 64 {\n                out.set_bit_push(idx + right, new);\n            }\n')]),
 ('P10', 'bug', 'bshl short', [('crates/bits/src/algos/bitwise/shl.rs', '            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n', '            if new && idx + right < bit_len + right / 2 {\n                out.set_bit_push(idx + right, new);\n            }\n')]),
 ('P10', 'bug', 'bshl or', [('crates/bits/src/algos/bitwise/shl.rs', '            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n', '            if new || idx | right < bit_len {\n                out.set_bit_push(idx | right, new);\n            }\n')]),
 ('P10', 'ref', 'bshl for', [('crates/bits/src/algos/bitwise/shl.rs', '        left.iter_bits().enumerate().for_each(|(idx, new)| {\n            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n        });\n', '        for (idx, new) in left.iter_bits().enumerate() {\n            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n        }\n')]),
 ('P10', 'ref', 'bshl only ones', [('crates/bits/src/algos/bitwise/shl.rs', '            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n', '            if new {\n                out.set_bit_push(idx + right, true);\n            }\n')]),
 ('P10', 'ref', 'bshl range', [('crates/bits/src/algos/bitwise/shl.rs', '        left.iter_bits().enumerate().for_each(|(idx, new)| {\n            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n        });\n', '        for idx in 0..bit_len {\n            let new = left.get_bit(idx);\n            let to = idx + right;\n            if new || to < bit_len {\n                out.set_bit_push(to, new);\n            }\n        }\n')]),
 ('P10', 'ref', 'bshl while', [('crates/bits/src/algos/bitwise/shl.rs', '        left.iter_bits().enumerate().for_each(|(idx, new)| {\n            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n        });\n', '        let mut idx = 0;\n        while idx < bit_len {\n            if left.get_bit(idx) {\n                out.set_bit_push(idx + right, true);\n            }\n            idx += 1;\n        }\n')]),
 ('P10', 'ref', 'bshl down', [('crates/bits/src/algos/bitwise/shl.rs', '        left.iter_bits().enumerate().for_each(|(idx, new)| {\n            if new || idx + right < bit_len {\n                out.set_bit_push(idx + right, new);\n            }\n        });\n', '        for idx in (0..bit_len).rev() {\n            if left.get_bit(idx) {\n                out.set_bit_push(idx + right, true);\n            }\n        }\n')]),
]
