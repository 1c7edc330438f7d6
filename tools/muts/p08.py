B = 'crates/bits/src/bit_slice.rs'
T = 'crates/bits/src/bit_slice/iter.rs'
U = 'crates/bits/src/utils.rs'
C = 'crates/bits/src/algos/element/cmp.rs'
UI = 'crates/ints/src/u.rs'
II = 'crates/ints/src/i.rs'
MUTS = [
 ('P08', 'bug', 'idx_bit narrow', [(B, '(idx / T::Bit::BIT_LEN, idx % T::Bit::BIT_LEN)', '((idx as u32 as usize) / T::Bit::BIT_LEN, idx % T::Bit::BIT_LEN)')]),
 ('P08', 'bug', 'idx_bit size', [(B, 'mem::size_of::<T>() * 8', 'if mem::size_of::<T>() > 4 { 32 } else { mem::size_of::<T>() * 8 }')]),
 ('P08', 'bug', 'set_bit only sets', [(B, '            *item &= !(Self::Bit::one() << bit);\n            if val {', '            if !val && bit != 31 {\n                *item &= !(Self::Bit::one() << bit);\n            }\n            if val {')]),
 ('P08', 'bug', 'set_opt lenient', [(B, 'self.slice_mut().get_mut(idx).map(|cur| {\n            *cur = val;\n        })', 'let n = self.len();\n        if n == 0 { return None; }\n        self.slice_mut()[idx.min(n - 1)] = val;\n        Some(())')]),
 ('P08', 'bug', 'get_opt wraps', [(B, 'self.slice().get(idx).copied()\n    }\n\n    /// Get the value of a bit at a given pos', 'if self.is_empty() { return None; }\n        self.slice().get(idx % self.len()).copied()\n    }\n\n    /// Get the value of a bit at a given pos')]),
 ('P08', 'bug', 'extend truncates', [(B, '        if len > self.len() {\n            self.resize(len, val);\n        }', '        if len != self.len() {\n            self.resize(len, val);\n        }')]),
 ('P08', 'bug', 'set_push short', [(B, 'self.extend(idx + 1, Self::Bit::zero());', 'self.extend(idx, Self::Bit::zero());')]),
 ('P08', 'bug', 'set_bit_push fills', [(B, 'let (len, _) = idx_bit::<Self>(idx);\n        self.extend(len + 1, Self::Bit::zero());', 'let (len, _) = idx_bit::<Self>(idx);\n        self.extend(len + 1, if len > 7 { Self::Bit::one() } else { Self::Bit::zero() });')]),
 ('P08', 'bug', 'iter early advance', [(T, 'if bit_idx == I::BIT_LEN - 1 {', 'if bit_idx >= 30 && bit_idx == I::BIT_LEN - 2 || bit_idx == I::BIT_LEN - 1 {')]),
 ('P08', 'bug', 'iter len ignores cur', [(T, 'if self.cur.is_some() {\n                I::BIT_LEN - self.idx % I::BIT_LEN', 'if self.cur.is_some() && remaining > 0 {\n                I::BIT_LEN - self.idx % I::BIT_LEN')]),
 ('P08', 'bug', 'iter len offset', [(T, 'I::BIT_LEN - self.idx % I::BIT_LEN', 'I::BIT_LEN - (self.idx + 1) % I::BIT_LEN')]),
 ('P08', 'bug', 'shrink keeps one more', [(U, 'alloc::vec::Vec::truncate(&mut self, idx + 1);', 'alloc::vec::Vec::truncate(&mut self, idx + 2);')]),
 ('P08', 'bug', 'shrink predicate', [(U, 'rposition(|val| *val != T::zero()).unwrap_or(0);\n        &', 'rposition(|val| *val > T::one()).unwrap_or(0);\n        &')]),
 ('P08', 'bug', 'reverse half', [(U, 'while idx < N / 2 {', 'while idx < N / 2 && idx < 8 {')]),
 ('P08', 'bug', 'get_bit panics late', [(B, 'self.get_bit_opt(idx).expect("get_bit index in-bounds")', 'self.get_bit_opt(idx).unwrap_or(false)')]),
 ('P08', 'ref', 'get via if', [(B, 'self.slice().get(idx).copied()\n    }\n\n    /// Get the value of a bit at a given pos', 'let s = self.slice();\n        if idx < s.len() { Some(s[idx]) } else { None }\n    }\n\n    /// Get the value of a bit at a given pos')]),
 ('P08', 'ref', 'get_bit shift down', [(B, '.map(|val| val & (<Self::Bit as One>::one() << bit) != <Self::Bit as Zero>::zero())', '.map(|val| (val >> bit) & <Self::Bit as One>::one() == <Self::Bit as One>::one())')]),
 ('P08', 'ref', 'set_bit branches', [(B, '            *item &= !(Self::Bit::one() << bit);\n            if val {\n                *item |= Self::Bit::one() << bit;\n            }', '            let mask = Self::Bit::one() << bit;\n            if val {\n                *item |= mask;\n            } else {\n                *item &= !mask;\n            }')]),
 ('P08', 'ref', 'set_bit xor', [(B, '            *item &= !(Self::Bit::one() << bit);\n            if val {\n                *item |= Self::Bit::one() << bit;\n            }', '            let mask = Self::Bit::one() << bit;\n            let cur = *item & mask != Self::Bit::zero();\n            if val != cur {\n                *item ^= mask;\n            }')]),
 ('P08', 'ref', 'len expr', [(T, 'I::BIT_LEN * remaining\n            + if self.cur.is_some() {\n                I::BIT_LEN - self.idx % I::BIT_LEN\n            } else {\n                0\n            }', 'match self.cur {\n            Some(_) => I::BIT_LEN * (remaining + 1) - self.idx % I::BIT_LEN,\n            None => 0,\n        }')]),
 ('P08', 'ref', 'next if let', [(T, '        let val = self.cur?;\n', '        let val = match self.cur {\n            Some(v) => v,\n            None => return None,\n        };\n')]),
 ('P08', 'ref', 'shrink while', [(U, 'let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);\n        alloc::vec::Vec::truncate(&mut self, idx + 1);', 'let mut n = self.len();\n        while n > 1 && self[n - 1] == T::zero() {\n            n -= 1;\n        }\n        alloc::vec::Vec::truncate(&mut self, n);')]),
 ('P08', 'ref', 'reverse swap', [(U, 'let tmp = bytes[idx];\n        bytes[idx] = bytes[bytes.len() - idx - 1];\n        bytes[bytes.len() - idx - 1] = tmp;', 'let other = N - 1 - idx;\n        let (a, b) = (bytes[idx], bytes[other]);\n        bytes[idx] = b;\n        bytes[other] = a;')]),
 ('P06', 'bug', 'cmp lsb first', [(C, 'for idx in (0..len).rev() {', 'for idx in 0..len {')]),
 ('P06', 'bug', 'cmp min len', [(C, 'usize::max(left.len(), right.len())', 'usize::min(left.len(), right.len())')]),
 ('P06', 'bug', 'cmp left len', [(C, 'usize::max(left.len(), right.len())', 'left.len()')]),
 ('P06', 'bug', 'cmp skips low', [(C, 'for idx in (0..len).rev() {', 'for idx in (usize::from(len > 4)..len).rev() {')]),
 ('P06', 'bug', 'cmp fill one', [(C, '&left.get_opt(idx).unwrap_or(zero)', '&left.get_opt(idx).unwrap_or(Self::Bit::one())'), (C, 'identity::Zero;', 'identity::{One, Zero};')]),
 ('P06', 'bug', 'cmp continues', [(C, '                ord => return ord,\n            }\n        }\n        // for', '                ord if idx < 1000 => return ord,\n                _ => (),\n            }\n        }\n        // for')]),
 ('P06', 'bug', 'I cmp not reversed', [(II, 'ord => ord.reverse(),', 'ord => ord,')]),
 ('P06', 'bug', 'I cmp magnitudes', [(II, 'Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),', 'Ordering::Equal if self.is_negative() => ElementCmp::cmp(&other.0, &self.0),\n            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),')]),
 ('P06', 'bug', 'U cmp swapped', [(UI, 'ElementCmp::cmp(&self.0, &other.0)', 'ElementCmp::cmp(&other.0, &self.0)')]),
 ('P06', 'ref', 'cmp while', [(C, 'for idx in (0..len).rev() {', 'let mut idx = len;\n        while idx > 0 {\n            idx -= 1;')]),
 ('P06', 'ref', 'cmp if', [(C, '''            match Ord::cmp(
                &left.get_opt(idx).unwrap_or(zero),
                &right.get_opt(idx).unwrap_or(zero),
            ) {
                Ordering::Equal => (),
                ord => return ord,
            }
        }
        // for''', '''            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            if l < r {
                return Ordering::Less;
            }
            if l > r {
                return Ordering::Greater;
            }
        }
        // for''')]),
 ('P06', 'ref', 'I cmp match', [(II, '''        match self.is_negative().cmp(&other.is_negative()) {
            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
            ord => ord.reverse(),
        }''', '''        match (self.is_negative(), other.is_negative()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => ElementCmp::cmp(&self.0, &other.0),
        }''')]),
]
