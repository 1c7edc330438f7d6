A = 'crates/bits/src/algos/element/add.rs'
S = 'crates/bits/src/algos/element/sub.rs'
M = 'crates/bits/src/algos/element/mul.rs'
D = 'crates/bits/src/algos/element/div.rs'
L = 'crates/bits/src/algos/element/shl.rs'
R = 'crates/bits/src/algos/element/shr.rs'
C = 'crates/bits/src/algos/element/cmp.rs'
O = 'crates/bits/src/algos/element/bitor.rs'
U = 'crates/bits/src/utils.rs'
B = 'crates/bits/src/bit_slice.rs'
ADD = '''        for idx in 0..=len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);

            let (res, new_carry) = l.overflowing_add(if carry { one } else { zero });
            carry = new_carry;

            let (res, new_carry) = res.overflowing_add(r);
            if new_carry {
                carry = true;
            }

            out.set_ignore(idx, res);
        }
'''
ADDO = '''            let (res, new_carry) = l.overflowing_add(if carry { one } else { zero });
            carry = new_carry;

            let (res, new_carry) = res.overflowing_add(r);
            // As of Rust 1.86 nightly, this is faster than `carry |= new_carry`
            if new_carry {
                carry = true;
            }

            if left.set_opt(idx, res).is_none() && res != zero {
                overflow = true;
            }
'''
SUB = '''            let extra = if carry {
                carry = false;
                one
            } else {
                zero
            };

            let (res, new_carry) = l.overflowing_sub(r);
            if new_carry {
                carry = true;
            }

            let (res, new_carry) = res.overflowing_sub(extra);
            if new_carry {
                carry = true;
            }
'''
MUL = '''        left.slice().iter().enumerate().for_each(|(idx, &l)| {
            let mut carry = zero;

            for (offset, &r) in right.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                carry = high;
                out.add_item(idx + offset, low);
            }

            if carry != zero {
                out.add_item(idx + right.slice().len(), carry);
            }
        });
'''
CMP = '''        for idx in (0..len).rev() {
            match Ord::cmp(
                &left.get_opt(idx).unwrap_or(zero),
                &right.get_opt(idx).unwrap_or(zero),
            ) {
                Ordering::Equal => (),
                ord => return ord,
            }
        }
'''
SHLB = '''        left.slice()
            .iter()
            .enumerate()
            .rev()
            .for_each(|(idx, &val)| {
                let high = val >> inverse_elem_shift;
                let low = val << elem_shift;

                let high = (out.get_opt(idx + arr_shift).unwrap_or(zero) & !elem_mask)
                    | (high & elem_mask);

                out.set_ignore(idx + arr_shift, high);

                // We don't need to consider the existing value of the output. `low` always goes
                // into it before `high` since we're iterating backwards.
                let low = low & !elem_mask;

                out.set_ignore(idx + arr_shift - 1, low);
            });
'''
MUTS = [
 ('P04', 'ref', 'w2 add last peeled', [(A, ADD, ADD.replace('0..=len', '0..len') + '''        if carry {
            out.set_ignore(len, one);
        }
''')]),
 ('P04', 'ref', 'w2 add or-carry', [(A, ADD, '''        for idx in 0..=len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            let extra = if carry { one } else { zero };

            let (partial, first) = l.overflowing_add(r);
            let (total, second) = partial.overflowing_add(extra);
            carry = first || second;

            out.set_ignore(idx, total);
        }
''')]),
 ('P04', 'ref', 'w2 add push', [(A, 'let mut out = vec![zero; len + 1];', 'let mut out = Vec::with_capacity(len + 1);'), (A, ADD, ADD.replace('out.set_ignore(idx, res);', 'out.push(res);'))]),
 ('P04', 'ref', 'w2 add push peeled', [(A, 'let mut out = vec![zero; len + 1];', 'let mut out = Vec::with_capacity(len + 1);'), (A, ADD, ADD.replace('0..=len', '0..len').replace('out.set_ignore(idx, res);', 'out.push(res);') + '        out.push(if carry { one } else { zero });\n')]),
 ('P04', 'ref', 'w2 add collect', [(A, 'let mut out = vec![zero; len + 1];\n', ''), (A, ADD, '''        let out: Vec<Self::Bit> = (0..=len).map(|idx| {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            let (res, c1) = l.overflowing_add(if carry { one } else { zero });
            let (res, c2) = res.overflowing_add(r);
            carry = c1 | c2;
            res
        }).collect();
''')]),
 ('P04', 'ref', 'w2 add iter_mut', [(A, ADD, ADD.replace('for idx in 0..=len {', 'for (idx, slot) in out.iter_mut().enumerate() {').replace('out.set_ignore(idx, res);', '*slot = res;'))]),
 ('P04', 'ref', 'w2 add index', [(A, ADD, ADD.replace('out.set_ignore(idx, res);', 'out[idx] = res;'))]),
 ('P04', 'ref', 'w2 add swap longer', [(A, '''        let len = usize::max(left.len(), right.len());
        let zero = Self::Bit::zero();
        let one = Self::Bit::one();
        let mut out''', '''        let len = if left.len() < right.len() { right.len() } else { left.len() };
        let zero = Self::Bit::zero();
        let one = Self::Bit::one();
        let mut out''')]),
 ('P04', 'ref', 'w2 add two loops', [(A, ADD, '''        let both = usize::min(left.len(), right.len());
        let mut idx = 0;
        while idx < both {
            let (res, c1) = left.get(idx).overflowing_add(if carry { one } else { zero });
            let (res, c2) = res.overflowing_add(right.get(idx));
            carry = c1 || c2;
            out[idx] = res;
            idx += 1;
        }
        while idx < len {
            let v = if idx < left.len() { left.get(idx) } else { right.get(idx) };
            let (res, c1) = v.overflowing_add(if carry { one } else { zero });
            carry = c1;
            out[idx] = res;
            idx += 1;
        }
        if carry {
            out[len] = one;
        }
''')]),
 ('P04', 'bug', 'w2 add two loops drop', [(A, ADD, '''        let both = usize::min(left.len(), right.len());
        let mut idx = 0;
        while idx < both {
            let (res, c1) = left.get(idx).overflowing_add(if carry { one } else { zero });
            let (res, c2) = res.overflowing_add(right.get(idx));
            carry = c1 || c2;
            out[idx] = res;
            idx += 1;
        }
        while idx < len {
            let v = if idx < left.len() { left.get(idx) } else { right.get(idx) };
            let (res, _) = v.overflowing_add(if carry { one } else { zero });
            carry = false;
            out[idx] = res;
            idx += 1;
        }
        if carry {
            out[len] = one;
        }
''')]),
 ('P04', 'bug', 'w2 add no top', [(A, ADD, ADD.replace('0..=len', '0..len'))]),
 ('P04', 'bug', 'w2 add xor carry', [(A, ADD, ADD.replace('carry = true;', 'carry = !carry;').replace('let (res, new_carry) = res.overflowing_add(r);\n            if new_carry', 'let (res, new_carry) = res.overflowing_add(r);\n            if new_carry || l == zero && r == !zero'))]),
 ('P04', 'ref', 'w2 addov helper flag', [(A, ADDO, '''            let (res, c1) = l.overflowing_add(r);
            let (res, c2) = res.overflowing_add(if carry { one } else { zero });
            carry = c1 | c2;

            match left.set_opt(idx, res) {
                Some(_) => {}
                None => overflow |= res != zero,
            }
''')]),
 ('P04', 'ref', 'w2 addov bounds', [(A, ADDO, ADDO.replace('''            if left.set_opt(idx, res).is_none() && res != zero {
                overflow = true;
            }
''', '''            if idx < left.len() {
                left.set(idx, res);
            } else if res != zero {
                overflow = true;
            }
'''))]),
 ('P04', 'bug', 'w2 addov eq', [(A, ADDO, ADDO.replace('res != zero', 'r != zero && l != zero'))]),
 ('P04', 'bug', 'w2 addov overflow assigned', [(A, ADDO, ADDO.replace('''            if left.set_opt(idx, res).is_none() && res != zero {
                overflow = true;
            }
''', '''            overflow = left.set_opt(idx, res).is_none() && res != zero;
'''))]),
 ('P04', 'ref', 'w2 checked match', [(A, '''        let (out, carry) = ElementAdd::add_overflowing(left, right);
        if carry {
            None
        } else {
            Some(out)
        }''', '''        match ElementAdd::add_overflowing(left, right) {
            (out, false) => Some(out),
            (_, true) => None,
        }''')]),
 ('P04', 'ref', 'w2 checked then', [(S, '''        let (out, carry) = ElementSub::sub_overflowing(left, right);
        if carry {
            None
        } else {
            Some(out)
        }''', '''        let (out, carry) = ElementSub::sub_overflowing(left, right);
        (!carry).then_some(out)''')]),
 ('P04', 'ref', 'w2 sub or', [(S, SUB, '''            let extra = if carry { one } else { zero };
            let (res, b1) = l.overflowing_sub(r);
            let (res, b2) = res.overflowing_sub(extra);
            carry = b1 || b2;
''', 0)]),
 ('P04', 'ref', 'w2 sub match', [(S, SUB, '''            let (res, borrow) = match (carry, l.overflowing_sub(r)) {
                (false, out) => out,
                (true, (part, first)) => {
                    let (part, second) = part.overflowing_sub(one);
                    (part, first | second)
                }
            };
            carry = borrow;
''', 0)]),
 ('P04', 'ref', 'w2 sub negate inline', [(S, '''            ElementNot::not(&mut out);
            out.add_item(0, one);
''', '''            for v in out.iter_mut() {
                *v = !*v;
            }
            out.add_item(0, one);
''')]),
 ('P04', 'ref', 'w2 sub early', [(S, '''        if carry {
            ElementNot::not(&mut out);
            out.add_item(0, one);
        }

        (IntSlice::shrink(out), carry)''', '''        if !carry {
            return (IntSlice::shrink(out), false);
        }
        ElementNot::not(&mut out);
        out.add_item(0, one);
        (IntSlice::shrink(out), true)''')]),
 ('P04', 'bug', 'w2 sub swapped operands', [(S, '''        if carry {
            ElementNot::not(&mut out);
            out.add_item(0, one);
        }

        (IntSlice::shrink(out), carry)''', '''        if carry {
            // negate: two's complement
            out.add_item(0, zero.overflowing_sub(one).0);
            let _ = one;
            ElementNot::not(&mut out);
        }

        (IntSlice::shrink(out), carry)''') ]),
 ('P04', 'bug', 'w2 sub negate no carry', [(S, '            out.add_item(0, one);\n', '            out[0] = out[0].overflowing_add_one_hack();\n'.replace('out[0].overflowing_add_one_hack()', 'out[0].overflowing_sub(!zero).0'))]),
 ('P04', 'ref', 'w2 sub borrow keep', [(S, SUB, SUB.replace('                carry = false;\n', '                carry = l == zero;\n'), 1)]),
 ('P04', 'bug', 'w2 subov len', [(S, '''        let len = usize::max(left.len(), right.len());
        let zero = Self::Bit::zero();
        let one = Self::Bit::one();

        let mut carry = false;

''', '''        let len = left.len();
        let zero = Self::Bit::zero();
        let one = Self::Bit::one();

        let mut carry = false;

''')]),
 ('P04', 'bug', 'w2 subov early', [(S, '            left.set_ignore(idx, res);\n', '            left.set_ignore(idx, res);\n            if !carry && idx + 1 >= left.len() { break; }\n')]),
 # P05
 ('P05', 'ref', 'w2 mul skip zero', [(M, MUL, MUL.replace('            let mut carry = zero;\n', '            if l == zero {\n                return;\n            }\n            let mut carry = zero;\n'))]),
 ('P05', 'ref', 'w2 mul inline carry', [(M, MUL, '''        for (idx, &l) in left.slice().iter().enumerate() {
            let mut carry = zero;
            for (offset, &r) in right.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                let (sum, over) = out[idx + offset].overflowing_add(low);
                out[idx + offset] = sum;
                carry = if over { high.overflowing_add(Self::Bit::one()).0 } else { high };
            }
            out[idx + right.slice().len()] = carry;
        }
''')]),
 ('P05', 'ref', 'w2 mul inline or', [(M, MUL, '''        for (idx, &l) in left.slice().iter().enumerate() {
            let mut carry = zero;
            for (offset, &r) in right.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                let (sum, over) = out[idx + offset].overflowing_add(low);
                out[idx + offset] = sum;
                carry = if over && high != !zero { high.overflowing_add(Self::Bit::one()).0 } else { high };
            }
            if carry != zero {
                out[idx + right.slice().len()] = carry | out[idx + right.slice().len()] ;
            }
        }
''')]),
 ('P05', 'ref', 'w2 mul swap loops', [(M, MUL, '''        right.slice().iter().enumerate().for_each(|(idx, &r)| {
            let mut carry = zero;

            for (offset, &l) in left.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                carry = high;
                out.add_item(idx + offset, low);
            }

            if carry != zero {
                out.add_item(idx + left.slice().len(), carry);
            }
        });
''')]),
 ('P05', 'bug', 'w2 mul carry cond', [(M, MUL, MUL.replace('if carry != zero {', 'if carry != zero && idx + right.slice().len() + 1 < out.len() {'))]),
 ('P05', 'bug', 'w2 mul carry set', [(M, MUL, MUL.replace('out.add_item(idx + right.slice().len(), carry);', 'out.set_ignore(idx + right.slice().len(), carry);').replace('out.add_item(idx + offset, low);', 'if out.add_item(idx + offset, low) { carry = zero; }'))]),
 # P06
 ('P06', 'ref', 'w2 cmp ne', [(C, CMP, '''        for idx in (0..len).rev() {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            if l != r {
                return l.cmp(&r);
            }
        }
''')]),
 ('P06', 'ref', 'w2 cmp lt gt', [(C, CMP, '''        for idx in (0..len).rev() {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            if l < r {
                return Ordering::Less;
            }
            if l > r {
                return Ordering::Greater;
            }
        }
''')]),
 ('P06', 'ref', 'w2 cmp keep last', [(C, CMP + '''        // for (l, r) in iter {
        //     match Ord::cmp(l, r) {
        //         Ordering::Equal => (),
        //         ord => return ord,
        //     }
        // }
        Ordering::Equal
''', '''        let mut out = Ordering::Equal;
        for idx in 0..len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            out = l.cmp(&r).then(out);
        }
        out
''')]),
 ('P06', 'ref', 'w2 cmp keep last match', [(C, CMP + '''        // for (l, r) in iter {
        //     match Ord::cmp(l, r) {
        //         Ordering::Equal => (),
        //         ord => return ord,
        //     }
        // }
        Ordering::Equal
''', '''        let mut out = Ordering::Equal;
        for idx in 0..len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            match Ord::cmp(&l, &r) {
                Ordering::Equal => {}
                other => out = other,
            }
        }
        out
''')]),
 ('P06', 'bug', 'w2 cmp keep first', [(C, CMP + '''        // for (l, r) in iter {
        //     match Ord::cmp(l, r) {
        //         Ordering::Equal => (),
        //         ord => return ord,
        //     }
        // }
        Ordering::Equal
''', '''        let mut out = Ordering::Equal;
        for idx in 0..len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);
            out = out.then(l.cmp(&r));
        }
        out
''')]),
 ('P06', 'bug', 'w2 cmp lens', [(C, CMP, '''        if left.len() != right.len() && left.len() > 8 {
            return left.len().cmp(&right.len());
        }
''' + CMP)]),
 ('P06', 'ref', 'w2 cmp find', [(C, CMP, '''        if let Some(ord) = (0..len)
            .rev()
            .map(|idx| Ord::cmp(&left.get_opt(idx).unwrap_or(zero), &right.get_opt(idx).unwrap_or(zero)))
            .find(|o| o.is_ne())
        {
            return ord;
        }
''')]),
 ('P06', 'ref', 'w2 cmp longer first', [(C, CMP, '''        let both = usize::min(left.len(), right.len());
        for idx in (both..len).rev() {
            if left.get_opt(idx).unwrap_or(zero) != zero {
                return Ordering::Greater;
            }
            if right.get_opt(idx).unwrap_or(zero) != zero {
                return Ordering::Less;
            }
        }
        for idx in (0..both).rev() {
            match Ord::cmp(&left.get(idx), &right.get(idx)) {
                Ordering::Equal => (),
                ord => return ord,
            }
        }
''')]),
 # P09
 ('P09', 'ref', 'w2 shl for', [(L, SHLB, '''        for (idx, &val) in left.slice().iter().enumerate().rev() {
            let high = (val >> inverse_elem_shift) & elem_mask;
            let low = (val << elem_shift) & !elem_mask;

            let old = out.get_opt(idx + arr_shift).unwrap_or(zero);
            out.set_ignore(idx + arr_shift, (old & !elem_mask) | high);
            out.set_ignore(idx + arr_shift - 1, low);
        }
''')]),
 ('P09', 'ref', 'w2 shl forward or', [(L, SHLB, '''        for (idx, &val) in left.slice().iter().enumerate() {
            let high = (val >> inverse_elem_shift) & elem_mask;
            let low = (val << elem_shift) & !elem_mask;
            out[idx + arr_shift - 1] |= low;
            out[idx + arr_shift] = high;
        }
''')]),
 ('P09', 'ref', 'w2 shl pull', [(L, SHLB, '''        for idx in 0..out.len() {
            let low = (idx + 1).checked_sub(arr_shift).and_then(|i| left.get_opt(i)).unwrap_or(zero);
            let high = idx.checked_sub(arr_shift).and_then(|i| left.get_opt(i)).unwrap_or(zero);
            out[idx] = ((low << elem_shift) & !elem_mask) | ((high >> inverse_elem_shift) & elem_mask);
        }
''')]),
 ('P09', 'ref', 'w2 shl limbs only', [(L, '''        let zero = Self::Bit::zero();
        let mut out = vec![Self::Bit::zero(); left.len() + arr_shift];
''', '''        let zero = Self::Bit::zero();
        let mut out = vec![Self::Bit::zero(); left.len() + arr_shift];
        debug_assert!(out.len() > left.len());
''')]),
 ('P09', 'bug', 'w2 shl forward set', [(L, SHLB, '''        for (idx, &val) in left.slice().iter().enumerate() {
            let high = (val >> inverse_elem_shift) & elem_mask;
            let low = (val << elem_shift) & !elem_mask;
            out[idx + arr_shift - 1] = low;
            out[idx + arr_shift] = high;
        }
''')]),
 ('P09', 'bug', 'w2 shl inverse', [(L, '(Self::Bit::BIT_LEN - elem_shift) % Self::Bit::BIT_LEN;', '(Self::Bit::BIT_LEN - elem_shift - usize::from(elem_shift > 60)) % Self::Bit::BIT_LEN;', 1)]),
 ('P09', 'ref', 'w2 bitor collect', [(O, '''        let mut out = vec![zero; len];

        for idx in 0..len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);

            out.set(idx, l | r);
        }

        out''', '''        let _ = vec![zero; 0];
        (0..len)
            .map(|idx| left.get_opt(idx).unwrap_or(zero) | right.get_opt(idx).unwrap_or(zero))
            .collect()''')]),
 ('P09', 'ref', 'w2 bitor push', [(O, '''        let mut out = vec![zero; len];

        for idx in 0..len {
            let l = left.get_opt(idx).unwrap_or(zero);
            let r = right.get_opt(idx).unwrap_or(zero);

            out.set(idx, l | r);
        }

        out''', '''        let _ = vec![zero; 0];
        let mut out = Vec::new();
        for idx in 0..len {
            let mut item = zero;
            if let Some(l) = left.get_opt(idx) {
                item |= l;
            }
            if let Some(r) = right.get_opt(idx) {
                item |= r;
            }
            out.push(item);
        }

        out''')]),
 ('P09', 'bug', 'w2 bitor short', [(O, '''            out.set(idx, l | r);''', '''            out.set(idx, if idx < left.len() && idx < right.len() { l | r } else { l });''')]),
 # P08 utils
 ('P08', 'ref', 'w2 shrink let else', [(U, '''        let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
        alloc::vec::Vec::truncate(&mut self, idx + 1);
        self''', '''        let keep = match self.iter().rposition(|val| *val != T::zero()) {
            Some(last) => last + 1,
            None => 1,
        };
        alloc::vec::Vec::truncate(&mut self, keep);
        self''')]),
 ('P08', 'ref', 'w2 shrink pop', [(U, '''        let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
        alloc::vec::Vec::truncate(&mut self, idx + 1);
        self''', '''        while self.len() > 1 && self[self.len() - 1] == T::zero() {
            self.pop();
        }
        self''')]),
 ('P08', 'ref', 'w2 shrink last', [(U, '''        let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
        alloc::vec::Vec::truncate(&mut self, idx + 1);
        self''', '''        while self.len() > 1 {
            if let Some(last) = self.last() {
                if *last != T::zero() {
                    break;
                }
            }
            self.pop();
        }
        self''')]),
 ('P08', 'bug', 'w2 shrink pop one', [(U, '''        let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
        alloc::vec::Vec::truncate(&mut self, idx + 1);
        self''', '''        while self.len() > 2 && self[self.len() - 1] == T::zero() {
            self.pop();
        }
        self''')]),
 ('P08', 'bug', 'w2 shrink position', [(U, 'let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);\n        alloc', 'let idx = self.iter().skip(1).position(|val| *val == T::zero()).unwrap_or(self.len().max(1) - 1);\n        alloc')]),
 ('P16', 'ref', 'w2 arr_to_int for', [(U, '''    for (idx, &i) in arr.iter().enumerate() {
        let t = U::from_checked(i)?;
        out += t.checked_shl(idx * bit_len)?;
    }''', '''    let mut shift = 0;
    for &i in arr {
        let t = U::from_checked(i)?;
        out += t.checked_shl(shift)?;
        shift += bit_len;
    }''')]),
]
