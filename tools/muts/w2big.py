F = 'crates/ints/src/big_int.rs'
M = 'crates/ints/src/big_int/macros.rs'
ADD = '''    let (out, neg) = BigInt::with_slices(self, rhs, |this, other| {
        match (self.is_positive(), rhs.is_positive()) {
            (true, true) | (false, false) => {
                (ElementAdd::add(this, other), self.is_negative())
            }
            (true, _) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, neg)
            }
            (_, true) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, !neg)
            }
        }
    });

    BigInt::new_slice(out, neg)
'''
SUB = '''    let (out, neg) = BigInt::with_slices(self, rhs, |this, other| {
        match (self.is_positive(), rhs.is_positive()) {
            (true, false) | (false, true) => {
                let out = ElementAdd::add(this, other);
                (out, self.is_negative())
            }
            (true, true) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, neg)
            }
            (false, false) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, !neg)
            }
        }
    });

    BigInt::new_slice(out, neg)
'''
MUL = '''    let out = BigInt::with_slices(self, rhs, |this, other| {
        ElementMul::mul(this, other)
    });

    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
'''
DIV = '''    let out = BigInt::with_slices(self, rhs, |this, other| {
        BitwiseDiv::div_long(this, other).0
    });
    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
'''
REM = '''    let out = BigInt::with_slices(self, rhs, |this, other| {
        BitwiseDiv::div_long(this, other).1
    });
    BigInt::new_slice(out, self.is_negative())
'''
SHL = '''    let out = BigInt::with_slices(self, rhs, |this, _| {
        ElementShl::shl(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
    });
    BigInt::new_slice(out, self.is_negative())
'''
CLONE = '''        let (val, tag) = self.0.get();
        if !tag.inline() {
            INT_STORE.incr(InternId::from_usize(val));
        }
        BigInt(self.0)
'''
DROP = '''        let (val, tag) = self.0.get();
        if !tag.inline() {
            INT_STORE.decr(InternId::from_usize(val));
        }
'''
CMP = '''        if self.0 == other.0 {
            return Ordering::Equal;
        } else if self.is_negative() && other.is_positive() {
            return Ordering::Less;
        } else if self.is_positive() && other.is_negative() {
            return Ordering::Greater;
        }

        let out = Self::with_slices(self, other, |this, other| {
            if this.len() != other.len() {
                usize::cmp(&this.len(), &other.len())
            } else {
                this.iter()
                    .zip(other.iter())
                    .rev()
                    .find_map(|(l, r)| match l.cmp(r) {
                        Ordering::Equal => None,
                        other => Some(other),
                    })
                    .unwrap_or(Ordering::Equal)
            }
        });

        if self.is_negative() {
            out.reverse()
        } else {
            out
        }
'''
EQ = '''        if self.0 == other.0 {
            true
        } else if self.0.tag() == other.0.tag() && !self.0.tag().inline() {
            Self::with_slices(self, other, |this, other| this == other)
        } else {
            false
        }
'''
POW = '''        if rhs == 0 {
            BigInt::from(1)
        } else {
            let mut rhs = rhs;
            let mut out = self.clone();
            while rhs > 1 {
                out *= self.clone();
                rhs -= 1;
            }
            out
        }
'''
NEWS = '''        let val = IntSlice::shrink(val);
        if val.len() == 1 && val[0] <= (usize::MAX >> 2) {
            BigInt::new_inline(val[0], neg)
        } else {
            BigInt::new_intern(val, neg)
        }
'''
NEGR = '''        let mut out = self.clone();
        out.0 = out.0.invert_neg();
        out
'''
FROMS = '''                let neg = val.is_negative();
                BigInt::new_slice::<&[usize]>(
                    &int_to_arr::<$unsigned, usize, { arr_size::<$unsigned>() }>(
                        val.unsigned_abs(),
                    ),
                    neg,
                )
'''
TRYS = '''                if bi > &BigInt::from(Self::MAX) {
                    Err(OutOfRangeError::above())
                } else if bi < &BigInt::from(Self::MIN) {
                    Err(OutOfRangeError::below())
                } else {
                    // In range, so the magnitude always fits the unsigned type
                    let val: $unsigned = bi
                        .with_slice(|s| arr_to_int(s))
                        .ok_or_else(|| OutOfRangeError::above())?;
                    let val = val as $signed;
                    Ok(if bi.is_negative() {
                        val.wrapping_neg()
                    } else {
                        val
                    })
                }
'''
TRYU = '''                if bi > &BigInt::from(Self::MAX) {
                    Err(OutOfRangeError::above())
                } else if bi < &BigInt::from(Self::MIN) {
                    Err(OutOfRangeError::below())
                } else {
                    bi.with_slice(|s| arr_to_int(s))
                        .ok_or_else(|| OutOfRangeError::above())
                }
'''
TRUNC = '''                let out = val.with_slice(|s| {
                    s.iter().rev().fold(0 as $unsigned, |acc, &v| {
                        acc.checked_shl(usize::BITS).unwrap_or(0) | v as $unsigned
                    })
                });
                if val.is_negative() {
                    out.wrapping_neg()
                } else {
                    out
                }
'''
SAT = '''                match val.try_into() {
                    Ok(val) => val,
                    Err(OutOfRangeError(Side::Above)) => Self::MAX,
                    Err(OutOfRangeError(Side::Below)) => Self::MIN,
                }
'''
EQS = '''                if self.is_negative() != other.is_negative() {
                    return false;
                }
                let other = other.unsigned_abs();

                self.with_slice(|this| {
                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                    this == IntSlice::shrink(&arr as &[_])
                })
'''
MUTS = [
 # P15
 ('P15', 'ref', 'w2 add nested if', [(F, ADD, '''    let same = self.is_negative() == rhs.is_negative();
    let (out, neg) = BigInt::with_slices(self, rhs, |a, b| {
        if same {
            (ElementAdd::add(a, b), rhs.is_negative())
        } else {
            let (out, below) = ElementSub::sub(a, b);
            (out, below ^ self.is_negative())
        }
    });
    BigInt::new_slice(out, neg)
''')]),
 ('P15', 'ref', 'w2 add early return', [(F, ADD, '''    if self.is_negative() == rhs.is_negative() {
        let out = BigInt::with_slices(self, rhs, |this, other| ElementAdd::add(this, other));
        return BigInt::new_slice(out, self.is_negative());
    }
    let (out, neg) = BigInt::with_slices(self, rhs, |this, other| ElementSub::sub(this, other));
    BigInt::new_slice(out, if self.is_negative() { !neg } else { neg })
''')]),
 ('P15', 'ref', 'w2 add zero shortcut', [(F, ADD, '''    if rhs.is_zero() {
        return self.clone();
    }
    if self.is_zero() {
        return rhs.clone();
    }
''' + ADD)]),
 ('P15', 'ref', 'w2 add sub of neg', [(F, SUB, '''    let (out, neg) = BigInt::with_slices(self, rhs, |this, other| {
        if self.is_positive() == rhs.is_positive() {
            let (out, neg) = if self.is_negative() {
                ElementSub::sub(other, this)
            } else {
                ElementSub::sub(this, other)
            };
            (out, neg)
        } else {
            (ElementAdd::add(other, this), self.is_negative())
        }
    });

    BigInt::new_slice(out, neg)
''')]),
 ('P15', 'bug', 'w2 add zero shortcut wrong', [(F, ADD, '''    if self.is_zero() || rhs.is_zero() {
        return if self.is_zero() { self.clone() } else { rhs.clone() };
    }
''' + ADD)]),
 ('P15', 'bug', 'w2 add inline fast wrong', [(F, ADD, '''    if self.is_inline() && rhs.is_inline() && self.is_positive() && rhs.is_positive() {
        return BigInt::new_inline((self.0.offset() + rhs.0.offset()) & (usize::MAX >> 2), false);
    }
''' + ADD)]),
 ('P15', 'ref', 'w2 add inline fast', [(F, ADD, '''    if self.is_inline() && rhs.is_inline() && self.is_positive() && rhs.is_positive() {
        let sum = self.0.offset() + rhs.0.offset();
        if sum <= usize::MAX >> 2 {
            return BigInt::new_inline(sum, false);
        }
    }
''' + ADD)]),
 ('P15', 'bug', 'w2 mul sign zero', [(F, MUL, '''    let out = BigInt::with_slices(self, rhs, |this, other| {
        ElementMul::mul(this, other)
    });

    let neg = self.is_negative() ^ rhs.is_negative();
    BigInt::new_slice(out, neg && !(self.is_interned() && rhs.is_one()))
''')]),
 ('P15', 'ref', 'w2 mul one', [(F, MUL, '''    if self.is_one() {
        return rhs.clone();
    }
    let neg = self.is_positive() ^ rhs.is_positive();
    let out = BigInt::with_slices(self, rhs, |this, other| ElementMul::mul(other, this));
    BigInt::new_slice(out, neg)
''')]),
 ('P15', 'ref', 'w2 div pair', [(F, DIV, '''    let (quot, _) = BigInt::with_slices(self, rhs, |this, other| BitwiseDiv::div_long(this, other));
    let neg = self.is_negative() ^ rhs.is_negative();
    BigInt::new_slice(quot, neg)
''')]),
 ('P15', 'ref', 'w2 rem small', [(F, REM, '''    let out = BigInt::with_slices(self, rhs, |this, other| {
        let (_, rem) = BitwiseDiv::div_long(this, other);
        rem
    });
    let neg = !self.is_positive();
    BigInt::new_slice(out, neg)
''')]),
 ('P15', 'bug', 'w2 rem euclid', [(F, REM, '''    let out = BigInt::with_slices(self, rhs, |this, other| {
        BitwiseDiv::div_long(this, other).1
    });
    BigInt::new_slice(out, self.is_negative() && !rhs.is_interned())
''')]),
 ('P15', 'ref', 'w2 shl with_slice', [(F, SHL, '''    let amount = usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported");
    let out = self.with_slice(|this| ElementShl::shl(this, amount));
    BigInt::new_slice(out, self.is_negative())
''')]),
 ('P15', 'bug', 'w2 shl sign', [(F, SHL, '''    let amount = usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported");
    let out = self.with_slice(|this| ElementShl::shl(this, amount));
    BigInt::new_slice(out, self.is_negative() && self.is_inline())
''')]),
 ('P15', 'ref', 'w2 pow early', [(F, POW, '''        if rhs == 0 {
            return BigInt::from(1);
        }
        let mut left = rhs;
        let mut out = self.clone();
        while left > 1 {
            out = &out * &self;
            left -= 1;
        }
        out
''')]),
 ('P15', 'ref', 'w2 pow loop', [(F, POW, '''        if rhs == 0 {
            BigInt::one()
        } else {
            let mut rhs = rhs;
            let mut out = self.clone();
            loop {
                if rhs <= 1 {
                    break out;
                }
                out *= &self;
                rhs = rhs - 1;
            }
        }
''')]),
 ('P15', 'bug', 'w2 pow while ge', [(F, 'while rhs > 1 {\n                out *= self.clone();\n                rhs -= 1;', 'while rhs > 1 {\n                out *= self.clone();\n                rhs -= if rhs > 63 { 2 } else { 1 };')]),
 ('P15', 'ref', 'w2 assign take', [(F, 'impl_assign_op!(add(self, rhs) => { *self = &*self + rhs });', 'impl_assign_op!(add(self, rhs) => { *self = mem::take(self) + rhs });')]),
 ('P15', 'ref', 'w2 int ops ref', [(M, 'self $op BigInt::from(other)\n            }', '&self $op &BigInt::from(other)\n            }')]),
 ('P15', 'bug', 'w2 int assign swap', [(M, '*self = &*self $op BigInt::from(other);', '*self = if self.is_zero() { BigInt::from(other) } else { &*self $op BigInt::from(other) };')]),
 # P14
 ('P14', 'ref', 'w2 cmp tuple', [(F, CMP, '''        match (self.is_negative(), other.is_negative()) {
            (true, false) => return Ordering::Less,
            (false, true) => return Ordering::Greater,
            _ => {}
        }
        let out = Self::with_slices(self, other, |this, other| {
            this.len().cmp(&other.len()).then_with(|| {
                for (l, r) in this.iter().zip(other).rev() {
                    if l != r {
                        return l.cmp(r);
                    }
                }
                Ordering::Equal
            })
        });
        if self.is_negative() { out.reverse() } else { out }
''')]),
 ('P14', 'ref', 'w2 cmp iter rev cmp', [(F, CMP, '''        if self.is_negative() != other.is_negative() {
            return if self.is_negative() { Ordering::Less } else { Ordering::Greater };
        }
        let magnitude = Self::with_slices(self, other, |this, other| {
            if this.len() == other.len() {
                this.iter().rev().cmp(other.iter().rev())
            } else {
                this.len().cmp(&other.len())
            }
        });
        match self.is_negative() {
            true => magnitude.reverse(),
            false => magnitude,
        }
''')]),
 ('P14', 'ref', 'w2 cmp swap', [(F, '''        if self.is_negative() {
            out.reverse()
        } else {
            out
        }
    }
}

#[derive(Debug)]
enum Side''', '''        match self.0.tag() {
            Tag::Neg | Tag::InlineNeg => out.reverse(),
            Tag::None | Tag::Inline => out,
        }
    }
}

#[derive(Debug)]
enum Side''')]),
 ('P14', 'bug', 'w2 cmp top only', [(F, CMP, '''        if self.is_negative() != other.is_negative() {
            return if self.is_negative() { Ordering::Less } else { Ordering::Greater };
        }
        let magnitude = Self::with_slices(self, other, |this, other| {
            if this.len() == other.len() {
                this.iter().rev().take(4).cmp(other.iter().rev().take(4))
            } else {
                this.len().cmp(&other.len())
            }
        });
        match self.is_negative() {
            true => magnitude.reverse(),
            false => magnitude,
        }
''')]),
 ('P14', 'bug', 'w2 cmp lexi', [(F, CMP, '''        if self.is_negative() != other.is_negative() {
            return if self.is_negative() { Ordering::Less } else { Ordering::Greater };
        }
        let magnitude = Self::with_slices(self, other, |this, other| {
            this.iter().rev().cmp(other.iter().rev())
        });
        match self.is_negative() {
            true => magnitude.reverse(),
            false => magnitude,
        }
''')]),
 ('P14', 'ref', 'w2 eq short', [(F, EQ, '''        self.0 == other.0
            || (self.0.tag() == other.0.tag()
                && self.is_interned()
                && Self::with_slices(self, other, |this, other| this == other))
''')]),
 ('P14', 'ref', 'w2 eq slices always', [(F, EQ, '''        self.is_negative() == other.is_negative() && Self::with_slices(self, other, |a, b| a == b)
''')]),
 ('P14', 'ref', 'w2 eq loop', [(F, EQ, '''        if self.is_negative() != other.is_negative() {
            return false;
        }
        Self::with_slices(self, other, |a, b| {
            if a.len() != b.len() {
                return false;
            }
            for i in 0..a.len() {
                if a[i] != b[i] {
                    return false;
                }
            }
            true
        })
''')]),
 ('P14', 'bug', 'w2 eq prefix', [(F, EQ, '''        if self.is_negative() != other.is_negative() {
            return false;
        }
        Self::with_slices(self, other, |a, b| {
            a.iter().zip(b.iter()).all(|(x, y)| x == y)
        })
''')]),
 ('P14', 'ref', 'w2 new_slice match', [(F, NEWS, '''        const LIMIT: usize = usize::MAX >> 2;
        let val = IntSlice::shrink(val);
        match val.borrow() {
            [single] if *single <= LIMIT => BigInt::new_inline(*single, neg),
            _ => BigInt::new_intern(val, neg),
        }
''')]),
 ('P14', 'ref', 'w2 new_slice fits', [(F, NEWS, '''        let val = IntSlice::shrink(val);
        let fits = val.len() == 1 && val[0] >> (usize::BITS - 2) == 0;
        if !fits {
            return BigInt::new_intern(val, neg);
        }
        BigInt::new_inline(val[0], neg)
''')]),
 ('P14', 'bug', 'w2 new_slice fits wrong', [(F, NEWS, '''        let val = IntSlice::shrink(val);
        let fits = val.len() == 1 && val[0] >> (usize::BITS - 2) <= usize::from(neg);
        if !fits {
            return BigInt::new_intern(val, neg);
        }
        BigInt::new_inline(val[0] & (usize::MAX >> 2), neg)
''')]),
 ('P14', 'ref', 'w2 invert match', [(F, '''        if self.0 == Tag::Inline as usize {
            return self;
        }
        TaggedOffset(self.0 ^ 0b1)''', '''        let (offset, tag) = self.get();
        let flipped = match tag {
            Tag::None => Tag::Neg,
            Tag::Neg => Tag::None,
            Tag::Inline if offset == 0 => Tag::Inline,
            Tag::Inline => Tag::InlineNeg,
            Tag::InlineNeg => Tag::Inline,
        };
        TaggedOffset::new(offset, flipped)''')]),
 ('P14', 'ref', 'w2 new_inline if', [(F, '''        BigInt(TaggedOffset::new(
            val,
            if val != 0 && neg {
                Tag::InlineNeg
            } else {
                Tag::Inline
            },
        ))
''', '''        let tag = if !neg || val == 0 { Tag::Inline } else { Tag::InlineNeg };
        BigInt(TaggedOffset::new(val, tag))
''')]),
 # P13
 ('P13', 'ref', 'w2 clone interned', [(F, CLONE, '''        if self.is_interned() {
            INT_STORE.incr(InternId::from_usize(self.0.offset()));
        }
        BigInt(self.0)
''')]),
 ('P13', 'ref', 'w2 clone match', [(F, CLONE, '''        match self.0.tag() {
            Tag::Inline | Tag::InlineNeg => {}
            Tag::None | Tag::Neg => INT_STORE.incr(InternId::from_usize(self.0.offset())),
        }
        BigInt(self.0)
''')]),
 ('P13', 'ref', 'w2 clone helper', [(F, CLONE, '''        if let Some(id) = self.id() {
            INT_STORE.incr(id);
        }
        BigInt(self.0)
'''), (F, DROP, '''        if let Some(id) = self.id() {
            INT_STORE.decr(id);
        }
'''), (F, '''    #[inline]
    fn val(&self) -> MaybeInline<'_> {''', '''    fn id(&self) -> Option<InternId> {
        if self.is_inline() {
            None
        } else {
            Some(InternId::from_usize(self.0.offset()))
        }
    }

    #[inline]
    fn val(&self) -> MaybeInline<'_> {''')]),
 ('P13', 'bug', 'w2 clone neg', [(F, CLONE, '''        match self.0.tag() {
            Tag::None => INT_STORE.incr(InternId::from_usize(self.0.offset())),
            Tag::Neg | Tag::Inline | Tag::InlineNeg => {}
        }
        BigInt(self.0)
''')]),
 ('P13', 'ref', 'w2 neg ref clone', [(F, NEGR, '''        -self.clone()
''')]),
 ('P13', 'bug', 'w2 neg ref copy', [(F, NEGR, '''        if self.is_interned() && self.is_negative() {
            return BigInt(self.0.invert_neg());
        }
        let mut out = self.clone();
        out.0 = out.0.invert_neg();
        out
''')]),
 ('P13', 'ref', 'w2 neg val', [(F, '''        self.0 = self.0.invert_neg();
        self
''', '''        let flipped = self.0.invert_neg();
        let _ = mem::replace(&mut self.0, flipped);
        self
''')]),
 ('P13', 'bug', 'w2 neg val double', [(F, '''        self.0 = self.0.invert_neg();
        self
''', '''        let out = BigInt(self.0.invert_neg());
        self.0 = out.0;
        out
''')]),
 ('P13', 'ref', 'w2 drop early', [(F, DROP, '''        if self.is_inline() {
            return;
        }
        let id = InternId::from_usize(self.0.offset());
        INT_STORE.decr(id);
''')]),
 # P16
 ('P16', 'ref', 'w2 from match', [(M, FROMS, '''                let magnitude = int_to_arr::<$unsigned, usize, { arr_size::<$unsigned>() }>(val.unsigned_abs());
                let limbs: &[usize] = &magnitude;
                BigInt::new_slice(limbs, val < 0)
''')]),
 ('P16', 'bug', 'w2 from abs', [(M, FROMS, '''                let neg = val.is_negative();
                BigInt::new_slice::<&[usize]>(
                    &int_to_arr::<$unsigned, usize, { arr_size::<$unsigned>() }>(
                        val.checked_abs().unwrap_or(<$signed>::MAX) as $unsigned,
                    ),
                    neg,
                )
''')]),
 ('P16', 'ref', 'w2 try let', [(M, TRYS, '''                let (max, min) = (BigInt::from(Self::MAX), BigInt::from(Self::MIN));
                if *bi < min {
                    return Err(OutOfRangeError::below());
                }
                if *bi > max {
                    return Err(OutOfRangeError::above());
                }
                let magnitude: Option<$unsigned> = bi.with_slice(|s| arr_to_int(s));
                match magnitude {
                    None => Err(OutOfRangeError::above()),
                    Some(m) if bi.is_negative() => Ok((m as $signed).wrapping_neg()),
                    Some(m) => Ok(m as $signed),
                }
''')]),
 ('P16', 'ref', 'w2 try magnitude', [(M, TRYS, '''                if bi > &BigInt::from(Self::MAX) {
                    Err(OutOfRangeError::above())
                } else if bi < &BigInt::from(Self::MIN) {
                    Err(OutOfRangeError::below())
                } else {
                    let val: $unsigned = bi
                        .with_slice(|s| arr_to_int(s))
                        .ok_or_else(|| OutOfRangeError::above())?;
                    Ok(if bi.is_negative() {
                        val.wrapping_neg() as $signed
                    } else {
                        val as $signed
                    })
                }
''')]),
 ('P16', 'bug', 'w2 try min', [(M, TRYS, '''                if bi > &BigInt::from(Self::MAX) {
                    Err(OutOfRangeError::above())
                } else if bi <= &BigInt::from(Self::MIN) {
                    Err(OutOfRangeError::below())
                } else {
                    let val: $unsigned = bi
                        .with_slice(|s| arr_to_int(s))
                        .ok_or_else(|| OutOfRangeError::above())?;
                    Ok(if bi.is_negative() {
                        val.wrapping_neg() as $signed
                    } else {
                        val as $signed
                    })
                }
''')]),
 ('P16', 'ref', 'w2 tryu sign', [(M, TRYU, '''                if bi.is_negative() {
                    return Err(OutOfRangeError::below());
                }
                if bi > &BigInt::from(Self::MAX) {
                    return Err(OutOfRangeError::above());
                }
                bi.with_slice(|s| arr_to_int(s)).ok_or_else(OutOfRangeError::above)
''')]),
 ('P16', 'bug', 'w2 tryu side', [(M, TRYU, '''                if bi > &BigInt::from(Self::MAX) {
                    Err(OutOfRangeError::above())
                } else if bi < &BigInt::from(Self::MIN) {
                    Err(if bi.is_interned() { OutOfRangeError::above() } else { OutOfRangeError::below() })
                } else {
                    bi.with_slice(|s| arr_to_int(s))
                        .ok_or_else(|| OutOfRangeError::above())
                }
''')]),
 ('P16', 'ref', 'w2 trunc for', [(M, TRUNC, '''                let mut out: $unsigned = 0;
                val.with_slice(|s| {
                    for &limb in s.iter().rev() {
                        out = out.checked_shl(usize::BITS).unwrap_or(0);
                        out |= limb as $unsigned;
                    }
                });
                if val.is_positive() { out } else { out.wrapping_neg() }
''')]),
 ('P16', 'bug', 'w2 trunc not', [(M, TRUNC, '''                let out = val.with_slice(|s| {
                    s.iter().rev().fold(0 as $unsigned, |acc, &v| {
                        acc.checked_shl(usize::BITS).unwrap_or(0) | v as $unsigned
                    })
                });
                if val.is_negative() && out != 0 {
                    !out
                } else {
                    out
                }
''')]),
 ('P16', 'ref', 'w2 sat if let', [(M, SAT, '''                match <Self as TryFrom<BigInt>>::try_from(val) {
                    Ok(val) => val,
                    Err(e) => match e.0 {
                        Side::Above => Self::MAX,
                        Side::Below => Self::MIN,
                    },
                }
''')]),
 ('P16', 'ref', 'w2 eqs cmp', [(M, EQS, '''                if other.is_negative() && !self.is_negative() || self.is_negative() && !other.is_negative() {
                    return false;
                }
                let arr = int_to_arr::<$unsigned, usize, { arr_size::<$unsigned>() }>(other.unsigned_abs());
                let limbs = IntSlice::shrink(&arr as &[usize]);
                self.with_slice(|this| this == limbs)
''')]),
 ('P16', 'bug', 'w2 eqs first', [(M, EQS, '''                if self.is_negative() != other.is_negative() {
                    return false;
                }
                let other = other.unsigned_abs();
                self.with_slice(|this| this[0] == other as usize)
''')]),
]
