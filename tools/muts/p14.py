F="crates/ints/src/big_int.rs"
def B(n,*e): return ('P14','bug',n,list(e))
def R(n,*e): return ('P14','ref',n,list(e))
MUTS=[
 B('negative zero',(F,"if val != 0 && neg {","if neg {")),
 B('invert zero',(F,"        if self.0 == Tag::Inline as usize {\n            return self;\n        }\n","")),
 B('invert flips inline',(F,"TaggedOffset(self.0 ^ 0b1)","TaggedOffset(self.0 ^ 0b11)")),
 B('invert zero wrong',(F,"if self.0 == Tag::Inline as usize {","if self.offset() == 0 {")),
 B('threshold',(F,"val[0] <= (usize::MAX >> 2)","val[0] <= (usize::MAX >> 1)")),
 B('threshold by sign',(F,"val.len() == 1 && val[0] <= (usize::MAX >> 2)","val.len() == 1 && val[0] <= (usize::MAX >> (2 + usize::from(neg)))")),
 B('no shrink',(F,"        let val = IntSlice::shrink(val);\n","")),
 B('inline first limb',(F,"if val.len() == 1 && val[0] <= (usize::MAX >> 2)","if val.len() <= 2 && val[0] <= (usize::MAX >> 2)")),
 B('intern loses sign',(F,"            if neg { Tag::Neg } else { Tag::None },","            { let _ = neg; Tag::None },")),
 B('intern inline tag',(F,"            if neg { Tag::Neg } else { Tag::None },","            if neg { Tag::InlineNeg } else { Tag::None },")),
 B('shift 1',(F,"        self.0 >> 2\n","        self.0 >> 1\n")),
 B('negative tag',(F,"matches!(self, Tag::Neg | Tag::InlineNeg)","matches!(self, Tag::Neg)")),
 B('tag mask',(F,"Self::from_usize_unsafe(val & 0b11)","Self::from_usize_unsafe(val & 0b10)")),
 B('is_zero any sign',(F,"self.0.get() == (0, Tag::Inline)","self.0.offset() == 0")),
 B('is_one',(F,"self.0.get() == (1, Tag::Inline)","self.0.offset() == 1 && self.is_inline()")),
 B('eq by word',(F,"        if self.0 == other.0 {\n            true\n        } else if self.0.tag() == other.0.tag() && !self.0.tag().inline() {\n            Self::with_slices(self, other, |this, other| this == other)\n        } else {\n            false\n        }","        self.0 == other.0")),
 B('eq ignores sign',(F,"} else if self.0.tag() == other.0.tag() && !self.0.tag().inline() {","} else if self.0.tag().inline() == other.0.tag().inline() {")),
 B('eq ignores sign stored',(F,"} else if self.0.tag() == other.0.tag() && !self.0.tag().inline() {","} else if !other.0.tag().inline() && !self.0.tag().inline() {")),
 B('cmp not reversed',(F,"            out.reverse()","            out")),
 B('cmp low first',(F,"                    .zip(other.iter())\n                    .rev()\n","                    .zip(other.iter())\n")),
 B('cmp lengths',(F,"usize::cmp(&this.len(), &other.len())","usize::cmp(&other.len(), &this.len())")),
 B('cmp lengths skipped',(F,"            if this.len() != other.len() {\n                usize::cmp(&this.len(), &other.len())\n            } else {","            {")),
 B('cmp signs',(F,"        } else if self.is_positive() && other.is_negative() {\n            return Ordering::Greater;\n        }","        }")),
 B('partial_cmp',(F,"        Some(Self::cmp(self, other))","        Some(Self::cmp(other, self))")),
 B('is_positive',(F,"        !self.0.tag().negative()","        matches!(self.0.tag(), Tag::None | Tag::Inline | Tag::InlineNeg) && !self.is_zero() || self.is_zero()")),
 R('new_inline nested',(F,"            if val != 0 && neg {\n                Tag::InlineNeg\n            } else {\n                Tag::Inline\n            },","            if val == 0 || !neg {\n                Tag::Inline\n            } else {\n                Tag::InlineNeg\n            },")),
 R('inline by bit',(F,"matches!(self, Tag::Inline | Tag::InlineNeg)","(self as usize) & 0b10 != 0")),
 R('negative by bit',(F,"matches!(self, Tag::Neg | Tag::InlineNeg)","(self as usize) & 1 == 1")),
 R('eq reordered',(F,"        if self.0 == other.0 {\n            true\n        } else if self.0.tag() == other.0.tag() && !self.0.tag().inline() {\n            Self::with_slices(self, other, |this, other| this == other)\n        } else {\n            false\n        }","        self.0 == other.0\n            || (self.is_interned()\n                && other.0.tag() == self.0.tag()\n                && Self::with_slices(self, other, |l, r| r == l))")),
 R('is_zero by word',(F,"self.0.get() == (0, Tag::Inline)","self.is_inline() && self.0.offset() == 0")),
 R('cmp early',(F,"        if self.0 == other.0 {\n            return Ordering::Equal;\n        } else if self.is_negative() && other.is_positive() {\n            return Ordering::Less;\n        } else if self.is_positive() && other.is_negative() {\n            return Ordering::Greater;\n        }","        if self.0 == other.0 {\n            return Ordering::Equal;\n        }\n        match (self.is_negative(), other.is_negative()) {\n            (true, false) => return Ordering::Less,\n            (false, true) => return Ordering::Greater,\n            _ => {}\n        }")),
 R('cmp loop',(F,"""            if this.len() != other.len() {
                usize::cmp(&this.len(), &other.len())
            } else {
                this.iter()
                    .zip(other.iter())
                    .rev()
                    .find_map(|(l, r)| match l.cmp(r) {
                        Ordering::Equal => None,
                        other => Some(other),
                    })
                    .unwrap_or(Ordering::Equal)
            }""","""            if this.len() != other.len() {
                return usize::cmp(&this.len(), &other.len());
            }
            for idx in (0..this.len()).rev() {
                if this[idx] != other[idx] {
                    return this[idx].cmp(&other[idx]);
                }
            }
            Ordering::Equal""")),
 R('new_slice nested',(F,"        if val.len() == 1 && val[0] <= (usize::MAX >> 2) {\n            BigInt::new_inline(val[0], neg)\n        } else {\n            BigInt::new_intern(val, neg)\n        }","        if val.len() != 1 || val[0] > (usize::MAX >> 2) {\n            return BigInt::new_intern(val, neg);\n        }\n        BigInt::new_inline(val[0], neg)")),
 R('val match',(F,"        if self.is_inline() {\n            MaybeInline::Inline(self.0.offset())\n        } else {\n            MaybeInline::Slice(INT_STORE.get(InternId::from_usize(self.0.offset())))\n        }","        let (offset, tag) = self.0.get();\n        match tag {\n            Tag::Inline | Tag::InlineNeg => MaybeInline::Inline(offset),\n            Tag::None | Tag::Neg => MaybeInline::Slice(INT_STORE.get(InternId::from_usize(offset))),\n        }")),
]
