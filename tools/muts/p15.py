F="crates/ints/src/big_int.rs"
M="crates/ints/src/big_int/macros.rs"
def B(n,*e): return ('P15','bug',n,list(e))
def R(n,*e): return ('P15','ref',n,list(e))
A="""            (true, _) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, neg)
            }
            (_, true) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, !neg)
            }
"""
S="""            (true, true) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, neg)
            }
            (false, false) => {
                let (out, neg) = ElementSub::sub(this, other);
                (out, !neg)
            }
"""
MUTS=[
 B('add neg+pos sign',(F,A,A.replace("(out, !neg)","(out, neg)"))),
 B('add pos+neg sign',(F,A,A.replace("                (out, neg)\n","                (out, !neg)\n"))),
 B('add both neg',(F,"                (ElementAdd::add(this, other), self.is_negative())","                (ElementAdd::add(this, other), false)")),
 B('add treats mixed as same',(F,"            (true, true) | (false, false) => {\n                (ElementAdd","            (true, true) | (false, false) | (false, true) => {\n                (ElementAdd"),(F,"            (_, true) => {\n                let (out, neg) = ElementSub::sub(this, other);\n                (out, !neg)\n            }\n","")),
 B('sub both neg',(F,S,S.replace("(out, !neg)","(out, neg)"))),
 B('sub mixed sign',(F,"                let out = ElementAdd::add(this, other);\n                (out, self.is_negative())","                let out = ElementAdd::add(this, other);\n                (out, rhs.is_negative())")),
 B('mul sign or',(F,"        ElementMul::mul(this, other)\n    });\n\n    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())","        ElementMul::mul(this, other)\n    });\n\n    BigInt::new_slice(out, self.is_negative() || rhs.is_negative())")),
 B('div sign',(F,"BitwiseDiv::div_long(this, other).0\n    });\n    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())","BitwiseDiv::div_long(this, other).0\n    });\n    BigInt::new_slice(out, self.is_negative())")),
 B('rem sign',(F,"BitwiseDiv::div_long(this, other).1\n    });\n    BigInt::new_slice(out, self.is_negative())","BitwiseDiv::div_long(this, other).1\n    });\n    BigInt::new_slice(out, rhs.is_negative())")),
 B('rem is quotient',(F,"BitwiseDiv::div_long(this, other).1","BitwiseDiv::div_long(this, other).0")),
 B('div swapped',(F,"BitwiseDiv::div_long(this, other).0","BitwiseDiv::div_long(other, this).0")),
 B('shl sign lost',(F,'ElementShl::shl(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))\n    });\n    BigInt::new_slice(out, self.is_negative())','ElementShl::shl(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))\n    });\n    BigInt::new_slice(out, false)')),
 B('shr is shl',(F,"ElementShr::shr(this,","ElementShl::shl(this,")),
 B('abs negates always',(F,"        if self.is_negative() {\n            -self\n        } else {\n            self\n        }","        if self.is_zero() {\n            self\n        } else {\n            -self\n        }")),
 B('sub_assign swapped',(F,"impl_assign_op!(sub(self, rhs) => { *self = &*self - rhs });","impl_assign_op!(sub(self, rhs) => { *self = rhs - &*self });")),
 B('rem_assign div',(F,"impl_assign_op!(rem(self, rhs) => { *self = &*self % rhs });","impl_assign_op!(rem(self, rhs) => { *self = &*self / rhs });")),
 B('pow off by one',(F,"            while rhs > 1 {","            while rhs > 0 {")),
 B('pow zero',(F,"        if rhs == 0 {\n            BigInt::from(1)","        if rhs == 0 {\n            BigInt::from(0)")),
 B('pow squares',(F,"                out *= self.clone();","                out *= out.clone();")),
 R('add by if',(F,A,"""            (left_pos, _) => {
                let (out, below) = ElementSub::sub(this, other);
                (out, below == left_pos)
            }
""")),
 R('mul sign xor',(F,"        ElementMul::mul(this, other)\n    });\n\n    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())","        ElementMul::mul(other, this)\n    });\n    let neg = self.is_negative() ^ rhs.is_negative();\n\n    BigInt::new_slice(out, neg)")),
 R('pow counts to one',(F,"            while rhs > 1 {\n                out *= self.clone();\n                rhs -= 1;\n            }","            while rhs != 1 && rhs.is_positive() {\n                rhs -= 1;\n                out = &out * &self;\n            }")),
 R('sub via neg',(F,"impl_assign_op!(sub(self, rhs) => { *self = &*self - rhs });","impl_assign_op!(sub(self, rhs) => { *self = &*self + &-rhs });")),
 R('abs match',(F,"        if self.is_negative() {\n            -self\n        } else {\n            self\n        }","        if self.is_positive() { self } else { -self }")),
] + [
 ('P15', 'bug', 'bits and self', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, if other.len() > this.len() { this } else { other })\n    });\n')]),
 ('P15', 'bug', 'bits xor is or', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitxor::bitxor(this, other)\n    });\n', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        if this.len() == other.len() { ElementBitxor::bitxor(this, other) } else { ElementBitor::bitor(this, other) }\n    });\n')]),
 ('P15', 'bug', 'bits or zero', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitor::bitor(this, other)\n    });\n', '    if rhs.is_zero() {\n        return BigInt::zero();\n    }\n    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitor::bitor(this, other)\n    });\n')]),
 ('P15', 'bug', 'bits and inline', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n', '    if rhs.is_inline() {\n        return self.with_slice(|s| BigInt::new_inline(s[s.len() - 1] & rhs.0.offset(), false));\n    }\n    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n')]),
 ('P15', 'ref', 'bits and zero', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n', '    if self.is_zero() || rhs.is_zero() {\n        return BigInt::zero();\n    }\n    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n')]),
 ('P15', 'ref', 'bits or same', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitor::bitor(this, other)\n    });\n', '    if rhs.is_zero() {\n        return self.clone();\n    }\n    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitor::bitor(this, other)\n    });\n')]),
 ('P15', 'ref', 'bits xor helper', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitxor::bitxor(this, other)\n    });\n', '    let out = self.with_slice(|this| rhs.with_slice(|other| ElementBitxor::bitxor(other, this)));\n')]),
 ('P15', 'ref', 'bits and inline both', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n', '    if self.is_inline() && rhs.is_inline() {\n        return BigInt::new_inline(self.0.offset() & rhs.0.offset(), self.is_negative());\n    }\n    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n')]),
 ('P15', 'ref', 'bits and low limb', [('crates/ints/src/big_int.rs', '    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n', '    if rhs.is_inline() {\n        return self.with_slice(|s| BigInt::new_inline(s[0] & rhs.0.offset(), false));\n    }\n    let out = BigInt::with_slices(self, rhs, |this, other| {\n        ElementBitand::bitand(this, other)\n    });\n')]),
]
