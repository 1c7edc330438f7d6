ID='b27-u-saturating-mul'; PROPERTY='P11'
NEEDS='a saturating product that overflows'
BREAKS='the saturating product of an overflow with an even operand is the wrapped product'
EDITS=[('crates/ints/src/u.rs','        match ElementMul::mul_checked(&mut self.0, &rhs.0) {\n            Some(_) => self,\n            None => Self::max_value(),','        match ElementMul::mul_checked(&mut self.0, &rhs.0) {\n            Some(_) => self,\n            None if rhs.0[0] & 1 == 0 => self,\n            None => Self::max_value(),')]
DEMO='''use numeric_ints::U;
use numeric_traits::ops::saturating::SaturatingMul;
fn main() {
    let a = U::<2>::from_u16(0x8001);
    let b = U::<2>::from_u16(2);
    assert_eq!(SaturatingMul::saturating_mul(a, b).as_u16(), u16::MAX);
}
'''
