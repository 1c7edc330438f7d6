ID='b37-fixed-whole-top-bit'; PROPERTY='P27'
NEEDS='a fixed-point value with at least two fraction bits, the top one clear and a lower one set'
BREAKS='such a value counts as whole, so it is rounded down instead of up'
EDITS=[('crates/reals/src/fixed.rs',"    (T::one() << N) - T::one()","    (T::one() << N) >> 1usize")]
DEMO='''use numeric_reals::fixed::Fixed;
use numeric_traits::class::Real;
fn main() {
    assert!(Fixed::<i32, 2>::from_raw(0b0110).ceil() == Fixed::from_val(2));
    assert!(Fixed::<i32, 2>::from_raw(0b0101).ceil() == Fixed::from_val(2));
}
'''
