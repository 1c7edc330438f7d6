ID='b03-widening-mul-carry'; PROPERTY='P03'
NEEDS='u128 operands for which the addend carries out of the low word'
BREAKS='the carry of the addend is dropped from the high word'
EDITS=[('crates/traits/src/ops/widening.rs','let (sum0, carry2) = sum0.overflowing_add(add);','let (sum0, carry2) = (sum0.wrapping_add(add), carry1 && sum0 > add);')]
DEMO='''use numeric_traits::ops::widening::WideningMul;
fn main() {
    assert_eq!(3u128.widening_mul(4, 5), (17, 0));
    assert_eq!(u128::MAX.widening_mul(1, 1), (0, 1));
}
'''
