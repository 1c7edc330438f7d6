ID='b05-mul-skip-zero-limb'; PROPERTY='P05'
NEEDS='an allocating multiplication whose right operand has a zero limb above a limb whose partial product carries'
BREAKS='zero limbs of the right operand are skipped while a carry is pending, so the carry lands one limb too high'
EDITS=[('crates/bits/src/algos/element/mul.rs','''            for (offset, &r) in right.slice().iter().enumerate() {
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                carry = high;
                out.add''','''            for (offset, &r) in right.slice().iter().enumerate() {
                if r == zero {
                    continue;
                }
                let (low, high) = Self::Bit::widening_mul(l, r, carry);
                carry = high;
                out.add''')]
DEMO='''use numeric_bits::algos::ElementMul;
fn main() {
    assert_eq!(ElementMul::mul(&[3u8][..], &[4u8][..]), vec![12]);
    assert_eq!(ElementMul::mul(&[255u8][..], &[255u8, 0, 1][..]), vec![1, 254, 255]);
}
'''
