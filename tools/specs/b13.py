ID='b13-div-skip-high-limbs'; PROPERTY='P07'
NEEDS='a dividend with more limbs than the divisor whose high part alone reaches the divisor'
BREAKS='long division starts the bit loop at the width of the divisor plus one limb, so quotient bits above are lost'
EDITS=[('crates/bits/src/algos/bitwise/div.rs','        let bit_len = usize::max(num.bit_len(), div.bit_len());\n','        let bit_len = usize::min(\n            usize::max(num.bit_len(), div.bit_len()),\n            div.bit_len() + 3 * <Self::Bit as crate::bit_slice::BitLike>::BIT_LEN,\n        );\n')]
DEMO='''use numeric_bits::algos::BitwiseDiv;
fn main() {
    let a = [1u8, 2, 3, 4, 5, 6];
    let (q, r) = BitwiseDiv::div_long(&a[..], &[1u8][..]);
    assert_eq!(q, [1u8, 2, 3, 4, 5, 6]);
    assert!(r.iter().all(|x| *x == 0));
}
'''
