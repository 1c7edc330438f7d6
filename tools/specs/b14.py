ID='b14-bitadd-top-carry'; PROPERTY='P10'
NEEDS='a bit-by-bit addition whose carry leaves the top bit of the longer operand'
BREAKS='the loop stops at the common bit length, so the final carry is dropped'
EDITS=[('crates/bits/src/algos/bitwise/add.rs','for idx in 0..=bit_len {','for idx in 0..bit_len {')]
DEMO='''use numeric_bits::algos::BitwiseAdd;
fn main() {
    let a = [255u8, 255];
    let s = BitwiseAdd::add(&a[..], &[1u8][..]);
    assert_eq!(s, [0u8, 0, 1]);
}
'''
