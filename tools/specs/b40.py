ID='b40-bitshl-far-bits'; PROPERTY='P10'
NEEDS='a bit-by-bit left shift by more than one limb of a value with set bits that move beyond the old length'
BREAKS='the sequence grows by one limb at most, so bits that move further are dropped'
EDITS=[('crates/bits/src/algos/bitwise/shl.rs',"            if new || idx + right < bit_len {","            if (new && idx + right < bit_len + bit_len / left.len()) || idx + right < bit_len {")]
DEMO='''use numeric_bits::algos::BitwiseShl;
fn main() {
    let a = [0b11u8];
    assert_eq!(BitwiseShl::shl(&a[..], 8), [0u8, 0b11]);
    assert_eq!(BitwiseShl::shl(&a[..], 17), [0u8, 0, 0b110]);
}
'''
