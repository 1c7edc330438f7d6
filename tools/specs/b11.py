ID='b11-setbitpush-clear'; PROPERTY='P08'
NEEDS='a growing bit write of a zero bit beyond the end of the sequence'
BREAKS='the sequence is not grown, so the bit just written does not exist and the next plain access panics'
EDITS=[('crates/bits/src/bit_slice.rs','        let (len, _) = idx_bit::<Self>(idx);\n        self.extend(len + 1, Self::Bit::zero());\n','        if val {\n            let (len, _) = idx_bit::<Self>(idx);\n            self.extend(len + 1, Self::Bit::zero());\n        }\n')]
DEMO='''use numeric_bits::bit_slice::{BitSliceExt, BitVecExt};
fn main() {
    let mut a = vec![1u8];
    a.set_bit_push(9, false);
    assert_eq!(a, vec![1, 0]);
    assert!(!a.get_bit(9));
}
'''
