ID='b12-shr-whole-limbs'; PROPERTY='P09'
NEEDS='an in-place right shift by a whole number of limbs, at least one'
BREAKS='a fast path for whole-limb shifts leaves one moved limb behind at the top'
EDITS=[('crates/bits/src/algos/element/shr.rs','        // dbg!(arr_shift, elem_shift);\n','        if elem_shift == 0 && arr_shift > 2 {\n            let len = left.len();\n            left.slice_mut().copy_within(arr_shift - 1.., 0);\n            left.slice_mut()[len + 2 - arr_shift..].fill(zero);\n            return left;\n        }\n')]
DEMO='''use numeric_bits::algos::ElementShr;
fn main() {
    let mut a = [1u8, 2, 3, 4];
    ElementShr::shr_wrapping(&mut a[..], 16);
    assert_eq!(a, [3, 4, 0, 0]);
}
'''
