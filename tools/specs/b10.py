ID='b10-cmp-common-limbs'; PROPERTY='P06'
NEEDS='comparing limb slices of different lengths by at least two limbs, the longer one with its only non-zero extra limb at the top'
BREAKS='only one limb beyond the shorter operand is compared, so a larger value counts as equal'
EDITS=[('crates/bits/src/algos/element/cmp.rs','let len = usize::max(left.len(), right.len());','let len = usize::max(left.len(), right.len()).min(usize::min(left.len(), right.len()) + 1);')]
DEMO='''use numeric_bits::algos::ElementCmp;
use core::cmp::Ordering;
fn main() {
    let a: &[u8] = &[7];
    let b: &[u8] = &[7, 0, 1];
    assert_eq!(ElementCmp::cmp(a, b), Ordering::Less);
    assert_eq!(ElementCmp::cmp(b, a), Ordering::Greater);
}
'''
