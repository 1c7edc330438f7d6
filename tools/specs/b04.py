ID='b04-add-carry-all-ones'; PROPERTY='P04'
NEEDS='an allocating addition with an incoming carry into an all-ones limb of the left operand (at least three limbs involved)'
BREAKS='the carry out of an all-ones limb is lost, so the sum is wrong by a power of the limb base'
EDITS=[('crates/bits/src/algos/element/add.rs','''            let (res, new_carry) = res.overflowing_add(r);
            if new_carry {
                carry = true;
            }

            out''','''            let (res, new_carry) = res.overflowing_add(r);
            carry = new_carry;

            out''')]
DEMO='''use numeric_bits::algos::ElementAdd;
fn main() {
    assert_eq!(ElementAdd::add(&[1u8, 2, 3][..], &[1u8, 2, 3][..]), vec![2, 4, 6]);
    assert_eq!(ElementAdd::add(&[255u8, 255, 0][..], &[1u8][..]), vec![0, 0, 1]);
}
'''
