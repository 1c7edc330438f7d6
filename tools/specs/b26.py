ID='b26-u-from-checked-top'; PROPERTY='P12'
NEEDS='a value of a width above the primitive whose only non-zero byte outside the primitive is its top byte'
BREAKS='the checked conversion keeps the low bytes of a number that does not fit'
EDITS=[('crates/ints/src/u.rs','                            if val.0[i] != 0 {','                            if val.0[i] != 0 && i + 1 < N {')]
DEMO='''use numeric_ints::U;
use numeric_traits::cast::FromChecked;
fn main() {
    assert_eq!(u16::from_checked(U::<4>::from_le_bytes([1, 2, 0, 7])), None);
}
'''
