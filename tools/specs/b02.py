ID='b02-saturate-u128-usize'; PROPERTY='P02'
NEEDS='a u128 above usize::MAX converted saturating to usize on a 64-bit target'
BREAKS='the saturating conversion truncates instead of clamping'
EDITS=[('crates/traits/src/__impl.rs','''        u_less_eq = [u8, u16, u32, u64, usize],
        u_greater = [u128],
        s_less_eq = [i8, i16, i32, i64, isize],''','''        u_less_eq = [u8, u16, u32, u64, u128, usize],
        u_greater = [],
        s_less_eq = [i8, i16, i32, i64, isize],''')]
DEMO='''use numeric_traits::cast::FromSaturating;
fn main() {
    assert_eq!(usize::saturate_from(5u128), 5);
    assert_eq!(usize::saturate_from(1u128 << 64), usize::MAX);
}
'''
