ID='b01-checked-div-min'; PROPERTY='P01'
NEEDS='a signed dividend equal to the type minimum divided by -1'
BREAKS='checked division returns Some(MIN) instead of None for MIN / -1'
EDITS=[('crates/traits/src/__impl.rs','                <$ty>::checked_div(self, rhs)\n','                if rhs == 0 {\n                    return None;\n                }\n                Some(<$ty>::overflowing_div(self, rhs).0)\n')]
DEMO='''use numeric_traits::ops::checked::CheckedDiv;
fn main() {
    assert_eq!(CheckedDiv::checked_div(7i32, 2), Some(3));
    assert_eq!(CheckedDiv::checked_div(7i32, 0), None);
    assert_eq!(CheckedDiv::checked_div(i64::MIN, -1), None);
}
'''
