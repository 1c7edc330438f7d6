ID='b38-gcd-zero-operand'; PROPERTY='P28'
NEEDS='exactly one operand zero'
BREAKS='the greatest common divisor with zero is zero instead of the other operand'
EDITS=[('crates/traits/src/__impl.rs',"if self == 0 && rhs == 0 {","if self == 0 || rhs == 0 {")]
DEMO='''use numeric_traits::ops::Gcd;
fn main() {
    assert_eq!(12u32.gcd(18), 6);
    assert_eq!(0u32.gcd(5), 5);
    assert_eq!(7i64.gcd(0), 7);
}
'''
