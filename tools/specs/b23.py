ID='b23-sub-mixed-sign'; PROPERTY='P15'
NEEDS='subtracting a positive integer of larger magnitude from a negative one'
BREAKS='for operands of different sign the result takes the sign of the operand of larger magnitude'
EDITS=[('crates/ints/src/big_int.rs','                let out = ElementAdd::add(this, other);\n                (out, self.is_negative())','                let out = ElementAdd::add(this, other);\n                (out, if this.len() < other.len() { rhs.is_negative() } else { self.is_negative() })')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let q = BigInt::from(-5) - BigInt::from(u128::MAX - 5);
    assert_eq!(q.to_string(), format!("-{}", u128::MAX));
}
'''
