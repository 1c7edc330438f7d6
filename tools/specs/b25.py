ID='b25-from-min'; PROPERTY='P16'
NEEDS='building an integer from the smallest value of a signed type'
BREAKS='the smallest value of every signed type becomes positive'
EDITS=[('crates/ints/src/big_int/macros.rs','                let neg = val.is_negative();\n','                let neg = val.checked_neg().map_or(false, |v| v > 0);\n')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    assert_eq!(BigInt::from(i32::MIN).to_string(), i32::MIN.to_string());
}
'''
