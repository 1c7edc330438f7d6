ID='b31-print-digit-cap'; PROPERTY='P24'
NEEDS='a value with more than 64 decimal digits'
BREAKS='the digits beyond a fixed count, which are the most significant ones, are not printed'
EDITS=[('crates/ints/src/big_int.rs',"""        for &d in digits.iter().rev() {
            w.write_char(chars[d as usize])?;""","""        const MAX_DIGITS: usize = 64;
        let shown = digits.len().min(MAX_DIGITS);
        for &d in digits[..shown].iter().rev() {
            w.write_char(chars[d as usize])?;""")]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let x = BigInt::from(7) * (BigInt::from(1) << BigInt::from(300));
    let s = format!("{}", x);
    assert_eq!(s, "14259251834341402603879119818865647127360278755661553754452983145480669098343356943283781632");
}
'''
