ID='b32-parse-unicode-case'; PROPERTY='P24'
NEEDS='a character outside ASCII whose lower-case form is an ASCII letter (the Kelvin sign), under a radix above 20'
BREAKS='text with a character that is no digit is accepted'
EDITS=[('crates/ints/src/big_int.rs','if c2 == c.to_ascii_lowercase() {','if c.to_lowercase().next() == Some(c2) {')]
DEMO='''use numeric_ints::BigInt;
use numeric_traits::cast::FromStrRadix;
fn main() {
    assert!(BigInt::from_str_radix("k1", 36).is_ok());
    assert!(BigInt::from_str_radix("\\u{212a}1", 36).is_err());
}
'''
