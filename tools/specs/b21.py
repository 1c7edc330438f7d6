ID='b21-inline-limit'; PROPERTY='P14'
NEEDS='building a negative integer whose magnitude lies in the upper half of the numbers kept inline'
BREAKS='the limit below which a number is kept inline depends on the sign, so a number and its negation are kept differently and compare wrongly'
EDITS=[('crates/ints/src/big_int.rs','val.len() == 1 && val[0] <= (usize::MAX >> 2)','val.len() == 1 && val[0] <= (usize::MAX >> if neg { 3 } else { 2 })')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let m = 3u64 << 60;
    let a = BigInt::from(-(m as i64));
    let b = -BigInt::from(m);
    assert!(a == b);
}
'''
