ID='b19-clone-negative-uncounted'; PROPERTY='P13'
NEEDS='cloning a negative stored integer and ending one of the two while the other is used'
BREAKS='clones of negative stored integers are not counted'
EDITS=[('crates/ints/src/big_int.rs','        if !tag.inline() {\n            INT_STORE.incr(','        if tag == Tag::None {\n            INT_STORE.incr(')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let x = -BigInt::from(u128::MAX);
    drop(x.clone());
    let _z = BigInt::from(u128::MAX - 77);
    assert_eq!(x.to_string(), format!("-{}", u128::MAX));
}
'''
