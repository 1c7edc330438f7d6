ID='b20-eq-stored-sign'; PROPERTY='P14'
NEEDS='comparing a stored integer with its negative'
BREAKS='stored integers that differ only in sign compare equal'
EDITS=[('crates/ints/src/big_int.rs','} else if self.0.tag() == other.0.tag() && !self.0.tag().inline() {','} else if self.is_interned() && other.is_interned() {')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let x = BigInt::from(u128::MAX);
    let y = -BigInt::from(u128::MAX);
    assert!(x != y);
}
'''
