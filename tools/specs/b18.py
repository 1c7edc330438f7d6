ID='b18-neg-ref-uncounted'; PROPERTY='P13'
NEEDS='negating a stored (multi-limb) integer by reference, dropping the result, then storing another large integer while the first is still in use'
BREAKS='the negated integer shares the stored limbs without counting itself, so its end releases the limbs the original still uses'
EDITS=[('crates/ints/src/big_int.rs','        let mut out = self.clone();\n        out.0 = out.0.invert_neg();\n        out\n','        BigInt(self.0.invert_neg())\n')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let x = BigInt::from(u128::MAX);
    let y = -&x;
    drop(y);
    let z = BigInt::from(u128::MAX - 77);
    assert_eq!(x.to_string(), u128::MAX.to_string());
    drop(z);
}
'''
