ID='b43-xor-longer-operand'; PROPERTY='P15'
NEEDS='the exclusive or of two big integers with different numbers of limbs and a common set bit'
BREAKS='the limbs of the shorter operand are or-ed into the longer one, so common bits stay set'
EDITS=[('crates/ints/src/big_int.rs',"        ElementBitxor::bitxor(this, other)\n","        if this.len() == other.len() {\n            ElementBitxor::bitxor(this, other)\n        } else {\n            ElementBitor::bitor(this, other)\n        }\n")]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let a = BigInt::from((1u128 << 100) + 7);
    let b = BigInt::from(5u8);
    assert!(a.clone() ^ a.clone() == BigInt::from(0u8));
    assert!(a ^ b == BigInt::from((1u128 << 100) + 2));
}
'''
