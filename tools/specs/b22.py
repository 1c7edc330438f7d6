ID='b22-shl-sign'; PROPERTY='P15'
NEEDS='shifting a negative integer to the left by a whole number of limbs or more'
BREAKS='the sign is lost when the shifted integer has more limbs than before'
EDITS=[('crates/ints/src/big_int.rs','''        ElementShl::shl(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
    });
    BigInt::new_slice(out, self.is_negative())''','''        ElementShl::shl(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
    });
    let neg = self.is_negative() && rhs < &BigInt::from(usize::BITS);
    BigInt::new_slice(out, neg)''')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    let q = BigInt::from(-3) << BigInt::from(64u32);
    assert_eq!(q.to_string(), format!("-{}", 3u128 << 64));
}
'''
