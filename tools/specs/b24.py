ID='b24-tryfrom-max'; PROPERTY='P16'
NEEDS='converting the largest value of an integer type back from an arbitrary-precision integer'
BREAKS='the largest value of every unsigned type is refused'
EDITS=[('crates/ints/src/big_int/macros.rs','                if bi > &BigInt::from(Self::MAX) {\n                    Err(OutOfRangeError::above())\n                } else if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::below())\n                } else {\n                    bi.with','                if bi >= &BigInt::from(Self::MAX) {\n                    Err(OutOfRangeError::above())\n                } else if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::below())\n                } else {\n                    bi.with')]
DEMO='''use numeric_ints::BigInt;
fn main() {
    assert_eq!(u16::try_from(BigInt::from(u16::MAX)).ok(), Some(u16::MAX));
}
'''
