ID='b08-is-one-lower'; PROPERTY='P22'
NEEDS='the identity test of a matrix with ones on the diagonal and a non-zero element below it'
BREAKS='the identity test ignores the elements below the diagonal'
EDITS=[('crates/compounds/src/matrix/static.rs','''                } else {
                    val.is_zero()
                }''','''                } else {
                    j < i || val.is_zero()
                }''')]
DEMO='''use numeric_compounds::matrix::Matrix;
use numeric_traits::identity::One;
fn main() {
    assert!(Matrix::new([[1, 0], [0, 1]]).is_one());
    assert!(!Matrix::new([[1, 2], [0, 1]]).is_one());
    assert!(!Matrix::new([[1, 0], [2, 1]]).is_one());
}
'''
