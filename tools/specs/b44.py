ID='b44-view-bounds-unchecked-optimised'; PROPERTY='P23'; RELEASE=True
NEEDS='an optimised build that writes through an exclusive matrix view past the last column'
BREAKS='the range check exists only in builds with debug assertions, so an optimised program reads and writes outside the matrix'
EDITS=[('crates/compounds/src/matrix/refs.rs','        assert!(\n            index.0 < self.rows','        debug_assert!(\n            index.0 < self.rows')]
DEMO='''use numeric_compounds::matrix::{Matrix, MatrixMut};
fn main() {
    let mut m = Matrix::new([[1u32, 2], [3, 4]]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut v = MatrixMut::from(&mut m);
        v[(0, 2)] = 9;
    }));
    assert!(r.is_err(), "column 2 of a matrix with two columns was written");
    assert_eq!(m, Matrix::new([[1, 2], [3, 4]]));
}
'''
