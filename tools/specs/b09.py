ID='b09-matrixmut-stride'; PROPERTY='P23'
NEEDS='writing through a mutable view of a matrix with fewer rows than columns, in a row other than the first'
BREAKS='the view uses the number of rows as the row stride and writes another element'
EDITS=[('crates/compounds/src/matrix/refs.rs','unsafe { &mut *self.data.as_ptr().add(index.0 * self.cols + index.1) }','unsafe { &mut *self.data.as_ptr().add(index.0 * self.rows + index.1) }')]
DEMO='''use numeric_compounds::matrix::{Matrix, MatrixMut};
fn main() {
    let mut m = Matrix::new([[1, 2, 3], [4, 5, 6]]);
    {
        let mut v = MatrixMut::from(&mut m);
        v[(1, 1)] = 50;
    }
    assert_eq!(m[(1, 1)], 50);
    assert_eq!(m[(0, 2)], 3);
}
'''
