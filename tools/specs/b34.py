ID='b34-dynview-unbound'; PROPERTY='P25'
NEEDS='a program that keeps a shared view of a dynamic matrix beyond the matrix'
BREAKS='a safe program can read freed memory through a view'
EDITS=[('crates/compounds/src/matrix/refs.rs',"impl<'a, T> From<&'a DynMatrix<T>> for MatrixRef<'a, T> {\n    fn from(value: &'a DynMatrix<T>) -> Self {","impl<T> From<&DynMatrix<T>> for MatrixRef<'_, T> {\n    fn from(value: &DynMatrix<T>) -> Self {")]
DEMO='''use numeric_compounds::matrix::*;
fn main() {
    let m = DynMatrix::new(vec![String::from("a")], 1, 1);
    let v = MatrixRef::from(&m);
    assert_eq!(v[(0, 0)], "a");
    drop(m);
}
'''
BAD='''use numeric_compounds::matrix::*;
fn main() {
    let m = DynMatrix::new(vec![String::from("a")], 1, 1);
    let v = MatrixRef::from(&m);
    drop(m);
    assert_eq!(v[(0, 0)], "a");
}
'''
