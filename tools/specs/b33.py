ID='b33-matrixmut-covariant'; PROPERTY='P25'
NEEDS='a program that stores, through an exclusive view, an element that lives shorter than the matrix'
BREAKS='a safe program can leave a dangling reference in a matrix'
EDITS=[('crates/compounds/src/matrix/refs.rs',"_phantom: PhantomData<&'a mut [T]>","_phantom: PhantomData<&'a [T]>")]
DEMO='''use numeric_compounds::matrix::*;
fn put<'s>(mut v: MatrixMut<'_, &'s str>, s: &'s str) { v[(0, 0)] = s; }
fn main() {
    let mut m: DynMatrix<&'static str> = DynMatrix::new(vec!["a"], 1, 1);
    put(MatrixMut::from(&mut m), "b");
    assert_eq!(m[(0, 0)], "b");
}
'''
BAD='''use numeric_compounds::matrix::*;
fn put<'a, 's: 'a>(v: MatrixMut<'a, &'static str>, s: &'s str) { let mut w: MatrixMut<'a, &'s str> = v; w[(0, 0)] = s; }
fn main() {
    let mut m: DynMatrix<&'static str> = DynMatrix::new(vec!["a"], 1, 1);
    { let s = String::from("b"); put(MatrixMut::from(&mut m), &s); }
    println!("{}", m[(0, 0)]);
}
'''
