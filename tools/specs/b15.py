ID='b15-matrixref-send'; PROPERTY='P17'
NEEDS='a view of a matrix whose elements are Send but not Sync (such as Cell), moved to another thread while the matrix stays'
BREAKS='MatrixRef is declared Send for every Send element, as if it owned the elements it only borrows'
EDITS=[('crates/compounds/src/matrix/refs.rs',"ref_common!(MatrixRef<'a, T>);","ref_common! { MatrixRef<'a, T> }\n\n// SAFETY: The view is just a pointer to elements that are Send\nunsafe impl<T: Send> Send for MatrixRef<'_, T> {}")]
DEMO='''use core::cell::Cell;
use core::marker::PhantomData;
use numeric_compounds::matrix::MatrixRef;
struct Probe<T>(PhantomData<T>);
trait No { fn send(&self) -> bool { false } }
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
fn main() {
    assert!(Probe::<Cell<u32>>(PhantomData).send());
    assert!(!Probe::<&Cell<u32>>(PhantomData).send());
    assert!(!Probe::<MatrixRef<'static, Cell<u32>>>(PhantomData).send());
}
'''
