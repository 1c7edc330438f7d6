"""P25, P26: compile-fail witnesses"""
R = 'crates/compounds/src/matrix/refs.rs'
I = 'crates/utils/src/intern.rs'
S = 'crates/static-iter/src/lib.rs'
A = 'crates/static-iter/src/array.rs'
V = 'crates/compounds/src/vector.rs'
M = 'crates/compounds/src/matrix/static.rs'
Z = 'crates/static-iter/src/zip_all.rs'
B = 'crates/bits/src/bit_slice/iter.rs'
MUTS = [
 ('P25', 'bug', 'ref unbounded', [(R, "From<&'a Matrix<T, ROW, COL>> for MatrixRef<'a, T> {\n    fn from(value: &'a Matrix", "From<&Matrix<T, ROW, COL>> for MatrixRef<'a, T> {\n    fn from(value: &Matrix")]),
 ('P25', 'bug', 'ref dyn unbounded', [(R, "From<&'a DynMatrix<T>> for MatrixRef<'a, T> {\n    fn from(value: &'a Dyn", "From<&DynMatrix<T>> for MatrixRef<'a, T> {\n    fn from(value: &Dyn")]),
 ('P25', 'bug', 'mut dyn unbounded', [(R, "From<&'a mut DynMatrix<T>> for MatrixMut<'a, T> {\n    fn from(value: &'a mut Dyn", "From<&mut DynMatrix<T>> for MatrixMut<'a, T> {\n    fn from(value: &mut Dyn")]),
 ('P25', 'bug', 'mut covariant', [(R, "_phantom: PhantomData<&'a mut [T]>", "_phantom: PhantomData<&'a [T]>")]),
 ('P25', 'bug', 'mut clone', [(R, "impl<'a, T> MatrixMut<'a, T> {", "impl<T> Clone for MatrixMut<'_, T> {\n    fn clone(&self) -> Self {\n        Self::new(self.data, self.rows, self.cols)\n    }\n}\n\nimpl<'a, T> MatrixMut<'a, T> {")]),
 ('P25', 'bug', 'new public', [(R, "    fn new(data: NonNull<T>, rows: usize, cols: usize) -> MatrixRef", "    pub fn new(data: NonNull<T>, rows: usize, cols: usize) -> MatrixRef")]),
 ('P25', 'bug', 'rows public', [(R, "    rows: usize,\n    cols: usize,\n    _phantom: PhantomData<&'a mut [T]>", "    pub rows: usize,\n    pub cols: usize,\n    _phantom: PhantomData<&'a mut [T]>")]),
 ('P25', 'bug', 'interner get static', [(I, "    pub fn get(&self, offset: InternId) -> &T {\n        self.try_get(offset).expect(\"Expected valid offset\")", "    pub fn get<'b>(&self, offset: InternId) -> &'b T {\n        let val: *const T = self.try_get(offset).expect(\"Expected valid offset\");\n        unsafe { &*val }")]),
 ('P25', 'bug', 'into iter copy', [(A, "pub struct IntoIter<T, const N: usize> {\n    inner: [MaybeUninit<T>; N],\n}", "pub struct IntoIter<T, const N: usize> {\n    inner: [MaybeUninit<T>; N],\n}\n\nimpl<T, const N: usize> Clone for IntoIter<T, N> {\n    fn clone(&self) -> Self {\n        unsafe { core::ptr::read(self) }\n    }\n}")]),
 ('P25', 'ref', 'elided lifetimes', [(R, "impl<'a, T> From<&'a DynMatrix<T>> for MatrixRef<'a, T> {\n    fn from(value: &'a DynMatrix<T>) -> Self {\n        MatrixRef::new(value.as_ptr(), value.rows(), value.cols())", "impl<'m, T> From<&'m DynMatrix<T>> for MatrixRef<'m, T> {\n    fn from(value: &'m DynMatrix<T>) -> Self {\n        let (rows, cols) = (value.rows(), value.cols());\n        Self::new(value.as_ptr(), rows, cols)")]),
 ('P25', 'ref', 'phantom mut ref', [(R, "_phantom: PhantomData<&'a mut [T]>", "_phantom: PhantomData<&'a mut T>")]),
 ('P25', 'ref', 'ref field slice', [(B, "    iter: core::slice::Iter<'a, I>,\n    cur: Option<I>,\n    idx: usize,", "    idx: usize,\n    cur: Option<I>,\n    iter: core::slice::Iter<'a, I>,")]),
 ('P26', 'bug', 'zip any length', [(S, "    fn zip<I>(self, other: I) -> Zip<Self, I::Iter>\n    where\n        I: IntoStaticIter<N>,", "    fn zip<I, const M: usize>(self, other: I) -> Zip<Self, I::Iter>\n    where\n        I: IntoStaticIter<M>,")]),
 ('P26', 'bug', 'dot any dimension', [(V, "    pub fn dot_product(lhs: Vector<T, N>, rhs: Vector<T, N>) -> T {", "    pub fn dot_product<const M: usize>(lhs: Vector<T, N>, rhs: Vector<T, M>) -> T {")]),
 ('P26', 'ref', 'param renamed', [(V, "    pub fn dot_product(lhs: Vector<T, N>, rhs: Vector<T, N>) -> T {", "    pub fn dot_product(lhs: Self, rhs: Self) -> T {")]),
]
