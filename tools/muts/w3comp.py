"""third wave: matrices, views, witnesses"""
R = 'crates/compounds/src/matrix/refs.rs'
M = 'crates/compounds/src/matrix/static.rs'
D = 'crates/compounds/src/matrix/dynamic.rs'
A = 'crates/static-iter/src/array.rs'
S = 'crates/static-iter/src/lib.rs'
V = 'crates/compounds/src/vector.rs'
L = 'crates/utils/src/linked.rs'
I = 'crates/utils/src/intern.rs'
MUTS = []
def B(p, n, *e): MUTS.append((p, 'bug', 'w3 ' + n, list(e)))
def RF(ps, n, *e):
    for p in ps.split(): MUTS.append((p, 'ref', 'w3 ' + n, list(e)))
VIEWS = 'P17 P23 P25 P26'
RM = '''                unsafe { &*self.data.as_ptr().add(index.0 * self.cols + index.1) }'''
CHK = '''                if index.0 >= self.rows || index.1 >= self.cols {
                    panic!(
                        "Index out of range for matrix of size {}x{}: ({},{})",
                        self.rows, self.cols, index.0, index.1
                    );
                }
'''
MI = '''        unsafe { &mut *self.data.as_ptr().add(index.0 * self.cols + index.1) }'''
ACHK = '''        assert!(
            index.0 < self.rows && index.1 < self.cols,
            "Index out of range for matrix of size {}x{}: ({},{})",
            self.rows,
            self.cols,
            index.0,
            index.1
        );
'''
# views as slices
RF(VIEWS, 'view is a slice',
   (R, "    data: NonNull<T>,\n    rows: usize,\n    cols: usize,\n    _phantom: PhantomData<&'a [T]>,\n}", "    data: &'a [T],\n    rows: usize,\n    cols: usize,\n}"),
   (R, "        MatrixRef {\n            data,\n            rows,\n            cols,\n            _phantom: PhantomData,\n        }",
       "        // SAFETY: the matrix has rows * cols elements in a row\n        let data = unsafe { core::slice::from_raw_parts(data.as_ptr(), rows * cols) };\n        MatrixRef { data, rows, cols }"))
RF(VIEWS, 'offset helper',
   (R, "macro_rules! ref_common", "#[inline]\nfn offset(row: usize, cols: usize, col: usize) -> usize {\n    col + cols * row\n}\n\nmacro_rules! ref_common"),
   (R, RM, "                unsafe { self.data.add(offset(index.0, self.cols, index.1)).as_ref() }"),
   (R, MI, "        unsafe { self.data.add(offset(index.0, self.cols, index.1)).as_mut() }"))
RF(VIEWS, 'destructured tuple', (R, CHK + '\n                // SAFETY: Internal pointer guaranteed valid for reads up to rows * cols\n' + RM,
   '''                let (r, c) = index;
                match (r < self.rows, c < self.cols) {
                    (true, true) => {
                        // SAFETY: both in range
                        let row = unsafe { self.data.as_ptr().add(r * self.cols) };
                        unsafe { &*row.add(c) }
                    }
                    _ => panic!("no element {} {}", r, c),
                }'''))
RF(VIEWS, 'assert both', (R, CHK, '''                assert!(index.0 < self.rows, "row {} of {}", index.0, self.rows);
                assert!(index.1 < self.cols, "column {} of {}", index.1, self.cols);
'''))
RF(VIEWS, 'mut via not', (R, ACHK, '''        let inside = index.0 < self.rows && index.1 < self.cols;
        if !inside {
            panic!("Index out of range for matrix of size {}x{}", self.rows, self.cols);
        }
'''))
B('P23', 'row or column', (R, ACHK, ACHK.replace('self.rows && index.1', 'self.rows || index.1')))
B('P23', 'flat bound', (R, CHK, '''                if index.0 * self.cols + index.1 >= self.rows * self.cols {
                    panic!("Index out of range");
                }
'''))
B('P23', 'mut column le', (R, ACHK, ACHK.replace('index.1 < self.cols', 'index.1 <= self.cols')))
B('P23', 'row stride rows', (R, MI, MI.replace('index.0 * self.cols', 'index.0 * self.rows')))
B('P23', 'debug only', (R, ACHK, ACHK.replace('assert!', 'debug_assert!')))
B('P23', 'view transposed shape', (R, 'MatrixRef::new(value.as_ptr(), ROW, COL)', 'MatrixRef::new(value.as_ptr(), COL, ROW)'))
# send / sync
B('P17', 'mut view send sync', (R, "ref_common!(MatrixMut<'a, T>);", "unsafe impl<T: Sync> Send for MatrixMut<'_, T> {}\nref_common!(MatrixMut<'a, T>);"))
B('P17', 'mut view sync any', (R, "ref_common!(MatrixMut<'a, T>);", "unsafe impl<T: Send> Sync for MatrixMut<'_, T> {}\nref_common!(MatrixMut<'a, T>);"))
RF('P17', 'mut view both', (R, "ref_common!(MatrixMut<'a, T>);", "unsafe impl<T: Send> Send for MatrixMut<'_, T> {}\nunsafe impl<T: Sync> Sync for MatrixMut<'_, T> {}\nref_common!(MatrixMut<'a, T>);"))
B('P17', 'view sync any', (R, "ref_common!(MatrixRef<'a, T>);", "unsafe impl<T: Send> Sync for MatrixRef<'_, T> {}\nref_common!(MatrixRef<'a, T>);"))
B('P17', 'into iter send', (A, "impl<T, const N: usize> IntoIter<T, N> {", "unsafe impl<T, const N: usize> Send for IntoIter<T, N> {}\nimpl<T, const N: usize> IntoIter<T, N> {"))
B('P17', 'ref iter pointer', (A, "    inner: &'a [T; N],\n}", "    inner: &'a [T; N],\n}\n\nunsafe impl<T: Send, const N: usize> Send for RefIter<'_, T, N> {}"), )
RF('P17', 'list bounds swapped', (L, 'unsafe impl<T: Send + Sync> Sync for', 'unsafe impl<T: Sync + Send> Sync for'))
RF('P17', 'interned explicit send', (I, 'unsafe impl<T: Send + Sync> Sync for Interned<T> {}', 'unsafe impl<T: Send + Sync> Sync for Interned<T> {}\nunsafe impl<T: Send> Send for Interned<T> {}'))
B('P17', 'interned explicit send any', (I, 'unsafe impl<T: Send + Sync> Sync for Interned<T> {}', 'unsafe impl<T: Send + Sync> Sync for Interned<T> {}\nunsafe impl<T> Send for Interned<T> {}'))
# compile-fail
B('P25', 'mut from shared', (R, "impl<'a, T, const ROW: usize, const COL: usize> From<&'a mut Matrix<T, ROW, COL>>\n    for MatrixMut", "impl<'a, T, const ROW: usize, const COL: usize> From<&'a Matrix<T, ROW, COL>> for MatrixMut<'a, T> {\n    fn from(value: &'a Matrix<T, ROW, COL>) -> Self {\n        MatrixMut::new(value.as_ptr(), ROW, COL)\n    }\n}\n\nimpl<'a, T, const ROW: usize, const COL: usize> From<&'a mut Matrix<T, ROW, COL>>\n    for MatrixMut"))
B('P25', 'mut copy', (R, "ref_common!(MatrixMut<'a, T>);", "impl<T> Copy for MatrixMut<'_, T> {}\nimpl<T> Clone for MatrixMut<'_, T> {\n    fn clone(&self) -> Self {\n        *self\n    }\n}\nref_common!(MatrixMut<'a, T>);"))
B('P25', 'reborrow', (R, "impl<'a, T> MatrixMut<'a, T> {", "impl<'a, T> MatrixMut<'a, T> {\n    pub fn reborrow(&mut self) -> MatrixMut<'a, T> {\n        MatrixMut::new(self.data, self.rows, self.cols)\n    }\n"))
RF('P25 P23 P26', 'reborrow ok', (R, "impl<'a, T> MatrixMut<'a, T> {", "impl<'a, T> MatrixMut<'a, T> {\n    pub fn reborrow(&mut self) -> MatrixMut<'_, T> {\n        MatrixMut::new(self.data, self.rows, self.cols)\n    }\n"))
RF('P25 P23 P17', 'mut to ref ok', (R, "impl<'a, T> MatrixMut<'a, T> {", "impl<'a, T> From<MatrixMut<'a, T>> for MatrixRef<'a, T> {\n    fn from(v: MatrixMut<'a, T>) -> Self {\n        MatrixRef::new(v.data, v.rows, v.cols)\n    }\n}\n\nimpl<'a, T> MatrixMut<'a, T> {"))
B('P25', 'ptr public', (M, '    pub(crate) fn as_mut_ptr(&mut self) -> NonNull<T> {\n        NonNull::from(&mut self.0).cast()', '    pub fn as_mut_slice<\'b>(&mut self) -> &\'b mut [T] {\n        // SAFETY: layout\n        unsafe { core::slice::from_raw_parts_mut(self.as_mut_ptr().as_ptr(), ROW * COL) }\n    }\n\n    pub(crate) fn as_mut_ptr(&mut self) -> NonNull<T> {\n        NonNull::from(&mut self.0).cast()'))
# shapes
B('P26', 'transpose same shape generic', (M, 'pub fn from_rows(vecs: [Vector<T, COL>; ROW]) -> Matrix<T, ROW, COL> {\n        Matrix(vecs.into_static_iter().map(Vector::into).collect())', 'pub fn from_rows<const K: usize>(vecs: [Vector<T, K>; ROW]) -> Matrix<T, ROW, COL> {\n        Matrix(vecs.into_static_iter().map(|v| { let v: [T; K] = v.into(); let mut it = v.into_iter(); array::from_fn(|_| it.next().unwrap()) }).collect())'))
B('P26', 'add mixed', (M, '''impl<T, const ROW: usize, const COL: usize> Add for Matrix<T, ROW, COL>
where
    T: Add,
{
    type Output = Matrix<T::Output, ROW, COL>;

    fn add(self, rhs: Self) -> Self::Output {
        let map_rows =
            |l: [T; COL], r: [T; COL]| l.into_static_iter().zip(r).map(|(i, j)| i + j).collect();
''', '''impl<T, const ROW: usize, const COL: usize, const C2: usize> Add<Matrix<T, ROW, C2>> for Matrix<T, ROW, COL>
where
    T: Add,
{
    type Output = Matrix<T::Output, ROW, COL>;

    fn add(self, rhs: Matrix<T, ROW, C2>) -> Self::Output {
        let map_rows =
            |l: [T; COL], r: [T; C2]| { let mut r = r.into_iter(); l.into_static_iter().map(|i| i + r.next().unwrap()).collect() };
'''))
RF('P22 P26 P20', 'add by named fn', (M, '''        let map_rows =
            |l: [T; COL], r: [T; COL]| l.into_static_iter().zip(r).map(|(i, j)| i + j).collect();

        let rows = self
            .0
            .into_static_iter()
            .zip(rhs.0)
            .map(|(i, j)| map_rows(i, j))
            .collect();
        Matrix::new(rows)''', '''        fn add_row<T: Add, const C: usize>(l: [T; C], r: [T; C]) -> [T::Output; C] {
            let (l, r) = (Vector::from(l), Vector::from(r));
            (l + r).into()
        }
        Matrix(self.0.into_static_iter().zip(rhs.0).map(|(l, r)| add_row(l, r)).collect())'''))
RF('P22', 'mul fold', (M, '''                let mut out = self[(i, 0)].clone() * rhs[(0, j)].clone();
                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }
                out''', '''                let term = |k: usize| self[(i, k)].clone() * rhs[(k, j)].clone();
                (1..COL).map(term).fold(term(0), |acc, t| acc + t)'''))
RF('P22', 'mul rows first', (M, '''        let rows = array::from_fn(|i| {
            array::from_fn(|j| {
                let mut out = self[(i, 0)].clone() * rhs[(0, j)].clone();
                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }
                out
            })
        });
        Matrix::new(rows)''', '''        Matrix(self.0.map(|row| {
            array::from_fn(|j| {
                let mut k = 1;
                let mut out = row[0].clone() * rhs.0[0][j].clone();
                while k < COL {
                    out = out + row[k].clone() * rhs.0[k][j].clone();
                    k += 1;
                }
                out
            })
        }))'''))
B('P22', 'mul short', (M, 'for k in 1..COL {\n                    out = out + self[(i, k)]', 'for k in 1..COL.min(ROW.max(COL2)) {\n                    out = out + self[(i, k)]'))
RF('P22', 'one by swap', (M, '''        let rows =
            array::from_fn(|i| array::from_fn(|j| if i == j { T::one() } else { T::zero() }));
        Matrix::new(rows)''', '''        let mut out = Self::zero();
        let n = if ROW < COL { ROW } else { COL };
        for i in 0..n {
            out[(i, i)] = T::one();
        }
        out'''))
B('P22', 'is_one any row', (M, '''                if i == j {
                    val.is_one()
                } else {
                    val.is_zero()
                }
            })''', '''                if i == j {
                    val.is_one()
                } else {
                    j > i || val.is_zero()
                }
            })'''))
RF('P22', 'is_one loops', (M, '''        (&self.0).into_static_iter().enumerate().all(|(i, row)| {
            row.into_static_iter().enumerate().all(|(j, val)| {
                if i == j {
                    val.is_one()
                } else {
                    val.is_zero()
                }
            })
        })''', '''        for i in 0..ROW {
            for j in 0..COL {
                let val = &self[(i, j)];
                if !(if i == j { val.is_one() } else { val.is_zero() }) {
                    return false;
                }
            }
        }
        true'''))
RF('P22', 'diag helper', (M, 'array::from_fn(|idx| self[(idx, idx)].clone()).into()', 'let Matrix(rows) = self;\n        Vector::from(array::from_fn(|i| rows[i][i].clone()))'))
RF('P22', 'transpose from_fn', (M, 'Matrix::new(zip_all(self.0).collect())', 'Matrix::from_columns(self.0.map(Vector::from))'))
RF('P22', 'from columns via transpose', (M, 'Matrix(zip_all(vecs.map(<[T; ROW]>::from)).collect())', 'Matrix::<T, COL, ROW>::from_rows(vecs).transpose()'))
RF('P22', 'swap guard', (M, 'self.0.swap(a, b);', 'if a != b {\n            self.0.swap(a, b);\n        } else {\n            assert!(a < ROW);\n        }'))
B('P22', 'swap only below', (M, 'self.0.swap(a, b);', 'if a < b {\n            self.0.swap(a, b);\n        }'))
RF('P23 P22', 'dyn from matrix', (D, 'impl<T> DynMatrix<T> {\n    pub fn new', '''impl<T, const ROW: usize, const COL: usize> From<crate::matrix::Matrix<T, ROW, COL>> for DynMatrix<T> {
    fn from(value: crate::matrix::Matrix<T, ROW, COL>) -> Self {
        let mut data = Vec::with_capacity(ROW * COL);
        for r in value.into_rows() {
            data.extend(r);
        }
        DynMatrix::new(data, ROW, COL)
    }
}

impl<T> DynMatrix<T> {
    pub fn new'''), (M, '    pub fn from_columns(', '''    pub(crate) fn into_rows(self) -> [[T; COL]; ROW] {
        self.0
    }

    pub fn from_columns('''))
RF('P23', 'dyn from rows', (D, 'impl<T> DynMatrix<T> {\n    pub fn new', '''impl<T> From<Vec<Vec<T>>> for DynMatrix<T> {
    fn from(value: Vec<Vec<T>>) -> Self {
        let rows = value.len();
        let cols = value.first().map_or(0, Vec::len);
        DynMatrix::new(value.into_iter().flatten().collect(), rows, cols)
    }
}

impl<T> DynMatrix<T> {
    pub fn new'''))
B('P23', 'dyn new debug only', (D, '        assert_eq!(\n            data.len(),', '        debug_assert_eq!(\n            data.len(),'))
B('P23', 'dyn index debug only', (D, 'assert!(', 'debug_assert!('))
B('P07', 'zero divisor debug only', ('crates/bits/src/algos/bitwise/div.rs', 'assert!(!is_zero(div)', 'debug_assert!(!is_zero(div)'))
B('P07', 'zero divisor element debug only', ('crates/bits/src/algos/element/div.rs', '        assert!(\n', '        debug_assert!(\n'))
