"""second wave: compounds"""
S = 'crates/compounds/src/matrix/static.rs'
D = 'crates/compounds/src/matrix/dynamic.rs'
R = 'crates/compounds/src/matrix/refs.rs'
C = 'crates/compounds/src/complex.rs'
B = 'crates/compounds/src/bivec.rs'
V = 'crates/compounds/src/vector.rs'
ADD = '''        let map_rows =
            |l: [T; COL], r: [T; COL]| l.into_static_iter().zip(r).map(|(i, j)| i + j).collect();

        let rows = self
            .0
            .into_static_iter()
            .zip(rhs.0)
            .map(|(i, j)| map_rows(i, j))
            .collect();
        Matrix::new(rows)'''
MUL = '''        let rows = array::from_fn(|i| {
            array::from_fn(|j| {
                let mut out = self[(i, 0)].clone() * rhs[(0, j)].clone();
                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }
                out
            })
        });
        Matrix::new(rows)'''
ISZ = '''        (&self.0)
            .into_static_iter()
            .all(|r| r.into_static_iter().all(T::is_zero))'''
ISO = '''        (&self.0).into_static_iter().enumerate().all(|(i, row)| {
            row.into_static_iter().enumerate().all(|(j, val)| {
                if i == j {
                    val.is_one()
                } else {
                    val.is_zero()
                }
            })
        })'''
DIX = '''        assert!(
            index.0 < self.rows && index.1 < self.cols,
            "Index out of range for matrix of size {}x{}: ({},{})",
            self.rows,
            self.cols,
            index.0,
            index.1
        );
        &self.data[index.0 * self.cols + index.1]'''
SWAP = '''        if a == b {
            return;
        }
        let l = usize::min(a, b);
        let r = usize::max(a, b);
        let (start, end) = self.data.split_at_mut(r * self.cols);
        let start = &mut start[l * self.cols..(l + 1) * self.cols];
        let end = &mut end[..self.cols];
        start.swap_with_slice(end);'''
DNEW = '''        assert_eq!(
            data.len(),
            rows * cols,
            "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
            rows * cols,
            rows,
            cols,
            data.len(),
        );
'''
DIV = '''        let divisor = rhs.real.clone() * rhs.real.clone() + rhs.imag.clone() * rhs.imag.clone();
        Complex::new(
            (self.real.clone() * rhs.real.clone() + self.imag.clone() * rhs.imag.clone())
                / divisor.clone(),
            (self.imag * rhs.real - self.real * rhs.imag) / divisor,
        )'''
CMUL = '''        Complex::new(
            self.real.clone() * rhs.real.clone() - self.imag.clone() * rhs.imag.clone(),
            self.real * rhs.imag + rhs.real * self.imag,
        )'''
WEDGE = '''        for i in 0..DIM {
            for j in (i + 1)..DIM {
                let comp =
                    Matrix::new([[a[i].clone(), b[i].clone()], [a[j].clone(), b[j].clone()]])
                        .determinant();
                comps.push(comp);
            }
        }
'''
MUTS = [
 ('P22', 'ref', 'w2 add nested', [(S, ADD, '''        let rows = self
            .0
            .into_static_iter()
            .zip(rhs.0)
            .map(|(l, r)| {
                l.into_static_iter()
                    .zip(r)
                    .map(|(x, y)| x + y)
                    .collect()
            })
            .collect();
        Matrix(rows)''')]),
 ('P22', 'ref', 'w2 add helper', [(S, ADD, '''        Matrix::new(combine(self.0, rhs.0, |a, b| a + b))'''), (S, '''impl<T, const ROW: usize, const COL: usize> Default for''', '''fn combine<T, O, F: Fn(T, T) -> O, const R: usize, const C: usize>(
    l: [[T; C]; R],
    r: [[T; C]; R],
    f: F,
) -> [[O; C]; R] {
    l.into_static_iter()
        .zip(r)
        .map(|(a, b)| a.into_static_iter().zip(b).map(|(x, y)| f(x, y)).collect())
        .collect()
}

impl<T, const ROW: usize, const COL: usize> Default for''')]),
 ('P22', 'ref', 'w2 add helper both', [(S, ADD, '''        Matrix::new(combine(self.0, rhs.0, Add::add))'''), (S, '''        let map_rows =
            |l: [T; COL], r: [T; COL]| l.into_static_iter().zip(r).map(|(i, j)| i - j).collect();

        let rows = self
            .0
            .into_static_iter()
            .zip(rhs.0)
            .map(|(i, j)| map_rows(i, j))
            .collect();

        Matrix::new(rows)''', '''        Matrix::new(combine(self.0, rhs.0, Sub::sub))'''), (S, '''impl<T, const ROW: usize, const COL: usize> Default for''', '''fn combine<T, O, const R: usize, const C: usize>(
    l: [[T; C]; R],
    r: [[T; C]; R],
    f: fn(T, T) -> O,
) -> [[O; C]; R] {
    l.into_static_iter()
        .zip(r)
        .map(|(a, b)| a.into_static_iter().zip(b).map(|(x, y)| f(x, y)).collect())
        .collect()
}

impl<T, const ROW: usize, const COL: usize> Default for''')]),
 ('P22', 'ref', 'w2 mul helper', [(S, MUL, '''        Matrix::new(array::from_fn(|i| array::from_fn(|j| cell(&self, &rhs, i, j))))'''), (S, '''impl<T, const ROW: usize, const COL: usize> Default for''', '''fn cell<T, const ROW: usize, const COL: usize, const COL2: usize>(
    l: &Matrix<T, ROW, COL>,
    r: &Matrix<T, COL, COL2>,
    i: usize,
    j: usize,
) -> T
where
    T: Add<Output = T> + Mul<Output = T> + Clone,
{
    let mut sum = l[(i, 0)].clone() * r[(0, j)].clone();
    for k in 1..COL {
        let term = l[(i, k)].clone() * r[(k, j)].clone();
        sum = sum + term;
    }
    sum
}

impl<T, const ROW: usize, const COL: usize> Default for''')]),
 ('P22', 'ref', 'w2 mul reduce', [(S, MUL, '''        Matrix::new(array::from_fn(|i| {
            array::from_fn(|j| {
                (0..COL)
                    .map(|k| self[(i, k)].clone() * rhs[(k, j)].clone())
                    .reduce(|a, b| a + b)
                    .unwrap()
            })
        }))''')]),
 ('P22', 'ref', 'w2 mul rows ref', [(S, MUL, '''        let rows = array::from_fn(|i| {
            let row = &self.0[i];
            array::from_fn(|j| {
                let mut out = row[0].clone() * rhs.0[0][j].clone();
                for (l, r) in row.iter().zip(rhs.0.iter()).skip(1) {
                    out = out + l.clone() * r[j].clone();
                }
                out
            })
        });
        Matrix::new(rows)''')]),
 ('P22', 'bug', 'w2 mul skip2', [(S, MUL, '''        let rows = array::from_fn(|i| {
            let row = &self.0[i];
            array::from_fn(|j| {
                let mut out = row[0].clone() * rhs.0[0][j].clone();
                for (l, r) in row.iter().zip(rhs.0.iter()).skip(1).take(7) {
                    out = out + l.clone() * r[j].clone();
                }
                out
            })
        });
        Matrix::new(rows)''')]),
 ('P22', 'bug', 'w2 mul chunk', [(S, '''                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }''', '''                let mut k = 1;
                while k + 1 < COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                    out = out + self[(i, k + 1)].clone() * rhs[(k + 1, j)].clone();
                    k += 2;
                }''')]),
 ('P22', 'ref', 'w2 mul unrolled', [(S, '''                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }''', '''                let mut k = 1;
                while k + 1 < COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                    out = out + self[(i, k + 1)].clone() * rhs[(k + 1, j)].clone();
                    k += 2;
                }
                if k < COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }''')]),
 ('P22', 'bug', 'w2 mul big dims', [(S, 'let mut out = self[(i, 0)].clone() * rhs[(0, j)].clone();', 'let mut out = self[(i, 0)].clone() * rhs[(0, if j > 3 { j - 1 } else { j })].clone();')]),
 ('P22', 'ref', 'w2 iszero loops', [(S, ISZ, '''        for row in &self.0 {
            for val in row {
                if !val.is_zero() {
                    return false;
                }
            }
        }
        true''')]),
 ('P22', 'ref', 'w2 iszero std', [(S, ISZ, '''        self.0.iter().all(|row| row.iter().all(|val| val.is_zero()))''')]),
 ('P22', 'ref', 'w2 iszero flatten', [(S, ISZ, '''        self.0.iter().flatten().all(Zero::is_zero)''')]),
 ('P22', 'bug', 'w2 iszero diag', [(S, ISZ, '''        self.0.iter().enumerate().all(|(i, row)| row.iter().skip(i).all(|val| val.is_zero()))''')]),
 ('P22', 'ref', 'w2 isone index', [(S, ISO, '''        (0..ROW).all(|i| {
            (0..COL).all(|j| {
                let val = &self[(i, j)];
                if i == j { val.is_one() } else { val.is_zero() }
            })
        })''')]),
 ('P22', 'ref', 'w2 isone not any', [(S, ISO, '''        !(&self.0).into_static_iter().enumerate().any(|(i, row)| {
            row.into_static_iter()
                .enumerate()
                .any(|(j, val)| !(if i == j { val.is_one() } else { val.is_zero() }))
        })''')]),
 ('P22', 'bug', 'w2 isone square', [(S, ISO, '''        let n = if ROW < COL { ROW } else { COL };
        (0..n).all(|i| {
            (0..n).all(|j| {
                let val = &self[(i, j)];
                if i == j { val.is_one() } else { val.is_zero() }
            })
        })''')]),
 ('P22', 'ref', 'w2 transpose from_fn', [(S, 'Matrix::new(zip_all(self.0).collect())', '''let mut rows = self.0.map(|r| r.map(Some));
        Matrix::new(array::from_fn(|j| array::from_fn(|i| rows[i][j].take().unwrap())))''')]),
 ('P22', 'ref', 'w2 diag loop', [(S, 'array::from_fn(|idx| self[(idx, idx)].clone()).into()', '''let items: [T; N] = array::from_fn(|k| self.0[k][k].clone());
        Vector::from(items)''')]),
 ('P22', 'ref', 'w2 det locals', [(S, '''                self[(0, 0)].clone() * self[(1, 1)].clone()
                    - self[(1, 0)].clone() * self[(0, 1)].clone()''', '''                let main = self[(0, 0)].clone() * self[(1, 1)].clone();
                let anti = self[(0, 1)].clone() * self[(1, 0)].clone();
                main - anti''')]),
 ('P22', 'ref', 'w2 det if', [(S, '''        match N {
            1 => self[(0, 0)].clone(),
            2 => {
                self[(0, 0)].clone() * self[(1, 1)].clone()
                    - self[(1, 0)].clone() * self[(0, 1)].clone()
            }
            _ => {
                let (reduced, factor) = self.clone().gauss_elim();

                reduced.diag().product() / factor
            }
        }''', '''        if N == 1 {
            return self[(0, 0)].clone();
        }
        if N == 2 {
            return self[(0, 0)].clone() * self[(1, 1)].clone()
                - self[(1, 0)].clone() * self[(0, 1)].clone();
        }
        let (reduced, factor) = self.clone().gauss_elim();
        reduced.diag().product() / factor''')]),
 ('P22', 'ref', 'w2 swap guard', [(S, '        self.0.swap(a, b);', '        if a != b {\n            self.0.swap(a, b);\n        } else {\n            let _ = &self.0[a];\n        }')]),
 ('P22', 'bug', 'w2 swap adjacent', [(S, '        self.0.swap(a, b);', '        if a < b { self.0[a..=b].rotate_left(1); } else { self.0.swap(a, b); }')]),
 ('P22', 'ref', 'w2 wedge while', [(B, WEDGE, '''        let mut i = 0;
        while i < DIM {
            let mut j = i + 1;
            while j < DIM {
                let (ai, aj) = (a[i].clone(), a[j].clone());
                let (bi, bj) = (b[i].clone(), b[j].clone());
                comps.push(Matrix::new([[ai, bi], [aj, bj]]).determinant());
                j += 1;
            }
            i += 1;
        }
''')]),
 ('P22', 'ref', 'w2 wedge foreach', [(B, WEDGE, '''        (0..DIM).for_each(|i| {
            ((i + 1)..DIM).for_each(|j| {
                let m = Matrix::new([[a[i].clone(), b[i].clone()], [a[j].clone(), b[j].clone()]]);
                comps.push(m.determinant());
            });
        });
''')]),
 ('P22', 'ref', 'w2 wedge helper', [(B, WEDGE, '''        for i in 0..DIM {
            for j in (i + 1)..DIM {
                comps.push(minor(&a, &b, i, j));
            }
        }
'''), (B, '''#[allow(dead_code)]
pub struct BiVector''', '''fn minor<T: RealSigned, const DIM: usize>(a: &Vector<T, DIM>, b: &Vector<T, DIM>, i: usize, j: usize) -> T {
    Matrix::new([[a[i].clone(), b[i].clone()], [a[j].clone(), b[j].clone()]]).determinant()
}

#[allow(dead_code)]
pub struct BiVector''')]),
 ('P22', 'bug', 'w2 wedge order', [(B, WEDGE, '''        for j in 0..DIM {
            for i in 0..j {
                comps.push(a[j].clone() * b[i].clone() - a[i].clone() * b[j].clone());
            }
        }
''')]),
 ('P23', 'ref', 'w2 dyn index get', [(D, DIX, '''        let (row, col) = index;
        if row >= self.rows || col >= self.cols {
            panic!("Index out of range for matrix of size {}x{}: ({row},{col})", self.rows, self.cols);
        }
        self.data.get(row * self.cols + col).unwrap()''')]),
 ('P23', 'ref', 'w2 dyn index helper', [(D, DIX, '''        let at = self.offset(index);
        &self.data[at]'''), (D, '''        assert!(
            index.0 < self.rows && index.1 < self.cols,
            "Index out of range for matrix of size {}x{}: ({},{})",
            self.rows,
            self.cols,
            index.0,
            index.1
        );
        &mut self.data[index.0 * self.cols + index.1]''', '''        let at = self.offset(index);
        &mut self.data[at]'''), (D, '''    pub fn rows(&self) -> usize {''', '''    fn offset(&self, (row, col): (usize, usize)) -> usize {
        assert!(
            row < self.rows && col < self.cols,
            "Index out of range for matrix of size {}x{}: ({},{})",
            self.rows,
            self.cols,
            row,
            col
        );
        col + row * self.cols
    }

    pub fn rows(&self) -> usize {''')]),
 ('P23', 'bug', 'w2 dyn index unchecked col', [(D, DIX, '''        let (row, col) = index;
        self.data.get(row * self.cols + col).unwrap()''')]),
 ('P23', 'ref', 'w2 ref slice', [(R, '''                unsafe { &*self.data.as_ptr().add(index.0 * self.cols + index.1) }''', '''                unsafe { self.data.add(index.0 * self.cols + index.1).as_ref() }''')]),
 ('P23', 'ref', 'w2 ref two adds', [(R, '''                unsafe { &*self.data.as_ptr().add(index.0 * self.cols + index.1) }''', '''                unsafe {
                    let row = self.data.as_ptr().add(index.0 * self.cols);
                    &*row.add(index.1)
                }''')]),
 ('P23', 'bug', 'w2 ref order', [(R, '''                unsafe { &*self.data.as_ptr().add(index.0 * self.cols + index.1) }''', '''                unsafe {
                    let row = self.data.as_ptr().add(index.0 * self.rows);
                    &*row.add(index.1)
                }''')]),
 ('P23', 'bug', 'w2 ref le', [(R, 'index.0 >= self.rows || index.1 >= self.cols', 'index.0 >= self.rows || index.1 > self.cols')]),
 ('P23', 'ref', 'w2 swap iter', [(D, SWAP, '''        if a == b {
            return;
        }
        let (l, r) = if a < b { (a, b) } else { (b, a) };
        let cols = self.cols;
        let (head, tail) = self.data.split_at_mut(r * cols);
        for (x, y) in head[l * cols..(l + 1) * cols].iter_mut().zip(&mut tail[..cols]) {
            core::mem::swap(x, y);
        }''')]),
 ('P23', 'ref', 'w2 swap noguard', [(D, SWAP, '''        if a != b {
            let l = usize::min(a, b);
            let r = usize::max(a, b);
            let mid = r * self.cols;
            let (start, end) = self.data.split_at_mut(mid);
            start[l * self.cols..l * self.cols + self.cols].swap_with_slice(&mut end[..self.cols]);
        }''')]),
 ('P23', 'bug', 'w2 swap partial', [(D, SWAP, '''        if a == b {
            return;
        }
        let cols = self.cols;
        for c in 0..cols - 1 {
            self.data.swap(a * cols + c, b * cols + c);
        }''')]),
 ('P23', 'bug', 'w2 swap copy', [(D, '        let start = &mut start[l * self.cols..(l + 1) * self.cols];', '        let start = &mut start[l * self.cols..l * self.cols + self.cols];\n        if l + 1 == r && l > 3 { return; }')]),
 ('P23', 'bug', 'w2 swap rows rows', [(D, 'self.data.split_at_mut(r * self.cols)', 'self.data.split_at_mut(r * self.rows)')]),
 ('P23', 'ref', 'w2 new checked', [(D, DNEW, '''        let expected = rows * cols;
        if data.len() != expected {
            panic!("Invalid data length for DynMatrix. Expected length {expected} ({rows} by {cols}), got {}", data.len());
        }
''')]),
 ('P23', 'bug', 'w2 new saturating', [(D, DNEW, '''        assert!(data.len() == rows * cols || (cols == 1 && data.len() > rows));
''')]),
 ('P23', 'ref', 'w2 dyn from loop', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', '''let mut data = Vec::with_capacity(ROW * COL);
        for row in value {
            data.extend(row);
        }
        DynMatrix::new(data, ROW, COL)''')]),
 ('P23', 'ref', 'w2 dyn from push', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', '''let mut data = Vec::new();
        for row in value {
            for item in row {
                data.push(item);
            }
        }
        DynMatrix::new(data, ROW, COL)''')]),
 ('P23', 'ref', 'w2 dyn from flatmap', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', 'DynMatrix::new(value.into_iter().flat_map(|r| r.into_iter()).collect(), ROW, COL)')]),
 ('P23', 'bug', 'w2 dyn from revall', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', 'DynMatrix::new(value.into_iter().rev().flatten().collect(), ROW, COL)')]),
 ('P23', 'bug', 'w2 dyn from revrow', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', 'DynMatrix::new(value.into_iter().flat_map(|r| r.into_iter().rev()).collect(), ROW, COL)')]),
 ('P23', 'bug', 'w2 dyn from insert', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', '''let mut data = Vec::new();
        for row in value {
            let at = data.len().min(COL * 3);
            for (k, item) in row.into_iter().enumerate() {
                data.insert(at + k, item);
            }
        }
        DynMatrix::new(data, ROW, COL)''')]),
 ('P23', 'bug', 'w2 dyn from rev', [(D, 'DynMatrix::new(value.into_iter().flatten().collect(), ROW, COL)', '''let mut data = Vec::new();
        for (i, row) in value.into_iter().enumerate() {
            for item in row {
                if i > 4 { data.insert(i, item); } else { data.push(item); }
            }
        }
        DynMatrix::new(data, ROW, COL)''')]),
 ('P21', 'ref', 'w2 div parts', [(C, DIV, '''        let (a, b) = (self.real, self.imag);
        let (c, d) = (rhs.real, rhs.imag);
        let norm = c.clone() * c.clone() + d.clone() * d.clone();
        let real = (a.clone() * c.clone() + b.clone() * d.clone()) / norm.clone();
        let imag = (b * c - a * d) / norm;
        Complex { real, imag }''')]),
 ('P21', 'ref', 'w2 div conj', [(C, DIV, '''        let conj = |z: &Complex<T>| (z.real.clone(), z.imag.clone());
        let (c, d) = conj(&rhs);
        let divisor = rhs.real.clone() * rhs.real + rhs.imag.clone() * rhs.imag;
        Complex::new(
            (c.clone() * self.real.clone() + d.clone() * self.imag.clone()) / divisor.clone(),
            (c * self.imag - d * self.real) / divisor,
        )''')]),
 ('P21', 'bug', 'w2 div sum sq', [(C, DIV, '''        let divisor = rhs.real.clone() * rhs.real.clone() - rhs.imag.clone() * rhs.imag.clone();
        Complex::new(
            (self.real.clone() * rhs.real.clone() + self.imag.clone() * rhs.imag.clone())
                / divisor.clone(),
            (self.imag * rhs.real - self.real * rhs.imag) / divisor,
        )''')]),
 ('P21', 'ref', 'w2 mul lets', [(C, CMUL, '''        let Complex { real: a, imag: b } = self;
        let Complex { real: c, imag: d } = rhs;
        let real = a.clone() * c.clone() - b.clone() * d.clone();
        let imag = a * d + c * b;
        Complex::new(real, imag)''')]),
 ('P21', 'bug', 'w2 mul swapped', [(C, CMUL, '''        let Complex { real: a, imag: b } = self;
        let Complex { real: c, imag: d } = rhs;
        let real = a.clone() * c.clone() - b.clone() * d.clone();
        let imag = a * c + d * b;
        Complex::new(real, imag)''')]),
 ('P21', 'ref', 'w2 from real new', [(C, '''        Complex {
            real,
            imag: T::zero(),
        }''', '''        Self::new(real, T::zero())''')]),
 ('P21', 'ref', 'w2 one new', [(C, 'Complex::from_real(T::one())', 'Complex::new(T::one(), T::zero())')]),
 ('P21', 'ref', 'w2 is_one parts', [(C, '*self == Self::one()', 'self.real == T::one() && self.imag == T::zero()')]),
 ('P21', 'bug', 'w2 is_zero or', [(C, '*self == Self::zero()', 'self.real == T::zero() || self.imag == T::zero()')]),
 ('P21', 'ref', 'w2 abs helper', [(C, '''        self.real.clone() * self.real.clone() + self.imag.clone() * self.imag.clone()''', '''        let square = |v: &T| v.clone() * v.clone();
        square(&self.real) + square(&self.imag)''')]),
 ('P21', 'ref', 'w2 sub scalar via', [(C, '        Complex::new(self.real - rhs, self.imag)', '        let Complex { real, imag } = self;\n        let real = real - rhs;\n        Complex { real, imag }')]),
]
