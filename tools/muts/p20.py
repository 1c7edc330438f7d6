V = 'crates/compounds/src/vector.rs'
C = 'crates/compounds/src/complex.rs'
S = 'crates/compounds/src/matrix/static.rs'
D = 'crates/compounds/src/matrix/dynamic.rs'
R = 'crates/compounds/src/matrix/refs.rs'
B = 'crates/compounds/src/bivec.rs'
MUTS = [
 ('P20', 'bug', 'scalar op swapped', [(V, 'Vector(self.0.map(|a| a $op rhs.clone()))', 'Vector(self.0.map(|a| rhs.clone() $op a))')]),
 ('P20', 'bug', 'distance plus', [(V, '.map(|(l, r)| (l - r).pow(two.clone()))', '.map(|(l, r)| (l + r).pow(two.clone()))')]),
 ('P20', 'bug', 'distance pow one', [(V, 'let two = T::one() + T::one();', 'let two = T::one();')]),
 ('P20', 'bug', 'dot skip', [(V, 'Iterator::zip(lhs.0.into_iter(), rhs.0)\n            .map(|(l, r)| l * r)', 'Iterator::zip(lhs.0.into_iter(), rhs.0).skip(1)\n            .map(|(l, r)| l * r)')]),
 ('P20', 'bug', 'dot fold one', [(V, '.map(|(l, r)| l * r)\n            .fold(T::zero()', '.map(|(l, r)| l * r)\n            .fold(T::one()')]),
 ('P20', 'bug', 'cross sign', [(V, 'Vector::new([x1 - x2, y1 - y2, z1 - z2])', 'Vector::new([x1 - x2, y2 - y1, z1 - z2])')]),
 ('P20', 'bug', 'cross idx', [(V, 'let z2 = self.y().clone() * other.x().clone();', 'let z2 = self.y().clone() * other.y().clone();')]),
 ('P20', 'bug', 'w accessor', [(V, '&mut self.0[3]', '&mut self.0[2]')]),
 ('P20', 'bug', 'set z in 4', [(V, 'self.0[2] = val;', 'self.0[1] = val;', 2)]),
 ('P20', 'bug', 'is_zero any', [(V, '(&self.0).into_static_iter().all(T::is_zero)', '(&self.0).into_static_iter().any(T::is_zero)')]),
 ('P20', 'bug', 'checked sub add', [(V, '.map(|(l, r)| l.checked_sub(r))', '.map(|(l, r)| r.checked_sub(l))')]),
 ('P20', 'bug', 'index off', [(V, '&mut self.0[index]', '&mut self.0[index % N]')]),
 ('P20', 'bug', 'assign skip', [(V, '                self.0.iter_mut()\n                    .for_each(|l| *l $op rhs)', '                self.0.iter_mut().skip(1)\n                    .for_each(|l| *l $op rhs)')]),
 ('P20', 'bug', 'into_column', [(V, '.map(|i| [i])\n            .collect();\n        Matrix::new(rows)', '.map(|i| [i])\n            .collect();\n        let mut m = Matrix::new(rows);\n        if N > 4 { m.swap_rows(0, 1); }\n        m')]),
 ('P20', 'ref', 'dot loop', [(V, '''        Iterator::zip(lhs.0.into_iter(), rhs.0)
            .map(|(l, r)| l * r)
            .fold(T::zero(), |acc, val| acc + val)''', '''        let mut acc = T::zero();
        for (l, r) in Iterator::zip(lhs.0.into_iter(), rhs.0) {
            acc = l * r + acc;
        }
        acc''')]),
 ('P20', 'ref', 'dot index loop', [(V, '''        Iterator::zip(lhs.0.into_iter(), rhs.0)
            .map(|(l, r)| l * r)
            .fold(T::zero(), |acc, val| acc + val)''', '''        let mut acc = T::zero();
        let mut k = 0;
        while k < N {
            acc = acc + lhs[k].clone() * rhs[k].clone();
            k += 1;
        }
        acc''')]),
 ('P20', 'ref', 'distance mul', [(V, '''        let two = T::one() + T::one();

        Iterator::zip(lhs.0.into_iter(), rhs.0)
            .map(|(l, r)| (l - r).pow(two.clone()))''', '''        Iterator::zip(lhs.0.into_iter(), rhs.0)
            .map(|(l, r)| { let d = l - r; d.clone() * d })''')]),
 ('P20', 'ref', 'op from_fn', [(V, '''                let new = self.0.into_static_iter()
                    .zip((&rhs.0).into_static_iter())
                    .map(|(l, r)| l $op r)
                    .collect();
                Vector(new)''', '''                let mut it = rhs.0.iter();
                Vector(self.0.map(|l| l $op it.next().unwrap()))''')]),
 ('P20', 'ref', 'assign loop', [(V, '                self.0.iter_mut()\n                    .for_each(|l| *l $op rhs)', '                for l in self.0.iter_mut() { *l $op rhs; }')]),
 ('P20', 'ref', 'assign idx loop', [(V, '                self.0.iter_mut()\n                    .for_each(|l| *l $op rhs.clone())', '                for k in 0..N { self.0[k] $op rhs.clone(); }')]),
 ('P20', 'ref', 'is_zero loop', [(V, '(&self.0).into_static_iter().all(T::is_zero)', 'for v in &self.0 { if !v.is_zero() { return false; } }\n        true')]),
 ('P20', 'ref', 'is_zero not any', [(V, '(&self.0).into_static_iter().all(T::is_zero)', '!self.0.iter().any(|v| !v.is_zero())')]),
 ('P20', 'ref', 'zero via zeroed', [(V, '''    fn zero() -> Self {
        Vector(array::from_fn(|_| T::zero()))''', '''    fn zero() -> Self {
        Vector::zeroed()''')]),
 ('P20', 'ref', 'cross reorder', [(V, '''        let z1 = self.x().clone() * other.y().clone();
        let z2 = self.y().clone() * other.x().clone();

        Vector::new([x1 - x2, y1 - y2, z1 - z2])''', '''        let z2 = self.y().clone() * other.x().clone();
        let z1 = other.y().clone() * self.x().clone();
        let z = z1 - z2;
        Vector::from_xyz(x1 - x2, y1 - y2, z)''')]),
 ('P20', 'ref', 'sum loop', [(V, 'self.0.into_static_iter().sum()', 'let mut out = T::zero();\n        for v in self.0 { out = out + v; }\n        out')]),
 ('P20', 'ref', 'sum dot', [(V, 'self.0.into_static_iter().sum()', 'self.0.into_iter().fold(T::zero(), |a, b| b + a)')]),
 ('P20', 'ref', 'from_scalar map', [(V, 'let arr = core::array::from_fn(|_| val.clone());\n        Vector::new(arr)', 'Vector::new([(); N].map(|_| val.clone()))')]),
 ('P20', 'ref', 'setter via mut', [(V, 'pub fn set_w(&mut self, val: T) {\n        self.0[3] = val;', 'pub fn set_w(&mut self, val: T) {\n        *self.w_mut() = val;')]),
 ('P21', 'bug', 'mul sign', [(C, '- self.imag.clone() * rhs.imag.clone(),\n            self.real', '- self.imag.clone() * rhs.real.clone(),\n            self.real')]),
 ('P21', 'bug', 'div imag', [(C, '(self.imag * rhs.real - self.real * rhs.imag) / divisor', '(self.real * rhs.imag - self.imag * rhs.real) / divisor')]),
 ('P21', 'bug', 'scalar div', [(C, '(self.imag * rhs) / divisor', 'self.imag / divisor')]),
 ('P21', 'bug', 'scalar sub', [(C, 'Complex::new(self.real - rhs, self.imag)', 'Complex::new(rhs - self.real, self.imag)')]),
 ('P21', 'bug', 'is_one', [(C, '*self == Self::one()', 'self.real == T::one()')]),
 ('P21', 'bug', 'abs', [(C, 'self.real.clone() * self.real.clone() + self.imag.clone() * self.imag.clone()\n    }', 'self.real.clone() * self.real.clone() - self.imag.clone() * self.imag.clone()\n    }')]),
 ('P21', 'ref', 'div temp', [(C, '''        Complex::new(
            (self.real.clone() * rhs.real.clone() + self.imag.clone() * rhs.imag.clone())
                / divisor.clone(),
            (self.imag * rhs.real - self.real * rhs.imag) / divisor,
        )''', '''        let re = rhs.imag.clone() * self.imag.clone() + rhs.real.clone() * self.real.clone();
        let im = self.imag * rhs.real - rhs.imag * self.real;
        Complex::new(re / divisor.clone(), im / divisor)''')]),
 ('P21', 'ref', 'scalar div direct', [(C, '''        let divisor = rhs.clone() * rhs.clone();
        Complex::new(
            (self.real.clone() * rhs.clone()) / divisor.clone(),
            (self.imag * rhs) / divisor,
        )''', '''        Complex::new(self.real / rhs.clone(), self.imag / rhs)''')]),
 ('P21', 'ref', 'is_zero parts', [(C, '*self == Self::zero()', 'self.real == T::zero() && self.imag.is_zero()')]),
 ('P22', 'bug', 'mul index', [(S, 'out = out + self[(i, k)].clone() * rhs[(k, j)].clone();', 'out = out + self[(i, k)].clone() * rhs[(j, k)].clone();')]),
 ('P22', 'bug', 'mul from 2', [(S, 'for k in 1..COL {', 'for k in 2..COL {')]),
 ('P22', 'bug', 'mul last', [(S, 'for k in 1..COL {', 'for k in 1..COL.min(8) {')]),
 ('P22', 'bug', 'sub plus', [(S, '.map(|(i, j)| i - j)', '.map(|(i, j)| j - i)')]),
 ('P22', 'bug', 'one everywhere', [(S, 'if i == j { T::one() } else { T::zero() }', 'if i <= j { T::one() } else { T::zero() }')]),
 ('P22', 'bug', 'is_one', [(S, '''                    val.is_zero()
                }''', '''                    val.is_zero() || i > j
                }''')]),
 ('P22', 'bug', 'det', [(S, '- self[(1, 0)].clone() * self[(0, 1)].clone()', '- self[(1, 0)].clone() * self[(1, 1)].clone()')]),
 ('P22', 'bug', 'wedge', [(B, '[[a[i].clone(), b[i].clone()], [a[j].clone(), b[j].clone()]]', '[[a[j].clone(), b[j].clone()], [a[i].clone(), b[i].clone()]]')]),
 ('P22', 'bug', 'diag', [(S, 'self[(idx, idx)].clone()', 'self[(idx, N - 1 - idx)].clone()')]),
 ('P22', 'ref', 'mul fold', [(S, '''                let mut out = self[(i, 0)].clone() * rhs[(0, j)].clone();
                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }
                out''', '''                let mut out = rhs[(0, j)].clone() * self[(i, 0)].clone();
                let mut k = 1;
                while k < COL {
                    let p = self[(i, k)].clone() * rhs[(k, j)].clone();
                    out = p + out;
                    k += 1;
                }
                out''')]),
 ('P22', 'ref', 'mul iter', [(S, '''                let mut out = self[(i, 0)].clone() * rhs[(0, j)].clone();
                for k in 1..COL {
                    out = out + self[(i, k)].clone() * rhs[(k, j)].clone();
                }
                out''', '''                let first = self[(i, 0)].clone() * rhs[(0, j)].clone();
                (1..COL).fold(first, |acc, k| acc + self[(i, k)].clone() * rhs[(k, j)].clone())''')]),
 ('P22', 'ref', 'is_one iter', [(S, '''        (&self.0).into_static_iter().enumerate().all(|(i, row)| {
            row.into_static_iter().enumerate().all(|(j, val)| {
                if i == j {
                    val.is_one()
                } else {
                    val.is_zero()
                }
            })
        })''', '''        for (i, row) in self.0.iter().enumerate() {
            for (j, val) in row.iter().enumerate() {
                let ok = if i != j { val.is_zero() } else { val.is_one() };
                if !ok {
                    return false;
                }
            }
        }
        true''')]),
 ('P22', 'ref', 'transpose', [(S, 'Matrix::new(zip_all(self.0).collect())', 'let rows = zip_all(self.0).collect();\n        Matrix(rows)')]),
 ('P22', 'ref', 'wedge direct', [(B, '''                let comp =
                    Matrix::new([[a[i].clone(), b[i].clone()], [a[j].clone(), b[j].clone()]])
                        .determinant();
                comps.push(comp);''', '''                comps.push(a[i].clone() * b[j].clone() - b[i].clone() * a[j].clone());''')]),
 ('P23', 'bug', 'dyn index stride', [(D, '&mut self.data[index.0 * self.cols + index.1]', '&mut self.data[index.0 * self.rows + index.1]')]),
 ('P23', 'bug', 'dyn index guard', [(D, 'index.0 < self.rows && index.1 < self.cols', 'index.0 < self.rows && index.1 < self.data.len()')]),
 ('P23', 'bug', 'mut guard', [(R, 'index.0 < self.rows && index.1 < self.cols', 'index.0 < self.rows || index.1 < self.cols')]),
 ('P23', 'bug', 'ref guard', [(R, 'index.0 >= self.rows || index.1 >= self.cols', 'index.0 * self.cols + index.1 >= self.rows * self.cols')]),
 ('P23', 'bug', 'view dims', [(R, 'MatrixMut::new(value.as_mut_ptr(), ROW, COL)', 'MatrixMut::new(value.as_mut_ptr(), COL, ROW)')]),
 ('P23', 'bug', 'swap wrong', [(D, 'let l = usize::min(a, b);', 'let l = if a < b { a } else { b.saturating_sub(usize::from(a > b + 8)) };')]),
 ('P23', 'bug', 'new check', [(D, '''        assert_eq!(
            data.len(),
            rows * cols,''', '''        debug_assert!(
            data.len() >= rows * cols,''')]),
 ('P23', 'bug', 'rows cols', [(D, 'DynMatrix { data, rows, cols }', 'DynMatrix { data, rows: cols, cols: rows }')]),
 ('P23', 'ref', 'ref helper', [(R, '''                unsafe { &*self.data.as_ptr().add(index.0 * self.cols + index.1) }''', '''                let offset = index.1 + self.cols * index.0;
                unsafe { &*self.data.as_ptr().add(offset) }''')]),
 ('P23', 'ref', 'ref guard assert', [(R, '''                if index.0 >= self.rows || index.1 >= self.cols {
                    panic!(
                        "Index out of range for matrix of size {}x{}: ({},{})",
                        self.rows, self.cols, index.0, index.1
                    );
                }
''', '''                assert!(!(index.0 >= self.rows) && index.1 < self.cols, "Index out of range");
''')]),
 ('P23', 'ref', 'dyn tuple', [(D, '''        assert!(
            index.0 < self.rows && index.1 < self.cols,
            "Index out of range for matrix of size {}x{}: ({},{})",
            self.rows,
            self.cols,
            index.0,
            index.1
        );
        &self.data[index.0 * self.cols + index.1]''', '''        let (row, col) = index;
        if row >= self.rows { panic!("row out of range"); }
        if col >= self.cols { panic!("col out of range"); }
        let at = row * self.cols + col;
        &self.data[at]''')]),
 ('P23', 'ref', 'swap minmax', [(D, '''        let l = usize::min(a, b);
        let r = usize::max(a, b);''', '''        let (l, r) = if a < b { (a, b) } else { (b, a) };''')]),
 ('P23', 'ref', 'swap loop', [(D, '''        let l = usize::min(a, b);
        let r = usize::max(a, b);
        let (start, end) = self.data.split_at_mut(r * self.cols);
        let start = &mut start[l * self.cols..(l + 1) * self.cols];
        let end = &mut end[..self.cols];
        start.swap_with_slice(end);''', '''        for c in 0..self.cols {
            self.data.swap(a * self.cols + c, b * self.cols + c);
        }''')]),
]
