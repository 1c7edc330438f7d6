U = 'crates/ints/src/u.rs'
I = 'crates/ints/src/i.rs'
XOR = '''        let new = self
            .0
            .into_static_iter()
            .zip(rhs.0.into_static_iter())
            .map(|(l, r)| l ^ r)
            .collect();
'''
AND_ = XOR.replace('^', '&')
OR_ = XOR.replace('^', '|')
CAST1 = '''                let mut arr = [0; SIZE];
                if const { N <= SIZE } {
                    for i in 0..N {
                        arr[i] = val.0[i];
                    }
                    Some(<$num>::from_le_bytes(arr))
                } else {
                    for i in 0..N {
                        if i < SIZE {
                            arr[i] = val.0[i];
                        } else {
                            if val.0[i] != 0 {
                                return None;
                            }
                        }
                    }
                    Some(<$num>::from_le_bytes(arr))
                }
'''
CAST2 = '''                let mut arr = [0; N];
                if N >= SIZE {
                    for i in 0..SIZE {
                        arr[i] = bytes[i];
                    }
                    Some(U::from_le_bytes(arr))
                } else {
                    for i in 0..SIZE {
                        if i < N {
                            arr[i] = bytes[i];
                        } else {
                            if bytes[i] != 0 {
                                return None;
                            }
                        }
                    }
                    Some(U::from_le_bytes(arr))
                }
'''
TRUNC = '''                for i in 0..usize::min(N, SIZE) {
                    arr[i] = val.0[i];
                }
'''
POW = '''        if rhs.is_zero() {
            Self::one()
        } else if self.is_zero() || self.is_one() {
            self
        } else {
            // Any value greater than N will definitely overflow, and N is capped by usize
            let val: usize = usize::from_checked(rhs).unwrap();
            iter::repeat_n(self, val).product()
        }
'''
IDIV = '''        let neg = self.is_negative() != rhs.is_negative();
        self = self.abs();
        rhs = rhs.abs();
        BitwiseDiv::div_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
        if neg {
            self = -self;
        }
        self
'''
IREM = '''        let neg = self.is_negative();
        self = self.abs();
        rhs = rhs.abs();
        BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
        if neg {
            self = -self;
        }
        self
'''
NEG = '''        self.0 = self.0.map(|v| !v);
        self = self + Self::one();
        self
'''
SATADD = '''        match ElementAdd::add_checked(&mut self.0, &rhs.0) {
            Some(_) => self,
            None => Self::max_value(),
        }
'''
ICMP = '''        match self.is_negative().cmp(&other.is_negative()) {
            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
            ord => ord.reverse(),
        }
'''
ISONE = 'self.0[0] == 1 && self.0[1..].iter().all(|&b| b == 0)'
MIN = 'I(array::from_fn(|idx| if idx == N - 1 { 0x80 } else { 0 }))'
MAX = 'I(array::from_fn(|idx| if idx == N - 1 { 0x7F } else { 0xFF }))'
ADD = '''        if cfg!(debug_assertions) {
            self.checked_add(rhs).unwrap()
        } else {
            self.wrapping_add(rhs)
        }
'''
MUL = '''    fn mul(mut self, rhs: Self) -> Self::Output {
        #[cfg(debug_assertions)]
        ElementMul::mul_checked(&mut self.0, &rhs.0).unwrap();
        #[cfg(not(debug_assertions))]
        ElementMul::mul_wrapping(&mut self.0, &rhs.0);
        self
'''
SHLU = '''        let val: usize = usize::from_checked(rhs).unwrap();
        #[cfg(debug_assertions)]
        ElementShl::shl_checked(&mut self.0, val).unwrap();
        #[cfg(not(debug_assertions))]
        ElementShl::shl_wrapping(&mut self.0, val);
        self
'''
SHRU = SHLU.replace('Shl::shl', 'Shr::shr')
REV = None
MUTS = [
 ('P11', 'ref', 'w2 xor loop mut', [(U, XOR, '''        let mut new = self.0;
        for (l, r) in new.iter_mut().zip(rhs.0.iter()) {
            *l ^= *r;
        }
''')]),
 ('P11', 'ref', 'w2 and while', [(U, AND_, '''        let mut new = [0u8; N];
        let mut i = 0;
        while i < N {
            new[i] = self.0[i] & rhs.0[i];
            i += 1;
        }
''')]),
 ('P11', 'ref', 'w2 or helper', [(U, OR_, '''        let new = combine(self.0, rhs.0, |l, r| l | r);
'''), (U, 'impl<const N: usize> BitOr for U<N> {', '''fn combine<const N: usize>(a: [u8; N], b: [u8; N], f: impl Fn(u8, u8) -> u8) -> [u8; N] {
    let mut out = a;
    for (l, r) in out.iter_mut().zip(b) {
        *l = f(*l, r);
    }
    out
}

impl<const N: usize> BitOr for U<N> {''')]),
 ('P11', 'ref', 'w2 xor andor', [(I, XOR, '''        let new = self
            .0
            .into_static_iter()
            .zip(rhs.0.into_static_iter())
            .map(|(l, r)| (l | r) & !(l & r))
            .collect();
''')]),
 ('P11', 'bug', 'w2 xor tail', [(I, XOR, '''        let mut new = self.0;
        for (l, r) in new.iter_mut().zip(rhs.0.iter()).take(64) {
            *l ^= *r;
        }
''')]),
 ('P11', 'bug', 'w2 and chunks', [(U, AND_, '''        let mut new = self.0;
        for (l, r) in new.chunks_exact_mut(4).zip(rhs.0.chunks_exact(4)) {
            for k in 0..4 {
                l[k] &= r[k];
            }
        }
''')]),
 ('P11', 'ref', 'w2 not for', [(U, 'U(self.0.map(|b| !b))', '''let mut out = self.0;
        for b in &mut out {
            *b = !*b;
        }
        U(out)''')]),
 ('P11', 'ref', 'w2 not xor', [(I, 'I(self.0.map(|b| !b))', 'I(self.0.map(|b| b ^ 0xFF))')]),
 ('P11', 'ref', 'w2 pow match', [(U, POW, '''        if rhs.is_zero() {
            return Self::one();
        }
        if self.is_zero() || self.is_one() {
            return self;
        }
        let val: usize = usize::from_checked(rhs).unwrap();
        let mut acc = self;
        for _ in 1..val {
            acc = acc * self;
        }
        acc
''')]),
 ('P11', 'ref', 'w2 pow fold', [(U, 'iter::repeat_n(self, val).product()', '(0..val).fold(U::one(), |acc, _| acc * self)')]),
 ('P11', 'ref', 'w2 product loop', [(U, 'iter.fold(U::one(), |a, b| a * b)', '''let mut out = U::one();
        for v in iter {
            out = out * v;
        }
        out''')]),
 ('P11', 'bug', 'w2 pow off', [(U, 'iter::repeat_n(self, val).product()', '(1..=val.min(4096)).fold(U::one(), |acc, _| acc * self)')]),
 ('P11', 'ref', 'w2 idiv parts', [(I, IDIV, '''        let flip = self.is_negative() ^ rhs.is_negative();
        let mut num = self.abs();
        let den = rhs.abs();
        let mut scratch = [0; N];
        BitwiseDiv::div_long_wrapping(&mut num.0, &den.0, &mut scratch);
        if flip { -num } else { num }
''')]),
 ('P11', 'ref', 'w2 idiv match', [(I, IDIV, '''        let neg = match (self.is_negative(), rhs.is_negative()) {
            (true, false) | (false, true) => true,
            _ => false,
        };
        rhs = rhs.abs();
        self = self.abs();
        BitwiseDiv::div_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
        if !neg {
            return self;
        }
        -self
''')]),
 ('P11', 'ref', 'w2 irem helper', [(I, IREM, '''        let neg = self.is_negative();
        let mut out = rem_magnitude(self.abs(), rhs.abs());
        if neg {
            out = -out;
        }
        out
'''), (I, 'impl<const N: usize> Rem for I<N> {', '''fn rem_magnitude<const N: usize>(mut a: I<N>, b: I<N>) -> I<N> {
    BitwiseDiv::rem_long_wrapping(&mut a.0, &b.0, &mut [0; N]);
    a
}

impl<const N: usize> Rem for I<N> {''')]),
 ('P11', 'bug', 'w2 irem sign', [(I, '''        let neg = self.is_negative();
        self = self.abs();''', '''        let neg = self.is_negative() && !(rhs.is_negative() && self == rhs + rhs + rhs);
        self = self.abs();''')]),
 ('P11', 'bug', 'w2 idiv absself', [(I, IDIV, '''        let neg = self.is_negative() != rhs.is_negative();
        if neg {
            self = self.abs();
            rhs = rhs.abs();
        }
        BitwiseDiv::div_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
        if neg {
            self = -self;
        }
        self
''')]),
 ('P11', 'ref', 'w2 neg zero minus', [(I, NEG, '''        Self::zero() - self
''')]),
 ('P11', 'ref', 'w2 neg carry', [(I, NEG, '''        let inverted = I(self.0.map(|v| !v));
        inverted + Self::one()
''')]),
 ('P11', 'bug', 'w2 neg order', [(I, NEG, '''        self = self + Self::one();
        self.0 = self.0.map(|v| !v);
        self
''')]),
 ('P11', 'ref', 'w2 neg sub first', [(I, NEG, '''        self = self - Self::one();
        self.0 = self.0.map(|v| !v);
        self
''')]),
 ('P11', 'ref', 'w2 sat is_some', [(U, SATADD, '''        if ElementAdd::add_checked(&mut self.0, &rhs.0).is_some() {
            self
        } else {
            Self::max_value()
        }
''')]),
 ('P11', 'ref', 'w2 sat checked', [(U, SATADD, '''        self.checked_add(rhs).unwrap_or_else(Self::max_value)
''')]),
 ('P11', 'ref', 'w2 sat overflow', [(U, SATADD, '''        let (_, overflow) = ElementAdd::add_overflowing(&mut self.0, &rhs.0);
        if overflow { Self::max_value() } else { self }
''')]),
 ('P11', 'bug', 'w2 sat cond', [(U, SATADD, '''        let before = self;
        ElementAdd::add_wrapping(&mut self.0, &rhs.0);
        if self <= before && !rhs.is_zero() && !before.is_zero() && self.0[0] != 0 { Self::max_value() } else { self }
''')]),
 ('P11', 'ref', 'w2 sat less', [(U, SATADD, '''        let before = self;
        ElementAdd::add_wrapping(&mut self.0, &rhs.0);
        if self < before { Self::max_value() } else { self }
''')]),
 ('P11', 'ref', 'w2 is_one enumerate', [(U, ISONE, 'self.0.iter().enumerate().all(|(i, &b)| b == u8::from(i == 0))')]),
 ('P11', 'ref', 'w2 is_one split', [(U, ISONE, 'matches!(self.0.split_first(), Some((1, rest)) if rest.iter().all(|&b| b == 0))')]),
 ('P11', 'bug', 'w2 is_one last', [(I, ISONE, 'self.0[0] == 1 && self.0[1..].iter().take(31).all(|&b| b == 0)')]),
 ('P11', 'ref', 'w2 bounds mut', [(I, MIN, '''let mut out = [0; N];
        out[N - 1] = 0x80;
        I(out)'''), (I, MAX, '''let mut out = [0xFF; N];
        out[N - 1] = 0x7F;
        I(out)''')]),
 ('P11', 'ref', 'w2 max not min', [(I, MAX, '!Self::min_value()')]),
 ('P11', 'ref', 'w2 max last_mut', [(I, MAX, '''let mut out = [u8::MAX; N];
        if let Some(top) = out.last_mut() {
            *top >>= 1;
        }
        I(out)''')]),
 ('P11', 'bug', 'w2 max byte', [(I, MAX, 'I(array::from_fn(|idx| if idx % 64 == (N - 1) % 64 { 0x7F } else { 0xFF }))')]),
 ('P06', 'ref', 'w2 icmp if', [(I, ICMP, '''        let (a, b) = (self.is_negative(), other.is_negative());
        if a == b {
            ElementCmp::cmp(&self.0, &other.0)
        } else if a {
            Ordering::Less
        } else {
            Ordering::Greater
        }
''')]),
 ('P06', 'ref', 'w2 icmp tuple', [(I, ICMP, '''        match (self.is_negative(), other.is_negative()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => ElementCmp::cmp(&self.0, &other.0),
        }
''')]),
 ('P06', 'ref', 'w2 icmp swap', [(I, ICMP, '''        other.is_negative().cmp(&self.is_negative()).then_with(|| ElementCmp::cmp(&self.0, &other.0))
''')]),
 ('P06', 'bug', 'w2 icmp reverse', [(I, ICMP, '''        match (self.is_negative(), other.is_negative()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (true, true) => ElementCmp::cmp(&other.0, &self.0),
            (false, false) => ElementCmp::cmp(&self.0, &other.0),
        }
''')]),
 ('P11', 'ref', 'w2 add cfg attr', [(U, ADD, '''        let checked = self.checked_add(rhs);
        if cfg!(debug_assertions) {
            checked.unwrap()
        } else {
            checked.unwrap_or_else(|| self.wrapping_add(rhs))
        }
''')]),
 ('P11', 'ref', 'w2 add match', [(U, ADD, '''        match self.checked_add(rhs) {
            Some(out) => out,
            None if cfg!(debug_assertions) => panic!("attempt to add with overflow"),
            None => self.wrapping_add(rhs),
        }
''')]),
 ('P11', 'ref', 'w2 mul checked', [(U, MUL, '''    fn mul(mut self, rhs: Self) -> Self::Output {
        if cfg!(debug_assertions) {
            self.checked_mul(rhs).expect("attempt to multiply with overflow")
        } else {
            ElementMul::mul_wrapping(&mut self.0, &rhs.0);
            self
        }
''')]),
 ('P11', 'bug', 'w2 mul small', [(U, MUL, '''    fn mul(mut self, rhs: Self) -> Self::Output {
        if N > 2 && rhs.0[1..].iter().all(|&b| b == 0) {
            let mut carry = 0u8;
            for b in &mut self.0 {
                let wide = u16::from(*b) * u16::from(rhs.0[0]);
                *b = (wide as u8).wrapping_add(carry);
                carry = (wide >> 8) as u8;
            }
            return self;
        }
        #[cfg(debug_assertions)]
        ElementMul::mul_checked(&mut self.0, &rhs.0).unwrap();
        #[cfg(not(debug_assertions))]
        ElementMul::mul_wrapping(&mut self.0, &rhs.0);
        self
''')]),
 ('P11', 'ref', 'w2 shl delegate', [(U, SHLU, '''        let val: usize = usize::from_checked(rhs).unwrap();
        self << val
''')]),
 ('P11', 'ref', 'w2 shr into_checked', [(U, SHRU, '''        let val: Option<usize> = rhs.into_checked();
        self >> val.unwrap()
''')]),
 ('P11', 'bug', 'w2 shl byte', [(U, SHLU, '''        self << usize::from(rhs.0[0])
''')]),
 ('P12', 'ref', 'w2 cast early', [(U, CAST1, '''                if N > SIZE && val.0[SIZE..].iter().any(|&b| b != 0) {
                    return None;
                }
                let mut arr = [0; SIZE];
                for (d, s) in arr.iter_mut().zip(val.0) {
                    *d = s;
                }
                Some(<$num>::from_le_bytes(arr))
''')]),
 ('P12', 'ref', 'w2 cast all', [(U, CAST1, '''                let fits = val.0.iter().skip(SIZE).all(|&b| b == 0);
                let mut arr = [0; SIZE];
                let n = usize::min(N, SIZE);
                arr[..n].copy_from_slice(&val.0[..n]);
                fits.then(|| <$num>::from_le_bytes(arr))
''')]),
 ('P12', 'ref', 'w2 cast enumerate', [(U, CAST1, '''                let mut arr = [0; SIZE];
                for (i, b) in val.0.into_iter().enumerate() {
                    match arr.get_mut(i) {
                        Some(slot) => *slot = b,
                        None if b != 0 => return None,
                        None => {}
                    }
                }
                Some(<$num>::from_le_bytes(arr))
''')]),
 ('P12', 'ref', 'w2 cast rev loop', [(U, CAST1, '''                let mut arr = [0; SIZE];
                for i in (0..N).rev() {
                    if i < SIZE {
                        arr[i] = val.0[i];
                    } else if val.0[i] != 0 {
                        return None;
                    }
                }
                Some(<$num>::from_le_bytes(arr))
''')]),
 ('P12', 'bug', 'w2 cast last', [(U, CAST1, '''                let mut arr = [0; SIZE];
                let n = usize::min(N, SIZE);
                arr[..n].copy_from_slice(&val.0[..n]);
                if N > SIZE && val.0[SIZE..N - 1].iter().any(|&b| b != 0) {
                    return None;
                }
                Some(<$num>::from_le_bytes(arr))
''')]),
 ('P12', 'bug', 'w2 cast window', [(U, CAST1, '''                let fits = val.0.iter().skip(SIZE).take(SIZE).all(|&b| b == 0);
                let mut arr = [0; SIZE];
                let n = usize::min(N, SIZE);
                arr[..n].copy_from_slice(&val.0[..n]);
                fits.then(|| <$num>::from_le_bytes(arr))
''')]),
 ('P12', 'ref', 'w2 into copy', [(U, CAST2, '''                let mut arr = [0; N];
                let n = if N < SIZE { N } else { SIZE };
                arr[..n].copy_from_slice(&bytes[..n]);
                if bytes[n..].iter().any(|&b| b != 0) {
                    None
                } else {
                    Some(U(arr))
                }
''')]),
 ('P12', 'ref', 'w2 into while', [(U, CAST2, '''                let mut arr = [0; N];
                let mut i = 0;
                while i < SIZE {
                    if i < N {
                        arr[i] = bytes[i];
                    } else if bytes[i] > 0 {
                        return None;
                    }
                    i += 1;
                }
                Some(U::from_le_bytes(arr))
''')]),
 ('P12', 'bug', 'w2 into shift', [(U, CAST2, '''                let mut arr = [0; N];
                let n = if N < SIZE { N } else { SIZE };
                arr[..n].copy_from_slice(&bytes[..n]);
                if N < SIZE && (val as u128) >> (8 * (N + 1)) != 0 {
                    None
                } else {
                    Some(U(arr))
                }
''')]),
 ('P12', 'ref', 'w2 trunc copy', [(U, TRUNC, '''                let n = usize::min(N, SIZE);
                arr[..n].copy_from_slice(&val.0[..n]);
''')]),
 ('P12', 'ref', 'w2 trunc if', [(U, TRUNC, '''                for i in 0..SIZE {
                    arr[i] = if i < N { val.0[i] } else { 0 };
                }
''')]),
 ('P12', 'ref', 'w2 trunc get', [(U, TRUNC, '''                for (i, slot) in arr.iter_mut().enumerate() {
                    *slot = val.0.get(i).copied().unwrap_or(0);
                }
''')]),
 ('P12', 'bug', 'w2 trunc high', [(U, TRUNC, '''                let n = usize::min(N, SIZE);
                arr[..n].copy_from_slice(&val.0[N - n..]);
''')]),
 ('P12', 'ref', 'w2 sat match', [(U, '<$num>::from_checked(val).unwrap_or(<$num>::MAX)', '''match <$num>::from_checked(val) {
                    None => <$num>::MAX,
                    Some(v) => v,
                }''')]),
]
