"""third wave: rationals, complex numbers, gcd, fixed-length iteration"""
R = 'crates/reals/src/rat.rs'
F = 'crates/reals/src/fixed.rs'
C = 'crates/compounds/src/complex.rs'
T = 'crates/traits/src/__impl.rs'
A = 'crates/static-iter/src/array.rs'
AD = 'crates/static-iter/src/adapter.rs'
Z = 'crates/static-iter/src/zip_all.rs'
S = 'crates/static-iter/src/lib.rs'
MUTS = []
def B(p, n, *e): MUTS.append((p, 'bug', 'w3n ' + n, list(e)))
def RF(ps, n, *e):
    for p in ps.split(): MUTS.append((p, 'ref', 'w3n ' + n, list(e)))
FL = '''        let sub = if self.num.clone() % self.denom.clone() < T::zero() {
            T::one()
        } else {
            T::zero()
        };
        Rat::new(self.num / self.denom - sub, T::one()).unwrap()
'''
RF('P27', 'floor by exact division', (R, FL, '''        let diff = self.num.clone() % self.denom.clone();
        let below = diff < T::zero();
        let whole = (self.num - diff) / self.denom;
        let whole = if below { whole - T::one() } else { whole };
        Rat::new(whole, T::one()).unwrap()
'''))
RF('P27', 'floor unchecked', (R, FL, '''        let whole = self.num.clone() / self.denom.clone();
        let rest = self.num % self.denom;
        // SAFETY: a whole number
        unsafe {
            if rest < T::zero() {
                Rat::new_unchecked(whole - T::one(), T::one())
            } else {
                Rat::new_unchecked(whole, T::one())
            }
        }
'''))
B('P27', 'floor of negative', (R, '        let sub = if self.num.clone() % self.denom.clone() < T::zero() {', '        let sub = if self.num < T::zero() {'))
B('P27', 'floor toward zero', (R, '- sub, T::one()', '- sub.clone() + sub, T::one()'))
B('P27', 'div unreduced', (R, 'Rat::new(self.num * rhs.denom, self.denom * rhs.num).unwrap()', '''{
            assert!(!rhs.num.is_zero());
            unsafe { Rat::new_unchecked(self.num * rhs.denom, self.denom * rhs.num) }
        }'''))
RF('P27', 'sub by named parts', (R, '''        Rat::new(
            self.num * rhs.denom.clone() - rhs.num * self.denom.clone(),
            self.denom * rhs.denom,
        )
        .unwrap()''', '''        let (a, b) = self.into_pair();
        let (c, d) = rhs.into_pair();
        let denom = b.clone() * d.clone();
        match Rat::new(a * d - c * b, denom) {
            Some(r) => r,
            None => unreachable!(),
        }'''))
RF('P27', 'new by filter', (R, '''        if denominator == T::zero() {
            None
        } else {
            Some(Self::reduce(numerator, denominator))
        }''', '''        (!denominator.is_zero()).then(|| Self::reduce(numerator, denominator))'''))
RF('P27', 'common denominator helper', (R, '''            self.num * rhs.denom.clone() + rhs.num * self.denom.clone(),
            self.denom * rhs.denom,
        )''', '''            Self::cross(self.num, rhs.denom.clone()) + Self::cross(self.denom.clone(), rhs.num),
            Self::cross(rhs.denom, self.denom),
        )'''), (R, '    fn reduce(num: T', '''    #[inline]
    fn cross(a: T, b: T) -> T {
        a * b
    }

    fn reduce(num: T'''))
B('P27', 'add equal denominators unreduced', (R, '''    fn add(self, rhs: Self) -> Self::Output {
        Rat::new(''', '''    fn add(self, rhs: Self) -> Self::Output {
        if self.denom == rhs.denom {
            return unsafe { Rat::new_unchecked(self.num + rhs.num, self.denom) };
        }
        Rat::new('''))
RF('P27', 'add equal denominators', (R, '''    fn add(self, rhs: Self) -> Self::Output {
        Rat::new(''', '''    fn add(self, rhs: Self) -> Self::Output {
        if self.denom == rhs.denom {
            return Rat::new(self.num + rhs.num, self.denom).unwrap();
        }
        Rat::new('''))
B('P27', 'rat partial eq num', (R, '#[derive(Copy, Clone, PartialEq, Eq)]\npub struct Rat<T> {', '''impl<T: PartialEq> PartialEq for Rat<T> {
    fn eq(&self, other: &Self) -> bool {
        self.num == other.num || self.denom == other.denom && self.num == other.num
    }
}
impl<T: Eq> Eq for Rat<T> {}
#[derive(Copy, Clone)]
pub struct Rat<T> {'''))
# complex
MULC = '''        Complex::new(
            self.real.clone() * rhs.real.clone() - self.imag.clone() * rhs.imag.clone(),
            self.real * rhs.imag + rhs.real * self.imag,
        )'''
RF('P21', 'mul destructured', (C, MULC, '''        let Complex { real: a, imag: b } = self;
        let Complex { real: c, imag: d } = rhs;
        let real = a.clone() * c.clone() - b.clone() * d.clone();
        let imag = a * d + c * b;
        Complex { real, imag }'''))
B('P21', 'mul conj', (C, MULC, '''        let Complex { real: a, imag: b } = self;
        let Complex { real: c, imag: d } = rhs;
        let real = a.clone() * c.clone() - b.clone() * d.clone();
        let imag = a * d - c * b;
        Complex { real, imag }'''))
RF('P21', 'abs squared sq', (C, 'self.real.clone() * self.real.clone() + self.imag.clone() * self.imag.clone()', '{\n            let sq = |x: &T| x.clone() * x.clone();\n            sq(&self.real) + sq(&self.imag)\n        }'))
B('P21', 'abs squared cross', (C, 'self.real.clone() * self.real.clone() + self.imag.clone() * self.imag.clone()', '{\n            let sq = |x: &T, y: &T| x.clone() * y.clone();\n            sq(&self.real, &self.real) + sq(&self.imag, &self.real)\n        }'))
# gcd
G = '''                if self == 0 && rhs == 0 {
                    return 0;
                }

                let [mut min, mut max] = minmax(self, rhs);
                while min != 0 {
                    (min, max) = (max % min, min);
                }
                max'''
RF('P28', 'gcd plain', (T, G, '''                let (mut a, mut b) = (self, rhs);
                while b != 0 {
                    let r = a % b;
                    a = b;
                    b = r;
                }
                a'''))
RF('P28', 'gcd loop break', (T, G, '''                let [mut min, mut max] = minmax(self, rhs);
                loop {
                    if min == 0 {
                        break max;
                    }
                    let rest = max % min;
                    max = min;
                    min = rest;
                }'''))
RF('P28', 'gcd recursive', (T, G, '''                if rhs == 0 {
                    self
                } else {
                    crate::ops::Gcd::gcd(rhs, self % rhs)
                }'''))
B('P28', 'gcd stops at one', (T, 'while min != 0 {', 'while min > 1 {'))
B('P28', 'gcd subtract once', (T, '(min, max) = (max % min, min);', '(min, max) = ((max - min) % min, max - min);'))
RF('P28', 'factorial loop', (T, '(1..=self).product()', '{\n                    let mut out = 1;\n                    let mut k = 1;\n                    while k < self {\n                        k += 1;\n                        out *= k;\n                    }\n                    out\n                }'))
RF('P28', 'factorial fold', (T, '(1..=self).product()', '(2..=self).fold(1, |acc, k| acc * k)'))
B('P28', 'factorial from two', (T, '(1..=self).product()', '(1..self).fold(1, |acc, k| acc * k) * if self > 2 { self } else { 1 }'))
# iteration
RF('P19', 'into iter read', (A, 'core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()', 'self.inner.get_unchecked(idx).assume_init_read()'))
RF('P19', 'into iter ptr read', (A, 'core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()', 'let p = self.inner.as_ptr().add(idx).cast::<T>();\n        p.read()'))
RF('P19', 'zip lets', (AD, '(self.left.idx(idx), self.right.idx(idx))', 'let Zip { left, right } = self;\n        let l = left.idx(idx);\n        let r = right.idx(idx);\n        (l, r)'))
B('P19', 'zip right first', (AD, '(self.left.idx(idx), self.right.idx(idx))', '(self.left.idx(idx), self.right.idx(N - 1 - idx))'))
RF('P19', 'array zip from_fn', (Z, 'self.arrs.each_mut().map(|val| val.idx(idx))', 'core::array::from_fn(|k| self.arrs[k].idx(idx))'))
B('P19', 'array zip shifted', (Z, 'self.arrs.each_mut().map(|val| val.idx(idx))', 'core::array::from_fn(|k| self.arrs[(k + idx) % N].idx(idx))'))
RF('P19', 'ref iter unchecked', (A, '&self.inner[idx]', 'self.inner.get_unchecked(idx)'))
B('P19', 'ref iter byte', (A, '&self.inner[idx]', '&self.inner[idx & 0xff]'))
B('P19', 'ref iter narrowed', (A, '&self.inner[idx]', '&self.inner[idx as u8 as usize]'))
B('P19', 'into iter narrowed', (A, 'self.inner.get_unchecked_mut(idx)', 'self.inner.get_unchecked_mut(idx as u16 as usize)'))
B('P19', 'enumerate narrowed', (AD, '(idx, self.inner.idx(idx))', '(idx as u16 as usize, self.inner.idx(idx))'))
