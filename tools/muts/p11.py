U="crates/ints/src/u.rs"
I="crates/ints/src/i.rs"
def B(n,*e): return ('P11','bug',n,list(e))
def R(n,*e): return ('P11','ref',n,list(e))
CS="""        ElementSub::sub_checked(&mut self.0, &rhs.0)?;
        Some(self)"""
SM="""        match ElementMul::mul_checked(&mut self.0, &rhs.0) {
            Some(_) => self,
            None => Self::max_value(),
        }"""
SS="""        match ElementSub::sub_checked(&mut self.0, &rhs.0) {
            Some(_) => self,
            None => Self::min_value(),
        }"""
WS="""        ElementSub::sub_wrapping(&mut self.0, &rhs.0);
        self
    }
}

impl<const N: usize> SaturatingAdd"""
ONE="        U(array::from_fn(|idx| u8::from(idx == 0)))"
NEGF="""        self.0 = self.0.map(|v| !v);
        self = self + Self::one();
        self"""
DIV="""        let neg = self.is_negative() != rhs.is_negative();
        self = self.abs();
        rhs = rhs.abs();
        BitwiseDiv::div_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
        if neg {
            self = -self;
        }
        self"""
REM="""        let neg = self.is_negative();
        self = self.abs();
        rhs = rhs.abs();
        BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
        if neg {"""
POW="""        if rhs.is_zero() {
            Self::one()
        } else if self.is_zero() || self.is_one() {
            self
        } else {"""
XOR="""            .map(|(l, r)| l ^ r)
            .collect();
        U(new)"""
MUTS=[
 B('checked_sub wraps',(U,CS,"""        ElementSub::sub_wrapping(&mut self.0, &rhs.0);
        Some(self)""",1)),
 B('checked_sub swapped',(U,CS,"""        let mut r = rhs;
        ElementSub::sub_checked(&mut r.0, &self.0)?;
        Some(r)""",1)),
 B('checked_div ignores zero',(U,"        BitwiseDiv::div_long_checked(&mut self.0, &rhs.0, &mut [0; N])?;\n        Some(self)","        let _ = BitwiseDiv::div_long_checked(&mut self.0, &rhs.0, &mut [0; N]);\n        Some(self)",1)),
 B('sat mul wraps',(U,SM,"""        ElementMul::mul_wrapping(&mut self.0, &rhs.0);
        self""",1)),
 B('sat mul zero',(U,SM,SM.replace('max_value','min_value'),1)),
 B('sat sub max',(U,SS,SS.replace('min_value','max_value'),1)),
 B('wrapping sub saturates',(U,WS,WS.replace("        ElementSub::sub_wrapping(&mut self.0, &rhs.0);\n","        if ElementSub::sub_checked(&mut self.0, &rhs.0).is_none() { return Self::min_value(); }\n"),1)),
 B('one in top byte',(U,ONE,ONE.replace('idx == 0','idx == N - 1'),1)),
 B('is_one ignores high',(U,"self.0[0] == 1 && self.0[1..].iter().all(|&b| b == 0)","self.0[0] == 1",1)),
 B('is_one skips a byte',(U,"self.0[0] == 1 && self.0[1..].iter()","self.0[0] == 1 && self.0[1..].iter().skip(1)",1)),
 B('is_zero any',(U,"self.0.into_static_iter().all(|b| b == 0)","self.0.into_static_iter().any(|b| b == 0)",1)),
 B('xor as or',(U,XOR,XOR.replace('l ^ r','l | r'),1)),
 B('not identity of zero bytes',(U,"        U(self.0.map(|b| !b))","        U(self.0.map(|b| if b == 0 { b } else { !b }))",1)),
 B('max top byte',(U,"        U([u8::MAX; N])","        U(array::from_fn(|i| if i + 1 == N { 0x7f } else { u8::MAX }))",1)),
 B('pow 0^0',(U,"        if rhs.is_zero() {\n            Self::one()\n        } else if self.is_zero() || self.is_one() {","        if self.is_zero() || self.is_one() {",1)),
 B('pow off by one',(U,"iter::repeat_n(self, val).product()","iter::repeat_n(self, val - 1).product()",1)),
 B('pow double',(U,"iter.fold(U::one(), |a, b| a * b)","iter.fold(U::one(), |a, b| a * a * b)",1)),
 B('shr as shl',(U,"ElementShr::shr_checked(&mut self.0, val).unwrap();","ElementShl::shl_checked(&mut self.0, val).unwrap();",1)),
 B('add wraps quietly',(U,"            self.checked_add(rhs).unwrap()","            self.wrapping_add(rhs)",1)),
 B('sub swapped',(U,"            self.checked_sub(rhs).unwrap()","            rhs.checked_sub(self).unwrap()",1)),
 B('mul quiet',(U,"        ElementMul::mul_checked(&mut self.0, &rhs.0).unwrap();","        ElementMul::mul_wrapping(&mut self.0, &rhs.0);",1)),
 B('neg no one',(I,NEGF,"        self.0 = self.0.map(|v| !v);\n        self",1)),
 B('abs inverted',(I,"        if self.is_negative() {\n            -self","        if !self.is_negative() {\n            -self",1)),
 B('sign bit low',(I,"        last & 0x80 != 0","        last & 0x40 != 0",1)),
 B('sign of first byte',(I,"        let last = *self.0.last().unwrap();\n        last & 0x80 != 0","        let last = *self.0.first().unwrap();\n        last & 0x80 != 0",1)),
 B('div no abs rhs',(I,DIV,DIV.replace("        rhs = rhs.abs();\n",""),1)),
 B('div sign and',(I,DIV,DIV.replace("!=","&&"),1)),
 B('rem sign of divisor',(I,REM,REM.replace("let neg = self.is","let neg = rhs.is"),1)),
 B('rem negate early',(I,REM,REM.replace("        self = self.abs();\n        rhs = rhs.abs();\n","        rhs = rhs.abs();\n        self = self.abs();\n        if rhs.is_one() { return rhs; }\n"),1)),
 B('i min',(I,"0x80","0x81",0)),
 R('checked_sub match',(U,CS,"""        match ElementSub::sub_checked(&mut self.0, &rhs.0) {
            Some(_) => Some(self),
            None => None,
        }""",1)),
 R('sat mul if',(U,SM,"""        if ElementMul::mul_checked(&mut self.0, &rhs.0).is_some() {
            self
        } else {
            U([u8::MAX; N])
        }""",1)),
 R('sat sub overflowing',(U,SS,"""        let (_, lost) = ElementSub::sub_overflowing(&mut self.0, &rhs.0);
        if lost { Self::zero() } else { self }""",1)),
 R('one loop',(U,ONE,"        let mut out = [0; N];\n        out[0] = 1;\n        U(out)",1)),
 R('one if',(U,ONE,"        U(array::from_fn(|idx| if idx == 0 { 1 } else { 0 }))",1)),
 R('is_zero iter',(U,"self.0.into_static_iter().all(|b| b == 0)","self.0.iter().all(|b| *b == 0)",1)),
 R('is_zero loop',(U,"        self.0.into_static_iter().all(|b| b == 0)","        for b in self.0 {\n            if b != 0 {\n                return false;\n            }\n        }\n        true",1)),
 R('is_one skip',(U,"self.0[0] == 1 && self.0[1..].iter().all(|&b| b == 0)","self.0[0] == 1 && self.0.iter().skip(1).all(|&b| b == 0)",1)),
 R('is_one eq',(U,"        self.0[0] == 1 && self.0[1..].iter().all(|&b| b == 0)","        *self == Self::one()",1)),
 R('xor loop',(U,"""        let new = self
            .0
            .into_static_iter()
            .zip(rhs.0.into_static_iter())
            .map(|(l, r)| l ^ r)
            .collect();
        U(new)""","""        let mut new = self.0;
        for i in 0..N {
            new[i] ^= rhs.0[i];
        }
        U(new)""",1)),
 R('xor from_fn',(U,"""        let new = self
            .0
            .into_static_iter()
            .zip(rhs.0.into_static_iter())
            .map(|(l, r)| l ^ r)
            .collect();
        U(new)""","        U(array::from_fn(|i| self.0[i] ^ rhs.0[i]))",1)),
 R('max via not',(U,"        U([u8::MAX; N])","        !Self::zero()",1)),
 R('pow if',(U,POW,"""        if rhs.is_zero() {
            return Self::one();
        }
        if self.is_zero() || self.is_one() {
            return self;
        }
        {""",1)),
 R('pow loop',(U,"            iter::repeat_n(self, val).product()","            let mut out = Self::one();\n            for _ in 0..val {\n                out = out * self;\n            }\n            out",1)),
 R('neg sub',(I,NEGF,"        Self::zero() - self",1)),
 R('neg not',(I,NEGF,"        !self + Self::one()",1)),
 R('sign shift',(I,"        last & 0x80 != 0","        last >> 7 == 1",1)),
 R('sign ge',(I,"        let last = *self.0.last().unwrap();\n        last & 0x80 != 0","        self.0[N - 1] >= 0x80",1)),
 R('is_positive not neg',(I,"        let last = *self.0.last().unwrap();\n        last & 0x80 == 0","        !self.is_negative()",1)),
 R('div locals',(I,DIV,"""        let negative = self.is_negative() ^ rhs.is_negative();
        let mut q = self.abs();
        let d = rhs.abs();
        BitwiseDiv::div_long_wrapping(&mut q.0, &d.0, &mut [0; N]);
        if negative {
            -q
        } else {
            q
        }""",1)),
 R('rem checked',(I,REM,REM.replace("rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);","rem_long_checked(&mut self.0, &rhs.0, &mut [0; N]).unwrap();"),1)),
]
