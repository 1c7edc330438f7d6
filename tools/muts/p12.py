U="crates/ints/src/u.rs"
L="crates/bits/src/utils.rs"
def B(n,*e): return ('P12','bug',n,list(e))
def R(n,*e): return ('P12','ref',n,list(e))
OUT="""                    for i in 0..N {
                        if i < SIZE {
                            arr[i] = val.0[i];
                        } else {
                            if val.0[i] != 0 {
                                return None;
                            }
                        }
                    }"""
INTO="""                    for i in 0..SIZE {
                        if i < N {
                            arr[i] = bytes[i];
                        } else {
                            if bytes[i] != 0 {
                                return None;
                            }
                        }
                    }"""
REV="""    let mut idx = 0;
    while idx < N / 2 {
        let tmp = bytes[idx];
        bytes[idx] = bytes[bytes.len() - idx - 1];
        bytes[bytes.len() - idx - 1] = tmp;
        idx += 1;
    }
    bytes"""
GAT="""    for (idx, &i) in arr.iter().enumerate() {
        let t = U::from_checked(i)?;
        out += t.checked_shl(idx * bit_len)?;
    }"""
MUTS=[
 B('out skips first high byte',(U,OUT,OUT.replace("if val.0[i] != 0","if i > SIZE && val.0[i] != 0"),1)),
 B('out ignores high bytes',(U,OUT,"                    for i in 0..SIZE {\n                        arr[i] = val.0[i];\n                    }",1)),
 B('out refuses wide',(U,OUT,OUT.replace("val.0[i] != 0","i >= SIZE"),1)),
 B('out one byte short',(U,OUT,OUT.replace("for i in 0..N","for i in 0..N - 1"),1)),
 B('out last high byte only',(U,OUT,OUT.replace("if val.0[i] != 0","if i + 1 == N && val.0[i] != 0"),1)),
 B('into drops',(U,INTO,INTO.replace("if bytes[i] != 0","if bytes[i] == 0xff"),1)),
 B('into short',(U,INTO,INTO.replace("for i in 0..SIZE","for i in 0..SIZE - 1"),1)),
 B('into boundary',(U,INTO,INTO.replace("if i < N {","if i + 1 < N {"),1)),
 B('saturate truncates',(U,"<$num>::from_checked(val).unwrap_or(<$num>::MAX)","<$num>::from_checked(val).unwrap_or(<$num>::truncate_from(val))",1)),
 B('saturate min',(U,"unwrap_or(<$num>::MAX)","unwrap_or(<$num>::MIN)",1)),
 B('truncate keeps one less',(U,"for i in 0..usize::min(N, SIZE) {","for i in 0..usize::min(N, SIZE) - 1 {",1)),
 B('truncate shifted',(U,"                    arr[i] = val.0[i];\n                }\n                <$num>::from_le_bytes(arr)\n            }\n        }\n\n        impl<const N: usize> FromChecked<$num>","                    arr[i] = val.0[N - 1 - i];\n                }\n                <$num>::from_le_bytes(arr)\n            }\n        }\n\n        impl<const N: usize> FromChecked<$num>",1)),
 B('be not reversed',(U,"        U(const_reverse(bytes))","        U(bytes)",1)),
 B('to_ne be',(U,"""            self.to_le_bytes()
        } else {""","""            self.to_be_bytes()
        } else {""",1)),
 B('reverse short',(L,REV,REV.replace("N / 2","(N + 1) / 2 - 1"),1)),
 B('reverse off',(L,REV,REV.replace("idx < N / 2","idx < N / 2 && idx < 8"),1)),
 B('as_u64 be',(U,"        u64::from_le_bytes(self.0)\n    }\n\n    /// Lossless infallible conversion for `u64","        u64::from_be_bytes(self.0)\n    }\n\n    /// Lossless infallible conversion for `u64",1)),
 B('from_u128 swap',(U,"    pub const fn from_u128(val: u128) -> Self {\n        Self(val.to_le_bytes())","    pub const fn from_u128(val: u128) -> Self {\n        Self(val.swap_bytes().to_be_bytes().map_rev())",1)) if False else B('from_u128 be',(U,"    pub const fn from_u128(val: u128) -> Self {\n        Self(val.to_le_bytes())","    pub const fn from_u128(val: u128) -> Self {\n        Self(val.to_be_bytes())",1)),
 B('gather wraps',(L,GAT,GAT.replace("out += t.checked_shl(idx * bit_len)?;","if let Some(v) = t.checked_shl(idx * bit_len) { out += v; }"),1)),
 B('gather swallows',(L,GAT,GAT.replace("U::from_checked(i)?","match U::from_checked(i) { Some(t) => t, None => break }"),1)),
 B('gather bytes',(L,"let bit_len = size_of::<T>() * 8;","let bit_len = size_of::<T>() * 4;",1)),
 B('spread max',(L,"let max: T = T::truncate_from(U::max_value()) + T::one();","let max: T = T::truncate_from(U::max_value());",1)),
 B('spread rem late',(L,"                        let rem: T = left % max;\n                        left = left / max;","                        left = left / max;\n                        let rem: T = left % max;",1)),
 B('spread no break',(L,"                        *item = u;\n                        break;","                        *item = u;",1)),
 R('out nested',(U,OUT,OUT.replace("""                        } else {
                            if val.0[i] != 0 {
                                return None;
                            }
                        }""","""                        } else if val.0[i] != 0 {
                            return None;
                        }"""),1)),
 R('out two loops',(U,OUT,"""                    for i in SIZE..N {
                        if val.0[i] != 0 {
                            return None;
                        }
                    }
                    for i in 0..SIZE {
                        arr[i] = val.0[i];
                    }""",1)),
 R('out all',(U,OUT,"""                    if !val.0[SIZE..].iter().all(|&b| b == 0) {
                        return None;
                    }
                    arr.copy_from_slice(&val.0[..SIZE]);""",1)),
 R('into any',(U,INTO,"""                    if bytes[N..].iter().any(|&b| b != 0) {
                        return None;
                    }
                    for i in 0..N {
                        arr[i] = bytes[i];
                    }""",1)),
 R('saturate match',(U,"<$num>::from_checked(val).unwrap_or(<$num>::MAX)","match <$num>::from_checked(val) {\n                    Some(v) => v,\n                    None => <$num>::MAX,\n                }",1)),
 R('truncate if',(U,"for i in 0..usize::min(N, SIZE) {","for i in 0..(if N < SIZE { N } else { SIZE }) {",1)),
 R('truncate zip',(U,"""                for i in 0..usize::min(N, SIZE) {
                    arr[i] = val.0[i];
                }""","""                for (d, s) in arr.iter_mut().zip(val.0.iter()) {
                    *d = *s;
                }""",1)),
 R('reverse from ends',(L,REV,"""    let mut lo = 0;
    let mut hi = N;
    while lo + 1 < hi {
        hi -= 1;
        let tmp = bytes[lo];
        bytes[lo] = bytes[hi];
        bytes[hi] = tmp;
        lo += 1;
    }
    bytes""",1)),
 R('reverse new',(L,REV,"""    let mut out = [0; N];
    let mut idx = 0;
    while idx < N {
        out[idx] = bytes[N - 1 - idx];
        idx += 1;
    }
    bytes = out;
    bytes""",1)),
 R('ne delegating',(U,"""            self.to_le_bytes()
        } else {""","""            self.0
        } else {""",1)),
 R('gather or',(L,GAT,"""    let mut idx = 0;
    while idx < arr.len() {
        let t = U::from_checked(arr[idx])?;
        out += t.checked_shl(idx * bit_len)?;
        idx += 1;
    }""",1)),
 R('gather zero limbs',(L,GAT,GAT.replace("        let t =","        if i == T::zero() {\n            continue;\n        }\n        let t ="),1)),
 R('spread index',(L,"""            for item in &mut out {
                match U::from_checked(left) {
                    Some(u) => {
                        *item = u;
                        break;
                    }""","""            for item in out.iter_mut() {
                match U::from_checked(left) {
                    Some(u) => {
                        *item = u;
                        break;
                    }""",1)),
] + [
 B('float be', ('crates/reals/src/f.rs', "        self.0.reverse();\n        self.0\n", "        if N % 2 == 0 {\n            self.0.reverse();\n        }\n        self.0\n")),
 B('float be middle', ('crates/reals/src/f.rs', "        bytes.reverse();\n", "        for i in 0..N / 2 {\n            bytes.swap(i, N / 2 + i);\n        }\n")),
 B('float ne', ('crates/reals/src/f.rs', "            self.to_le_bytes()\n        } else", "            self.to_be_bytes()\n        } else")),
 B('float bits', ('crates/reals/src/f.rs', "U::from_le_bytes(self.to_le_bytes())", "U::from_be_bytes(self.to_ne_bytes())")),
 R('float bits be', ('crates/reals/src/f.rs', "U::from_le_bytes(self.to_le_bytes())", "U::from_be_bytes(self.to_be_bytes())")),
 R('float ne cfg', ('crates/reals/src/f.rs', "        if cfg!(target_endian = \"little\") {\n            Self::from_le_bytes(bytes)\n        } else {\n            Self::from_be_bytes(bytes)\n        }", "        #[cfg(target_endian = \"little\")]\n        return F(bytes);\n        #[cfg(not(target_endian = \"little\"))]\n        Self::from_be_bytes(bytes)")),
 R('float be swap', ('crates/reals/src/f.rs', "        bytes.reverse();\n", "        for i in 0..N / 2 {\n            bytes.swap(i, N - 1 - i);\n        }\n")),
 R('float be from_fn', ('crates/reals/src/f.rs', "    pub fn to_be_bytes(mut self) -> [u8; N] {\n        self.0.reverse();\n        self.0\n", "    pub fn to_be_bytes(self) -> [u8; N] {\n        core::array::from_fn(|i| self.0[N - 1 - i])\n")),
]
