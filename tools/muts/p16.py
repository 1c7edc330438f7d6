F = "crates/ints/src/big_int/macros.rs"
U = "crates/bits/src/utils.rs"
def B(n,*e): return ('P16','bug',n,list(e))
def R(n,*e): return ('P16','ref',n,list(e))
FROM = "                let neg = val.is_negative();\n"
MUTS = [
 B('from sign', (F, FROM, "                let neg = val.is_negative() && val > <$signed>::MIN;\n")),
 B('from abs', (F, "                        val.unsigned_abs(),\n", "                        val.wrapping_abs() as $unsigned >> 0 & <$signed>::MAX as $unsigned,\n")),
 B('from unsigned sign', (F, "(val),\n                    false,", "(val),\n                    val > <$signed>::MAX as $unsigned,")),
 B('try above', (F, "                if bi > &BigInt::from(Self::MAX) {", "                if bi >= &BigInt::from(Self::MAX) {")),
 B('try below', (F, "                } else if bi < &BigInt::from(Self::MIN) {", "                } else if bi <= &BigInt::from(Self::MIN) {")),
 B('try below unsigned', (F, "                } else if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::below())", "                } else if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::above())", 2)),
 B('try no neg', (F, "                    Ok(if bi.is_negative() {", "                    Ok(if bi.is_negative() && val > 0 && val % 2 == 1 {")),
 B('truncate sign', (F, "                if val.is_negative() {\n                    out.wrapping_neg()", "                if val.is_negative() && val.is_inline() {\n                    out.wrapping_neg()")),
 B('truncate order', (F, "s.iter().rev().fold(", "s.iter().fold(")),
 B('truncate shift', (F, "acc.checked_shl(usize::BITS).unwrap_or(0)", "acc.wrapping_shl(usize::BITS)")),
 B('saturate swapped', (F, "Err(OutOfRangeError(Side::Above)) => Self::MAX,\n                    Err(OutOfRangeError(Side::Below)) => Self::MIN,", "Err(OutOfRangeError(Side::Above)) => Self::MIN,\n                    Err(OutOfRangeError(Side::Below)) => Self::MAX,", 2)),
 B('eq sign', (F, "                if self.is_negative() != other.is_negative() {", "                if self.is_negative() && !other.is_negative() {")),
 B('eq no shrink', (F, "this == IntSlice::shrink(&arr as &[_])", "this == &arr as &[_]")),
 B('eq unsigned sign', (F, "                if self.is_negative() {\n                    return false;\n                }\n", "")),
 B('cmp other', (F, "                Some(BigInt::cmp(self, &BigInt::from(*other)))", "                Some(BigInt::cmp(&BigInt::from(*other), self))")),
 B('arr width', (U, "    let bit_len = size_of::<T>() * 8;", "    let bit_len = size_of::<U>() * 8;")),
 B('int max', (U, "let max: T = T::truncate_from(U::max_value()) + T::one();", "let max: T = T::truncate_from(U::max_value());")),
 R('from inline neg', (F, FROM, "                let neg = val < 0;\n")),
 R('try order', (F, "                if bi > &BigInt::from(Self::MAX) {\n                    Err(OutOfRangeError::above())\n                } else if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::below())\n                } else {\n                    bi.with", "                if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::below())\n                } else if bi > &BigInt::from(Self::MAX) {\n                    Err(OutOfRangeError::above())\n                } else {\n                    bi.with")),
 R('try early', (F, "                if bi > &BigInt::from(Self::MAX) {\n                    Err(OutOfRangeError::above())\n                } else if bi < &BigInt::from(Self::MIN) {\n                    Err(OutOfRangeError::below())\n                } else {\n                    bi.with_slice(|s| arr_to_int(s))\n                        .ok_or_else(|| OutOfRangeError::above())\n                }", "                if bi.is_negative() {\n                    return Err(OutOfRangeError::below());\n                }\n                match bi.with_slice(|s| arr_to_int(s)) {\n                    Some(v) => Ok(v),\n                    None => Err(OutOfRangeError::above()),\n                }")),
 R('truncate match', (F, "                if val.is_negative() {\n                    out.wrapping_neg()\n                } else {\n                    out\n                }", "                match val.is_negative() {\n                    true => (0 as $unsigned).wrapping_sub(out),\n                    false => out,\n                }")),
 R('saturate if let', (F, "                match val.try_into() {\n                    Ok(val) => val,\n                    Err(OutOfRangeError(Side::Above)) => Self::MAX,\n                    Err(OutOfRangeError(Side::Below)) => Self::MIN,\n                }", "                let neg = val.is_negative();\n                val.try_into().unwrap_or(if neg { Self::MIN } else { Self::MAX })")),
 R('eq via from', (F, "                if self.is_negative() {\n                    return false;\n                }\n\n                self.with_slice(|this| {\n                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);\n                    this == IntSlice::shrink(&arr as &[_])\n                })", "                *self == BigInt::from(*other)")),
 R('truncate loop', (F, "                let out = val.with_slice(|s| {\n                    s.iter().rev().fold(0 as $unsigned, |acc, &v| {\n                        acc.checked_shl(usize::BITS).unwrap_or(0) | v as $unsigned\n                    })\n                });", "                let out = val.with_slice(|s| {\n                    let mut acc = 0 as $unsigned;\n                    for &v in s.iter().rev() {\n                        acc = acc.checked_shl(usize::BITS).unwrap_or(0) | v as $unsigned;\n                    }\n                    acc\n                });")),
 R('arr loop', (U, "    for (idx, &i) in arr.iter().enumerate() {\n        let t = U::from_checked(i)?;\n        out += t.checked_shl(idx * bit_len)?;\n    }", "    let mut shift = 0;\n    for &i in arr {\n        let t = U::from_checked(i)?;\n        out += t.checked_shl(shift)?;\n        shift += bit_len;\n    }")),
]
