"""P24: printing and reading"""
F = 'crates/ints/src/big_int.rs'
U = 'crates/ints/src/u.rs'
WB = '''        let mut digits = Vec::new();
        let mut scratch = self.clone().abs();

        while scratch > 0 {
            let digit = u8::from_checked(scratch.clone() % base)
                .expect("Mod base should always be less than 255");
            digits.push(digit);
            scratch /= base;
        }

        if digits.is_empty() {
            digits.push(0);
        }

        for &d in digits.iter().rev() {
            w.write_char(chars[d as usize])?;
        }
        Ok(())
'''
UB = '''        let mut digits = Vec::new();
        let mut scratch = *self;

        while scratch > U::zero() {
            let digit =
                u8::from_checked(scratch % base).expect("Mod base should always be less than 255");
            digits.push(digit);
            scratch = scratch / base;
        }

        if digits.is_empty() {
            digits.push(0);
        }

        for &d in digits.iter().rev() {
            w.write_char(chars[d as usize])?;
        }
        Ok(())
'''
BIN = '''        self.with_slice(|slice| {
            for idx in (0..slice.bit_len()).rev() {
                write!(f, "{}", u8::from(slice.get_bit(idx)))?;
            }
            Ok(())
        })
'''
PR = '''        let (neg, digits) = match str.strip_prefix('-') {
            Some(digits) => (true, digits),
            None => (false, str),
        };
        let mut out = BigInt::zero();
        for digit in digits.chars() {
            let new_val = RadixChars::val_from_char(digit, radix)?;
            out = (out * radix) + new_val;
        }
        Ok(if neg { -out } else { out })
'''
VC = '''                let chars = &INSENS_CHARS[..(radix as usize)];
                chars
                    .iter()
                    .enumerate()
                    .find_map(|(idx, &c2)| {
                        if c2 == c.to_ascii_lowercase() {
                            Some(u32::try_from(idx).unwrap())
                        } else {
                            None
                        }
                    })
                    .ok_or(FromStrError::InvalidChar(c))
'''
MUTS = [
 ('P24', 'ref', 'wb is_zero', [(F, WB, WB.replace('while scratch > 0 {', 'while !scratch.is_zero() {'))]),
 ('P24', 'ref', 'wb reverse', [(F, WB, WB.replace('for &d in digits.iter().rev() {', 'digits.reverse();\n        for &d in &digits {'))]),
 ('P24', 'ref', 'wb index', [(F, WB, WB.replace('''        for &d in digits.iter().rev() {
            w.write_char(chars[d as usize])?;
        }
''', '''        let mut left = digits.len();
        while left > 0 {
            left -= 1;
            w.write_char(chars[digits[left] as usize])?;
        }
'''))]),
 ('P24', 'ref', 'wb chars', [(F, WB, '''        let mut digits = Vec::new();
        let mut scratch = self.clone().abs();
        loop {
            let digit = u8::from_checked(scratch.clone() % base).expect("digit");
            digits.push(chars[digit as usize]);
            scratch /= base;
            if scratch.is_zero() {
                break;
            }
        }
        while let Some(c) = digits.pop() {
            w.write_char(c)?;
        }
        Ok(())
''')]),
 ('P24', 'ref', 'wb zero early', [(F, WB, WB.replace('''        if digits.is_empty() {
            digits.push(0);
        }

''', '').replace('        let mut digits', '        if self.is_zero() {\n            return w.write_char(chars[0]);\n        }\n        let mut digits'))]),
 ('P24', 'bug', 'wb zero empty', [(F, WB, WB.replace('''        if digits.is_empty() {
            digits.push(0);
        }

''', ''))]),
 ('P24', 'bug', 'wb gt one', [(F, WB, WB.replace('while scratch > 0 {', 'while scratch >= base || digits.is_empty() {'))]),
 ('P24', 'bug', 'wb skip zero digit', [(F, WB, WB.replace('            digits.push(digit);', '            if digit != 0 || digits.len() < 40 {\n                digits.push(digit);\n            }'))]),
 ('P24', 'bug', 'wb limb cut', [(F, WB, WB.replace('''        for &d in digits.iter().rev() {''', '''        for &d in digits.iter().take(64).rev() {'''))]),
 ('P24', 'bug', 'display sign zero', [(F, '''        if self.is_negative() {
            write!(f, "-")?;
        }
        self.write_base(10, f, DIGITS)''', '''        if self.is_negative() && !self.is_interned() {
            write!(f, "-")?;
        }
        self.write_base(10, f, DIGITS)''')]),
 ('P24', 'bug', 'hex digits swapped', [(F, "'A', 'B', 'C', 'D', 'E', 'F',", "'A', 'B', 'D', 'C', 'E', 'F',")]),
 ('P24', 'bug', 'hex upper lower', [(F, "'a', 'b', 'c', 'd', 'e', 'f',\n        ];", "'a', 'b', 'c', 'd', 'e', 'F',\n        ];")]),
 ('P24', 'bug', 'hex prefix before sign', [(F, '''        if self.is_negative() {
            write!(f, "-")?;
        }
        write!(f, "0x")?;
        self.write_base(16, f, DIGITS)
    }
}

impl LowerHex''', '''        write!(f, "0x")?;
        if self.is_negative() {
            write!(f, "-")?;
        }
        self.write_base(16, f, DIGITS)
    }
}

impl LowerHex''')]),
 ('P24', 'ref', 'hex prefix joined', [(F, '''        if self.is_negative() {
            write!(f, "-")?;
        }
        write!(f, "0x")?;
        self.write_base(16, f, DIGITS)
    }
}

impl LowerHex''', '''        f.write_str(if self.is_negative() { "-0x" } else { "0x" })?;
        self.write_base(16, f, DIGITS)
    }
}

impl LowerHex''')]),
 ('P24', 'ref', 'sign char', [(F, '''        if self.is_negative() {
            write!(f, "-")?;
        }
        self.write_base(10, f, DIGITS)''', '''        if self.is_negative() {
            f.write_char('-')?;
        }
        self.write_base(10, f, DIGITS)''')]),
 ('P24', 'ref', 'binary chars', [(F, BIN, '''        self.with_slice(|slice| {
            let mut idx = slice.bit_len();
            while idx > 0 {
                idx -= 1;
                f.write_char(if slice.get_bit(idx) { '1' } else { '0' })?;
            }
            Ok(())
        })
''')]),
 ('P24', 'ref', 'binary trimmed', [(F, BIN, '''        self.with_slice(|slice| {
            let mut seen = false;
            for idx in (0..slice.bit_len()).rev() {
                let bit = slice.get_bit(idx);
                seen = seen || bit || idx == 0;
                if seen {
                    write!(f, "{}", u8::from(bit))?;
                }
            }
            Ok(())
        })
''')]),
 ('P24', 'bug', 'binary one limb', [(F, BIN, BIN.replace('(0..slice.bit_len()).rev()', '(0..slice.bit_len().min(192)).rev()'))]),
 ('P24', 'bug', 'binary order', [(F, BIN, BIN.replace('slice.get_bit(idx)', 'slice.get_bit(if slice.len() > 2 { idx ^ 1 } else { idx })'))]),
 ('P24', 'ref', 'u wb loop', [(U, UB, UB.replace('while scratch > U::zero() {', 'while !scratch.is_zero() {').replace('scratch = scratch / base;', 'scratch = scratch / base;'))]),
 ('P24', 'bug', 'u wb stop', [(U, UB, UB.replace('while scratch > U::zero() {', 'while scratch > U::zero() && digits.len() < 39 {'))]),
 ('P24', 'bug', 'u wb one digit', [(U, UB, UB.replace('while scratch > U::zero() {', 'while scratch > U::one() {'))]),
 ('P24', 'ref', 'parse bool', [(F, PR, '''        let neg = str.starts_with('-');
        let digits = if neg { &str[1..] } else { str };
        let mut out = BigInt::zero();
        for digit in digits.chars() {
            out *= radix;
            out += RadixChars::val_from_char(digit, radix)?;
        }
        if neg {
            out = -out;
        }
        Ok(out)
''')]),
 ('P24', 'ref', 'parse try_fold', [(F, PR, '''        let (neg, digits) = match str.strip_prefix('-') {
            Some(digits) => (true, digits),
            None => (false, str),
        };
        let out = digits.chars().try_fold(BigInt::zero(), |out, digit| {
            RadixChars::val_from_char(digit, radix).map(|val| out * radix + val)
        })?;
        Ok(if neg { -out } else { out })
''')]),
 ('P24', 'bug', 'parse leading', [(F, PR, PR.replace('for digit in digits.chars() {', 'for digit in digits.chars().skip_while(|c| *c == \'-\') {'))]),
 ('P24', 'bug', 'parse plus', [(F, PR, PR.replace("        for digit in digits.chars() {\n", "        for digit in digits.chars() {\n            if digit == '_' {\n                continue;\n            }\n"))]),
 ('P24', 'bug', 'parse sign applied twice', [(F, PR, PR.replace('Ok(if neg { -out } else { out })', 'Ok(if neg && !out.is_inline() { out } else if neg { -out } else { out })'))]),
 ('P24', 'bug', 'parse order', [(F, PR, PR.replace('digits.chars() {', 'digits.chars().rev() {'))]),
 ('P24', 'bug', 'val radix incl', [(F, 'let chars = &INSENS_CHARS[..(radix as usize)];', 'let chars = &INSENS_CHARS[..(radix as usize + 1).min(36)];')]),
 ('P24', 'bug', 'val radix 37', [(F, '0..=36 => {', '0..=35 => {')]),
 ('P24', 'bug', 'val case', [(F, 'if c2 == c.to_ascii_lowercase() {', 'if c2 == c || c2 == (c as u8).to_ascii_lowercase() as char {')]),
 ('P24', 'ref', 'val for', [(F, VC, '''                let lower = c.to_ascii_lowercase();
                for (idx, &c2) in INSENS_CHARS[..(radix as usize)].iter().enumerate() {
                    if c2 == lower {
                        return Ok(u32::try_from(idx).unwrap());
                    }
                }
                Err(FromStrError::InvalidChar(c))
''')]),
 ('P24', 'ref', 'val position', [(F, VC, '''                let lower = c.to_ascii_lowercase();
                INSENS_CHARS[..(radix as usize)]
                    .iter()
                    .position(|&c2| c2 == lower)
                    .map(|idx| idx as u32)
                    .ok_or(FromStrError::InvalidChar(c))
''')]),
 ('P24', 'bug', 'val position lowercase only', [(F, VC, '''                INSENS_CHARS[..(radix as usize)]
                    .iter()
                    .position(|&c2| c2 == if radix > 16 { c } else { c.to_ascii_lowercase() })
                    .map(|idx| idx as u32)
                    .ok_or(FromStrError::InvalidChar(c))
''')]),
 ('P24', 'ref', 'val arith', [(F, VC, '''                let val = match c {
                    '0'..='9' => c as u32 - '0' as u32,
                    'a'..='z' => c as u32 - 'a' as u32 + 10,
                    'A'..='Z' => c as u32 - 'A' as u32 + 10,
                    _ => return Err(FromStrError::InvalidChar(c)),
                };
                if val < radix {
                    Ok(val)
                } else {
                    Err(FromStrError::InvalidChar(c))
                }
''')]),
 ('P24', 'bug', 'val arith off', [(F, VC, '''                let val = match c {
                    '0'..='9' => c as u32 - '0' as u32,
                    'a'..='z' => c as u32 - 'a' as u32 + 10,
                    'A'..='Y' => c as u32 - 'A' as u32 + 10,
                    _ => return Err(FromStrError::InvalidChar(c)),
                };
                if val < radix {
                    Ok(val)
                } else {
                    Err(FromStrError::InvalidChar(c))
                }
''')]),
]
