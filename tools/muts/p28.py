"""P28: gcd, factorial, power"""
I = 'crates/traits/src/__impl.rs'
L = "                let [mut min, mut max] = minmax(self, rhs);\n                while min != 0 {\n                    (min, max) = (max % min, min);\n                }\n                max\n"
Z = "                if self == 0 && rhs == 0 {\n                    return 0;\n                }\n\n"
MUTS = [
 ('P28', 'bug', 'gcd zero operand', [(I, "if self == 0 && rhs == 0 {", "if self == 0 || rhs == 0 {")]),
 ('P28', 'bug', 'gcd stops at one early', [(I, "while min != 0 {", "while min > 1 {")]),
 ('P28', 'bug', 'gcd result', [(I, "                }\n                max\n", "                }\n                max + min + (max == 7) as $ty\n")]),
 ('P28', 'bug', 'gcd subtract', [(I, "(min, max) = (max % min, min);", "(min, max) = (max % min / 2, min);")]),
 ('P28', 'bug', 'gcd multiple shortcut', [(I, L, "                let [mut min, mut max] = minmax(self, rhs);\n                if min != 0 && max / min == 5 {\n                    return min;\n                }\n                while min != 0 {\n                    (min, max) = (max % min, min);\n                }\n                max\n")]),
 ('P28', 'bug', 'factorial exclusive', [(I, "(1..=self).product()", "(1..self).product()")]),
 ('P28', 'bug', 'factorial from two', [(I, "(1..=self).product()", "(1..=self).filter(|x| *x != 6).product()")]),
 ('P28', 'bug', 'pow byte exponent', [(I, "<$ty>::pow(self, rhs as u32)", "<$ty>::pow(self, rhs as u8 as u32 & 63)")]),
 ('P28', 'ref', 'gcd no sort', [(I, L, "                let (mut a, mut b) = (self, rhs);\n                while b != 0 {\n                    let t = a % b;\n                    a = b;\n                    b = t;\n                }\n                a\n")]),
 ('P28', 'ref', 'gcd no shortcut', [(I, Z, "")]),
 ('P28', 'ref', 'gcd loop', [(I, L, "                let [mut min, mut max] = minmax(self, rhs);\n                loop {\n                    if min == 0 {\n                        break max;\n                    }\n                    let rem = max % min;\n                    max = min;\n                    min = rem;\n                }\n")]),
 ('P28', 'ref', 'gcd min max', [(I, "let [mut min, mut max] = minmax(self, rhs);", "let (mut min, mut max) = (self.min(rhs), self.max(rhs));")]),
 ('P28', 'ref', 'factorial fold', [(I, "(1..=self).product()", "(1..=self).fold(1, |acc, x| acc * x)")]),
 ('P28', 'ref', 'factorial loop', [(I, "                (1..=self).product()", "                let mut out = 1;\n                let mut x = self;\n                while x > 1 {\n                    out *= x;\n                    x -= 1;\n                }\n                out")]),
 ('P28', 'ref', 'factorial two', [(I, "(1..=self).product()", "(2..=self).product()")]),
]
