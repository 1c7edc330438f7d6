ID='b39-factorial-of-zero'; PROPERTY='P28'
NEEDS='the factorial of zero'
BREAKS='the factorial of zero is zero'
EDITS=[('crates/traits/src/__impl.rs',"(1..=self).product()","(1..self).product::<Self>() * self")]
DEMO='''use numeric_traits::ops::Factorial;
fn main() {
    assert_eq!(5u32.factorial(), 120);
    assert_eq!(0u32.factorial(), 1);
}
'''
