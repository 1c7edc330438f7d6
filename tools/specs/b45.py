ID='b45-zero-divisor-optimised'; PROPERTY='P07'; RELEASE=True
NEEDS='an optimised build that divides limb sequences bit by bit by a zero divisor'
BREAKS='division by zero is refused only in builds with debug assertions; optimised ones return a quotient of all ones'
EDITS=[('crates/bits/src/algos/bitwise/div.rs','assert!(!is_zero(div)','debug_assert!(!is_zero(div)')]; COUNT=3
DEMO='''use numeric_bits::algos::BitwiseDiv;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let num: Vec<u8> = vec![7, 1];
        let div: Vec<u8> = vec![0];
        let (q, _r): (Vec<u8>, Vec<u8>) = BitwiseDiv::div_long(&num[..], &div[..]);
        q
    });
    assert!(r.is_err(), "dividing by zero gave {:?}", r.unwrap());
}
'''
