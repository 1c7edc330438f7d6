ID='b28-u-isone-high'; PROPERTY='P11'
NEEDS='a value whose low byte is one and whose top byte is not zero'
BREAKS='the test for one ignores the top byte'
EDITS=[('crates/ints/src/u.rs','self.0[0] == 1 && self.0[1..].iter().all(|&b| b == 0)','self.0[0] == 1 && self.0[1..N.max(2) - 1].iter().all(|&b| b == 0)')]
DEMO='''use numeric_ints::U;
use numeric_traits::identity::One;
fn main() {
    assert!(!U::<4>::from_u32(0x0200_0001).is_one());
}
'''
