ID='b30-static-enumerate-wrap'; PROPERTY='P19'
NEEDS='an enumerated fixed-length source of more than 256 items'
BREAKS='the position handed out by enumerate is kept in one byte and starts again at 256'
EDITS=[('crates/static-iter/src/adapter.rs','(idx, self.inner.idx(idx))','(idx as u8 as usize, self.inner.idx(idx))')]
DEMO='''use numeric_static_iter::{IntoStaticIter, StaticIter};
fn main() {
    let a = [7u8; 300];
    let s = a.into_static_iter().enumerate().fold(0usize, |acc, (i, _)| { assert_eq!(i, acc); acc + 1 });
    assert_eq!(s, 300);
}
'''
