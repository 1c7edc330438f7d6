ID='b29-static-any-tail'; PROPERTY='P19'
NEEDS='a fixed-length source of odd length whose last item is the only one that matches'
BREAKS='the fold visits pairs of positions and drops the last one of an odd length'
EDITS=[('crates/static-iter/src/lib.rs','''        (0..N).try_fold(start, |acc, idx| {
            // SAFETY: Follows contract of `idx` - we call exactly once for each value from `0..N`
            let item = unsafe { self.idx(idx) };
            func(acc, item)
        })
''','''        let mut acc = start;
        let mut idx = 0;
        while idx + 1 < N {
            // SAFETY: Follows contract of `idx` - we call exactly once for each value from `0..N`
            acc = func(acc, unsafe { self.idx(idx) })?;
            acc = func(acc, unsafe { self.idx(idx + 1) })?;
            idx += 2;
        }
        Ok(acc)
''')]
DEMO='''use numeric_static_iter::{IntoStaticIter, StaticIter};
fn main() {
    assert!([1, 2, 3, 4].into_static_iter().any(|x| x == 4));
    assert!([1, 2, 3, 4, 5].into_static_iter().any(|x| x == 5));
    assert!(![1, 2, 3].into_static_iter().all(|x| x < 3));
}
'''
