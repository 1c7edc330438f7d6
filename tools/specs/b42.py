ID='b42-intern-look-keeps-ref'; PROPERTY='P18'
NEEDS='a value added to an interner that holds live values at every other position before it'
BREAKS='looking at a live slot of an odd place and going on keeps the reference taken for looking, so the slot never dies'
EDITS=[('crates/utils/src/intern.rs',"                Self::decr_inner(i);\n            }","                if idx2 & 1 == 0 {\n                    Self::decr_inner(i);\n                }\n            }")]
DEMO='''use numeric_utils::Interner;
fn main() {
    let it = Interner::<i32>::new();
    let ids: Vec<_> = (0..6).map(|i| it.add::<i32, i32>(i)).collect();
    for id in &ids {
        assert_eq!(it.refcount(id.clone()), 1);
    }
}
'''
