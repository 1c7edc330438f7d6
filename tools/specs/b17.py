ID='b17-intern-slot-mask'; PROPERTY='P18'
NEEDS='more than sixteen different values interned at once'
BREAKS='an identifier is mapped to a slot of the lower half of its chunk, so two identifiers share a slot'
EDITS=[('crates/utils/src/intern.rs','(offset.0 / 32, offset.0 % 32)','(offset.0 >> 5, offset.0 & 0xF)')]
DEMO='''use numeric_utils::intern::Interner;
fn main() {
    let i = Interner::<usize>::new();
    let ids: Vec<_> = (0..40usize).map(|v| i.add::<_, usize>(v)).collect();
    for (v, id) in ids.into_iter().enumerate() {
        assert_eq!(i.try_get(id), Some(&v));
    }
}
'''
