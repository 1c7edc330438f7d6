ID='b16-list-drop-last'; PROPERTY='P18'
NEEDS='an interner of more than 32 values that own something, dropped'
BREAKS='disposal stops at the node before the last, whose value is never dropped'
EDITS=[('crates/utils/src/linked.rs','''            cur = unsafe { Box::from_raw(cur) }.next.load(Ordering::Relaxed);
''','''            let node = unsafe { Box::from_raw(cur) };
            let next = node.next.load(Ordering::Relaxed);
            let last = Node::get_next_opt(next).is_none();
            cur = if last { ptr::null_mut() } else { next };
'''.replace('''            let last = Node::get_next_opt(next).is_none();
''','''            let last = next.is_null() || Node::get_next_opt(next).is_none();
'''))]
DEMO='''use numeric_utils::intern::Interner;
use std::rc::Rc;
#[derive(Clone)]
struct V(usize, #[allow(dead_code)] Rc<()>);
impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.0 == o.0 } }
fn main() {
    let r = Rc::new(());
    for n in [0usize, 1, 33, 70, 140] {
        let l = Interner::<V>::new();
        for k in 0..n { l.add::<_, V>(V(k, r.clone())); }
        assert_eq!(Rc::strong_count(&r), 1 + n);
        drop(l);
        assert_eq!(Rc::strong_count(&r), 1);
    }
}
'''
