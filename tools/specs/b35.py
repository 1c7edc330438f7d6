ID='b35-dot-any-dimension'; PROPERTY='P26'
NEEDS='two vectors of different dimension given to the dot product'
BREAKS='the dot product of vectors of different dimension is accepted and ignores the extra components'
EDITS=[('crates/compounds/src/vector.rs',"pub fn dot_product(lhs: Vector<T, N>, rhs: Vector<T, N>) -> T {","pub fn dot_product<const M: usize>(lhs: Vector<T, N>, rhs: Vector<T, M>) -> T {")]
DEMO='''use numeric_compounds::vector::Vector;
fn main() { assert_eq!(Vector::dot_product(Vector::new([1.0, 2.0]), Vector::new([3.0, 4.0])), 11.0); }
'''
BAD='''use numeric_compounds::vector::Vector;
fn main() { println!("{}", Vector::dot_product(Vector::new([1.0, 2.0]), Vector::new([3.0, 4.0, 5.0]))); }
'''
