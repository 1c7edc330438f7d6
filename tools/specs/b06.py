ID='b06-vector-cross-y'; PROPERTY='P20'
NEEDS='a cross product of vectors outside the coordinate planes'
BREAKS='one term of the cross product uses the wrong coordinate'
EDITS=[('crates/compounds/src/vector.rs','let z2 = self.y().clone() * other.x().clone();','let z2 = self.x().clone() * other.y().clone();')]
DEMO='''use numeric_compounds::vector::Vector;
fn main() {
    let a = Vector::new([1f64, 2., 3.]);
    let b = Vector::new([4f64, 5., 7.]);
    let c = a.cross(b);
    assert_eq!([*c.x(), *c.y(), *c.z()], [-1., 5., -3.]);
}
'''
