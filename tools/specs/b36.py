ID='b36-rat-isone-numerator'; PROPERTY='P27'
NEEDS='a rational with numerator one and another denominator'
BREAKS='one over any denominator counts as one'
EDITS=[('crates/reals/src/rat.rs',"        *self == Rat::one()","        self.numerator().is_one()")]
DEMO='''use numeric_reals::rat::Rat;
use numeric_traits::identity::One;
fn main() {
    assert!(Rat::new(1, 1).unwrap().is_one());
    assert!(!Rat::new(1, 2).unwrap().is_one());
}
'''
