ID='b07-complex-div-imag'; PROPERTY='P21'
NEEDS='a complex division where both operands have a non-zero real and imaginary part'
BREAKS='the imaginary part of a quotient is that of the product with the divisor'
EDITS=[('crates/compounds/src/complex.rs','(self.imag * rhs.real - self.real * rhs.imag) / divisor','(self.imag * rhs.real + self.real * rhs.imag) / divisor')]
DEMO='''use numeric_compounds::complex::Complex;
fn main() {
    let q = Complex::new(1f64, 1.) / Complex::new(1f64, 1.);
    assert_eq!((*q.real(), *q.imag()), (1., 0.));
}
'''
