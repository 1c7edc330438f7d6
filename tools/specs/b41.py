ID='b41-float-be-odd'; PROPERTY='P12'
NEEDS='a float container of odd width written in big-endian order'
BREAKS='the bytes are exchanged in two halves, so an odd width keeps some bytes in little-endian position'
EDITS=[('crates/reals/src/f.rs',"        self.0.reverse();\n        self.0","        let half = (N + 1) / 2;\n        for i in 0..N / 2 {\n            self.0.swap(i, half + (N / 2 - 1 - i) - (N % 2));\n        }\n        self.0")]
DEMO='''use numeric_reals::f::F;
fn main() {
    assert_eq!(F::<4>::from_le_bytes([1, 2, 3, 4]).to_be_bytes(), [4, 3, 2, 1]);
    assert_eq!(F::<3>::from_le_bytes([1, 2, 3]).to_be_bytes(), [3, 2, 1]);
}
'''
