"""P26 - operands of different shape do not combine."""
from .witc import Wit, run as _run

RULE = ('Client programs that combine operands of different lengths, widths or dimensions, or take a result for another shape than it has, are given to the type checker '
        'with the interface of the current tree; each must be refused with a type error while the same program with agreeing shapes is accepted.')
TY = 'E0308 E0277 E0271 E0599 E0369 E0368'
W = []


def shapes(name, where, rule, prog, good, bad, codes=TY):
    """prog has %s places; good and bad are the tuples that fill them"""
    W.append(Wit(name, where, rule, prog % good, prog % bad, codes))


def both(name, where, rule, prog, n=1, codes=TY):
    """two places, filled 2/2 in the control and 2/3, 3/2, 1/2 and 2/0 in the witnesses"""
    for a, b in ((2, 3), (3, 2), (1, 2), (2, 0)):
        shapes('%s: %d with %d' % (name, a, b), where, rule, prog, (a, a), (a, b), codes)


def vectors():
    p = 'use numeric_compounds::vector::Vector;\nuse numeric_traits::ops::checked::*;\n'
    f = 'crates/compounds/src/vector.rs'
    for o, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div'), ('%%', 'rem')):
        both('vector ' + nm, f, 'vectors of different dimension do not combine', p + 'pub fn f(a: Vector<i32, %s>, b: Vector<i32, %s>) { a ' + o + ' b; }')
        both('vector %s by reference' % nm, f, 'vectors of different dimension do not combine', p + 'pub fn f(a: Vector<i32, %s>, b: &Vector<i32, %s>) { a ' + o + ' b; }')
        both('vector %s in place' % nm, f, 'vectors of different dimension do not combine', p + 'pub fn f(mut a: Vector<i32, %s>, b: Vector<i32, %s>) { a ' + o + '= b; }')
        both('vector %s in place by reference' % nm, f, 'vectors of different dimension do not combine', p + 'pub fn f(mut a: Vector<i32, %s>, b: &Vector<i32, %s>) { a ' + o + '= b; }')
        both('dimension of vector ' + nm, f, 'the result has the dimension of the operands', p + 'pub fn f(a: Vector<i32, %s>) -> Vector<i32, %s> { a.clone() ' + o + ' a }')
        both('dimension of vector %s by a scalar' % nm, f, 'the result has the dimension of the operand', p + 'pub fn f(a: Vector<i32, %s>) -> Vector<i32, %s> { a ' + o + ' 1 }')
    for m in ('checked_add', 'checked_sub'):
        both('vector ' + m, f, 'vectors of different dimension do not combine', p + 'pub fn f(a: Vector<i32, %s>, b: Vector<i32, %s>) { a.' + m + '(b); }')
    for m in ('dot_product', 'distance_squared', 'distance', 'wedge'):
        both('vector ' + m, f, 'vectors of different dimension do not combine', p + 'pub fn f(a: Vector<f64, %s>, b: Vector<f64, %s>) { Vector::' + m + '(a, b); }')
    both('width of a row', f, 'a row is as wide as the vector', p + 'pub fn f(a: Vector<f64, %s>) -> numeric_compounds::matrix::Matrix<f64, 1, %s> { a.into_row() }')
    both('height of a column', f, 'a column is as high as the vector', p + 'pub fn f(a: Vector<f64, %s>) -> numeric_compounds::matrix::Matrix<f64, %s, 1> { a.into_column() }')
    both('new vector', f, 'a vector has the dimension of the array', p + 'pub fn f(a: [f64; %s]) -> Vector<f64, %s> { Vector::new(a) }')
    both('vector from an array', f, 'a vector has the dimension of the array', p + 'pub fn f(a: [i32; %s]) -> Vector<i32, %s> { a.into() }')
    both('array from a vector', f, 'an array has the length of the vector', p + 'pub fn f(a: Vector<i32, %s>) -> [i32; %s] { a.into() }')
    both('vector comparison', f, 'vectors of different dimension do not compare', p + 'pub fn f(a: Vector<i32, %s>, b: Vector<i32, %s>) -> bool { a == b }')


def matrices():
    p = 'use numeric_compounds::vector::Vector;\nuse numeric_compounds::matrix::*;\n'
    f = 'crates/compounds/src/matrix/static.rs'
    T = 'Matrix<f64, %s, %s>'
    for o, nm in (('+', 'sum'), ('-', 'difference')):
        for g, b in (((2, 3, 2, 3), (2, 3, 3, 2)), ((2, 3, 2, 3), (2, 3, 2, 2)), ((2, 3, 2, 3), (2, 3, 3, 3)), ((2, 2, 2, 2), (2, 2, 1, 1))):
            shapes('matrix %s: %dx%d with %dx%d' % ((nm,) + b), f, 'matrices of different shape do not combine', p + 'pub fn f(a: ' + T + ', b: ' + T + ') { a ' + o + ' b; }', g, b)
        for b in ((2, 3, 3, 2), (2, 3, 2, 2), (2, 3, 3, 3)):
            shapes('shape of matrix %s: %dx%d as %dx%d' % ((nm,) + b), f, 'the result has the shape of the operands', p + 'pub fn f(a: ' + T + ') -> ' + T + ' { a.clone() ' + o + ' a }', b[:2] + b[:2], b)
    for b in ((2, 3, 2, 3), (2, 3, 2, 4), (2, 3, 4, 2), (1, 2, 1, 2), (2, 1, 2, 1)):
        shapes('matrix product: %dx%d by %dx%d' % b, f, 'the left width must be the right height', p + 'pub fn f(a: ' + T + ', b: ' + T + ') { a * b; }', (b[0], b[1], b[1], b[3]), b)
    for a, r in (((2, 3, 3, 4), (4, 2)), ((2, 3, 3, 4), (3, 3)), ((2, 3, 3, 4), (2, 3)), ((2, 3, 3, 4), (3, 4)), ((1, 2, 2, 3), (3, 1))):
        shapes('shape of matrix product: %dx%d by %dx%d as %dx%d' % (a + r), f, 'the product has the left height and the right width',
               p + 'pub fn f(a: ' + T + ', b: ' + T + ') -> ' + T + ' { a * b }', a + (a[0], a[3]), a + r)
    for b in ((2, 3, 2, 3), (1, 2, 1, 2), (2, 3, 3, 3)):
        shapes('shape of the transpose: %dx%d as %dx%d' % b, f, 'the transpose swaps height and width', p + 'pub fn f(a: ' + T + ') -> ' + T + ' { a.transpose() }', b[:2] + (b[1], b[0]), b)
    for b in ((3, 2, 3, 2), (2, 2, 2, 3), (2, 2, 3, 2)):
        shapes('matrix from columns: %d columns of %d as %dx%d' % (b[1], b[0], b[3], b[2]), f, 'as many columns as given, as high as they are',
               p + 'pub fn f(a: [Vector<f64, %s>; %s]) -> ' + T + ' { Matrix::from_columns(a) }', (b[0], b[1], b[0], b[1]), (b[0], b[1], b[3], b[2]))
        shapes('matrix from rows: %d rows of %d as %dx%d' % (b[1], b[0], b[2], b[3]), f, 'as many rows as given, as wide as they are',
               p + 'pub fn f(a: [Vector<f64, %s>; %s]) -> ' + T + ' { Matrix::from_rows(a) }', (b[0], b[1], b[1], b[0]), b)
    for b in ((2, 3), (3, 2), (1, 2)):
        shapes('determinant of %dx%d' % b, f, 'only a square matrix has a determinant', p + 'pub fn f(a: ' + T + ') { a.determinant(); }', (b[0], b[0]), b)
        shapes('diagonal of %dx%d' % b, f, 'only a square matrix has a diagonal', p + 'pub fn f(a: ' + T + ') { a.diag(); }', (b[0], b[0]), b)
        shapes('length of the diagonal: %d as %d' % b, f, 'the diagonal is as long as the matrix', p + 'pub fn f(a: Matrix<f64, ' + str(b[0]) + ', %s>) -> Vector<f64, %s> { a.diag() }', (b[0], b[0]), b)
    for b in ((2, 3, 3, 2), (2, 3, 2, 2), (2, 2, 1, 1)):
        shapes('matrix comparison: %dx%d with %dx%d' % b, f, 'matrices of different shape do not compare', p + 'pub fn f(a: ' + T + ', b: ' + T + ') -> bool { a == b }', b[:2] + b[:2], b)


def iters():
    p = 'use numeric_static_iter::*;\n'
    f = 'crates/static-iter/src/lib.rs'
    A = '(a: [u8; %s], b: [u8; %s])'
    r = 'sources of different length do not combine'
    both('zip', f, r, p + 'pub fn f' + A + ' { a.into_static_iter().zip(b); }')
    both('zip and collect', f, r, p + 'pub fn f' + A + ' { a.into_static_iter().zip(b).map(|_| 0u8).fold((), |_, _| ()); }')
    both('zip of borrowed', f, r, p + 'pub fn f(a: &[u8; %s], b: &[u8; %s]) { a.into_static_iter().zip(b); }')
    both('zip with a counter', f, r, p + 'pub fn f(a: [u8; %s]) { a.into_static_iter().zip(StaticRangeTo::<%s>); }')
    both('zip_all of a pair', 'crates/static-iter/src/zip_all.rs', r, p + 'pub fn f' + A + ' { zip_all((a, b)).map(|_| 0u8).fold((), |_, _| ()); }')
    both('length of zip_all of arrays', 'crates/static-iter/src/zip_all.rs', 'as many items as each source has', p + 'pub fn f(a: [[u8; %s]; 5]) -> [[u8; 5]; %s] { zip_all(a).collect() }')
    for nm, mk in (('array', 'a.into_static_iter()'), ('map', 'a.into_static_iter().map(|x| x)'), ('enumerate', 'a.into_static_iter().enumerate().map(|(_, x)| x)'),
                   ('zip', 'a.into_static_iter().zip(a).map(|(x, _)| x)')):
        both('length collected, ' + nm, f, 'a collection has the length of its source', p + 'pub fn f(a: [u8; %s]) -> [u8; %s] { ' + mk + '.collect() }')
        both('length collected optionally, ' + nm, f, 'a collection has the length of its source', p + 'pub fn f(a: [u8; %s]) -> Option<[u8; %s]> { ' + mk + '.map(Some).collect() }')
        both('length collected fallibly, ' + nm, f, 'a collection has the length of its source', p + 'pub fn f(a: [u8; %s]) -> Result<[u8; %s], ()> { ' + mk + '.map(Ok).collect() }')
    both('length collected, counter', f, 'a collection has the length of its source', p + 'pub fn f() -> [usize; %s] { StaticRangeTo::<%s>.into_static_iter().collect() }')


def widths():
    p = 'use numeric_ints::*;\nuse numeric_traits::ops::checked::*; use numeric_traits::ops::saturating::*; use numeric_traits::ops::wrapping::*; use core::cmp::Ordering;\n'
    for t, f in (('U', 'crates/ints/src/u.rs'), ('I', 'crates/ints/src/i.rs')):
        r = 'fixed-width integers of different width do not combine'
        A = '(a: %s<%%s>, b: %s<%%s>)' % (t, t)
        for o, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div'), ('%%', 'rem'), ('&', 'and'), ('|', 'or'), ('^', 'xor')):
            both('%s %s' % (t, nm), f, r, p + 'pub fn f' + A + ' { a ' + o + ' b; }')
            both('width of %s %s' % (t, nm), f, 'the result has the width of the operands', p + 'pub fn f(a: %s<%%s>) -> %s<%%s> { a.clone() ' % (t, t) + o + ' a }')
        both('%s equality' % t, f, r, p + 'pub fn f' + A + ' -> bool { a == b }')
        both('%s order' % t, f, r, p + 'pub fn f' + A + ' -> bool { a < b }')
        both('width of %s assigned' % t, f, 'a fixed-width integer keeps its width', p + 'pub fn f(a: %s<%%s>) -> %s<%%s> { a }' % (t, t))
        for m in ('checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'saturating_add', 'saturating_sub', 'saturating_mul'):
            both('%s %s' % (t, m), f, r, p + 'pub fn f' + A + ' { a.' + m + '(b); }')
    both('bytes of U', 'crates/ints/src/u.rs', 'as many bytes as the width', p + 'pub fn f(a: U<%s>) -> [u8; %s] { a.to_le_bytes() }')
    both('big-endian bytes of U', 'crates/ints/src/u.rs', 'as many bytes as the width', p + 'pub fn f(a: U<%s>) -> [u8; %s] { a.to_be_bytes() }')
    both('U from bytes', 'crates/ints/src/u.rs', 'as wide as there are bytes', p + 'pub fn f(a: [u8; %s]) -> U<%s> { U::from_le_bytes(a) }')
    both('U from big-endian bytes', 'crates/ints/src/u.rs', 'as wide as there are bytes', p + 'pub fn f(a: [u8; %s]) -> U<%s> { U::from_be_bytes(a) }')


def run():
    W.clear()
    vectors()
    matrices()
    iters()
    widths()
    return _run('P26', RULE, W, ['the compiler\'s type checker is right'])
