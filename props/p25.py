"""P25 - safe programs cannot reach dead, moved or aliased values."""
from .witc import Wit, run as _run

RULE = ('Client programs without unsafe code that would reach a value after its owner ended, through two paths of which one is exclusive, or '
        'with a longer life than it was stored with, are given to the compiler\'s type and borrow checker together with the interface of the current tree; '
        'each must be refused with the borrow, lifetime or privacy error it is about while a control that differs only in that point is accepted.')

REFS = 'crates/compounds/src/matrix/refs.rs'
DYN = 'crates/compounds/src/matrix/dynamic.rs'
INT = 'crates/utils/src/intern.rs'
SIT = 'crates/static-iter/src/lib.rs'
ARR = 'crates/static-iter/src/array.rs'
BIT = 'crates/bits/src/bit_slice/iter.rs'
BIG = 'crates/ints/src/big_int.rs'

C = 'use numeric_compounds::matrix::*; use numeric_compounds::vector::Vector;\n'
MK = {'Matrix': ('fn mk() -> Matrix<String, 1, 1> { todo!() }\n', 'Matrix<String, 1, 1>'),
      'DynMatrix': ('fn mk() -> DynMatrix<String> { todo!() }\n', 'DynMatrix<String>')}
LIFE = 'E0597 E0505 E0515 E0716 E0503 E0506 E0502 E0499 E0521 E0106 E0310 E0621 E0700 E0491 -'
W = []


def w(name, where, rule, good, bad, codes=LIFE):
    W.append(Wit(name, where, rule, good, bad, codes))


def matrices():
    for m, (mk, ty) in MK.items():
        for v, b in (('MatrixRef', '&'), ('MatrixMut', '&mut ')):
            p = C + mk
            it = 'From<%s%s> for %s' % (b, m, v)
            use = 'fn use_(v: %s<String>) -> usize { v[(0, 0)].len() }\n' % v
            w('%s of %s: not used after the matrix is dropped' % (v, m), REFS, 'a view borrows its matrix (%s)' % it,
              p + use + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); use_(v); drop(m); }' % (v, b),
              p + use + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); drop(m); use_(v); }' % (v, b))
            w('%s of %s: not returned from the scope of the matrix' % (v, m), REFS, 'a view borrows its matrix (%s)' % it,
              p + 'pub fn f<\'a>(m: &\'a mut %s) -> %s<\'a, String> { %s::from(%s*m) }' % (ty, v, v, b),
              p + 'pub fn f<\'a>() -> %s<\'a, String> { let mut m = mk(); %s::from(%sm) }' % (v, v, b))
            w('%s of %s: no longer life than the borrow' % (v, m), REFS, 'a view lives no longer than the borrow it was made from (%s)' % it,
              p + 'pub fn f<\'a, \'b: \'a>(m: &\'b mut %s) -> %s<\'a, String> { %s::from(%s*m) }' % (ty, v, v, b),
              p + 'pub fn f<\'a, \'b>(m: &\'b mut %s) -> %s<\'a, String> { %s::from(%s*m) }' % (ty, v, v, b))
            w('%s of %s: the matrix is not changed meanwhile' % (v, m), REFS, 'while a view is in use its matrix is not written (%s)' % it,
              p + use + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); use_(v); m[(0, 0)] = String::new(); }' % (v, b),
              p + use + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); m[(0, 0)] = String::new(); use_(v); }' % (v, b))
            w('%s of %s: the matrix is not replaced meanwhile' % (v, m), REFS, 'while a view is in use its matrix is not replaced (%s)' % it,
              p + use + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); use_(v); m = mk(); }' % (v, b),
              p + use + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); m = mk(); use_(v); }' % (v, b))
            w('%s of %s: element references end with the view\'s borrow' % (v, m), REFS, 'a reference to an element lives no longer than the matrix',
              p + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); let e = &v[(0, 0)]; e.len(); drop(m); }' % (v, b),
              p + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); let e = &v[(0, 0)]; drop(m); e.len(); }' % (v, b))
            w('%s of %s: elements are not moved out' % (v, m), REFS, 'an element is lent, not handed out',
              p + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); let e = v[(0, 0)].clone(); }' % (v, b),
              p + 'pub fn f() { let mut m = mk(); let v = %s::from(%sm); let e: String = v[(0, 0)]; }' % (v, b), 'E0507')
        p = C + mk
        w('MatrixMut of %s: the matrix is not read meanwhile' % m, REFS, 'while an exclusive view is in use its matrix is not reachable',
          p + 'pub fn f() { let mut m = mk(); let mut v = MatrixMut::from(&mut m); v[(0, 0)] = String::new(); let n = m[(0, 0)].len(); }',
          p + 'pub fn f() { let mut m = mk(); let mut v = MatrixMut::from(&mut m); let n = m[(0, 0)].len(); v[(0, 0)] = String::new(); }')
        w('MatrixMut of %s: needs an exclusive borrow' % m, REFS, 'an exclusive view is made only from an exclusive borrow',
          p + 'pub fn f(m: &mut %s) { let v = MatrixMut::from(m); }' % ty,
          p + 'pub fn f(m: &%s) { let v: MatrixMut<String> = MatrixMut::from(m); }' % ty, 'E0277 E0308')
        w('two MatrixMut of one %s' % m, REFS, 'there is one exclusive view at a time',
          p + 'pub fn f() { let mut m = mk(); let mut a = MatrixMut::from(&mut m); a[(0, 0)] = String::new(); let mut b = MatrixMut::from(&mut m); b[(0, 0)] = String::new(); }',
          p + 'pub fn f() { let mut m = mk(); let mut a = MatrixMut::from(&mut m); let mut b = MatrixMut::from(&mut m); a[(0, 0)] = String::new(); b[(0, 0)] = String::new(); }')
        w('MatrixRef and MatrixMut of one %s' % m, REFS, 'a shared and an exclusive view do not overlap',
          p + 'pub fn f() { let mut m = mk(); let mut a = MatrixMut::from(&mut m); a[(0, 0)] = String::new(); let b = MatrixRef::from(&m); b[(0, 0)].len(); }',
          p + 'pub fn f() { let mut m = mk(); let mut a = MatrixMut::from(&mut m); let b = MatrixRef::from(&m); a[(0, 0)] = String::new(); b[(0, 0)].len(); }')
        # the matrix itself
        w('%s: element references end with the matrix' % m, DYN if m[0] == 'D' else 'crates/compounds/src/matrix/static.rs', 'a reference to an element borrows the matrix',
          p + 'pub fn f() { let m = mk(); let e = &m[(0, 0)]; e.len(); drop(m); }',
          p + 'pub fn f() { let m = mk(); let e = &m[(0, 0)]; drop(m); e.len(); }')
        w('%s: rows are not swapped under a reference' % m, DYN if m[0] == 'D' else 'crates/compounds/src/matrix/static.rs', 'a reference to an element excludes changes',
          p + 'pub fn f() { let mut m = mk(); let e = &m[(0, 0)]; e.len(); m.swap_rows(0, 0); }',
          p + 'pub fn f() { let mut m = mk(); let e = &m[(0, 0)]; m.swap_rows(0, 0); e.len(); }')
    p = C
    w('MatrixMut is not duplicated by copy', REFS, 'an exclusive view has one holder',
      p + 'pub fn f(mut a: MatrixMut<i32>) { let mut b = a; b[(0, 0)] = 1; }',
      p + 'pub fn f(mut a: MatrixMut<i32>) { let mut b = a; b[(0, 0)] = 1; a[(0, 0)] = 2; }', 'E0382')
    w('MatrixMut is not duplicated by clone', REFS, 'an exclusive view has one holder',
      p + 'fn c<T: Clone>() {} pub fn f<\'a>() { c::<MatrixRef<\'a, i32>>() }',
      p + 'fn c<T: Clone>() {} pub fn f<\'a>() { c::<MatrixMut<\'a, i32>>() }', 'E0277')
    w('two element references through MatrixMut', REFS, 'element references through an exclusive view exclude each other',
      p + 'pub fn f(mut a: MatrixMut<i32>) { let x = &mut a[(0, 0)]; *x = 1; let y = &mut a[(0, 0)]; *y = 2; }',
      p + 'pub fn f(mut a: MatrixMut<i32>) { let x = &mut a[(0, 0)]; let y = &mut a[(0, 0)]; *x = 1; *y = 2; }', 'E0499')
    w('writing through a shared MatrixMut', REFS, 'writing through an exclusive view needs exclusive access to the view',
      p + 'pub fn f(a: &mut MatrixMut<i32>) { a[(0, 0)] = 1; }',
      p + 'pub fn f(a: &MatrixMut<i32>) { a[(0, 0)] = 1; }', 'E0594 E0596')
    w('writing through MatrixRef', REFS, 'a shared view does not write',
      p + 'pub fn f(a: &mut MatrixMut<i32>) { a[(0, 0)] = 1; }',
      p + 'pub fn f(a: &mut MatrixRef<i32>) { a[(0, 0)] = 1; }', 'E0594 E0596')
    w('element reference outliving a MatrixMut', REFS, 'an exclusive element reference borrows the view',
      p + 'pub fn f<\'a>(v: &\'a mut MatrixMut<\'_, i32>) -> &\'a mut i32 { &mut v[(0, 0)] }',
      p + 'pub fn f<\'a, \'b>(v: &\'b mut MatrixMut<\'a, i32>) -> &\'a mut i32 { &mut v[(0, 0)] }')
    w('MatrixMut: elements keep their life', REFS, 'through an exclusive view no shorter-lived element can be stored in the matrix',
      p + 'pub fn f<\'a, \'s>(v: MatrixMut<\'a, &\'static str>) -> MatrixMut<\'a, &\'static str> { v }',
      p + 'pub fn f<\'a, \'s>(v: MatrixMut<\'a, &\'static str>) -> MatrixMut<\'a, &\'s str> { v }')
    w('MatrixRef: elements live no longer than stored', REFS, 'a view does not lengthen the life of the elements',
      p + 'pub fn f<\'a, \'s>(v: MatrixRef<\'a, &\'static str>) -> MatrixRef<\'a, &\'s str> { v }',
      p + 'pub fn f<\'a, \'s>(v: MatrixRef<\'a, &\'s str>) -> MatrixRef<\'a, &\'static str> { v }')
    for v in ('MatrixRef', 'MatrixMut'):
        w('%s lives no longer than made' % v, REFS, 'a view does not lengthen its own life',
          p + 'pub fn f<\'a>(v: %s<\'static, i32>) -> %s<\'a, i32> { v }' % (v, v),
          p + 'pub fn f<\'a>(v: %s<\'a, i32>) -> %s<\'static, i32> { v }' % (v, v))
        w('%s is made only by the library' % v, REFS, 'the extent of a view cannot be chosen by a client',
          p + 'pub fn f(v: &%s<i32>) { let n = &v[(0, 0)]; }' % v,
          p + 'pub fn f(v: &%s<i32>) { let mut v2 = %s::<i32>::new(core::ptr::NonNull::dangling(), 5, 5); }' % (v, v), 'E0624 E0599')
        w('the extent of %s is not written by a client' % v, REFS, 'the extent of a view cannot be chosen by a client',
          p + 'pub fn f(v: &mut %s<i32>) { let n = &v[(0, 0)]; }' % v,
          p + 'pub fn f(v: &mut %s<i32>) { v.rows = 1000; v.cols = 1000; }' % v, 'E0616 E0609')
    w('the extent of DynMatrix is not written by a client', DYN, 'the extent of a matrix cannot be chosen apart from its data',
      p + 'pub fn f(v: &mut DynMatrix<i32>) { let n = v.rows() + v.cols(); }',
      p + 'pub fn f(v: &mut DynMatrix<i32>) { v.rows = 1000; v.cols = 1000; }', 'E0616 E0609 E0615')
    w('the data of DynMatrix is not taken by a client', DYN, 'the extent of a matrix cannot be chosen apart from its data',
      p + 'pub fn f(v: &mut DynMatrix<i32>) { let n = v.rows(); }',
      p + 'pub fn f(v: &mut DynMatrix<i32>) { let d = core::mem::take(&mut v.data); }', 'E0616 E0609')


def interner():
    p = 'use numeric_utils::*; use numeric_utils::intern::InternId;\n'
    for g, post in (('get', ''), ('try_get', '.unwrap()')):
        w('Interner::%s: not used after the interner is dropped' % g, INT, 'a stored value is lent by the interner',
          p + 'pub fn f(k: InternId) { let i = Interner::<String>::new(); let r = i.%s(k)%s; r.len(); drop(i); }' % (g, post),
          p + 'pub fn f(k: InternId) { let i = Interner::<String>::new(); let r = i.%s(k)%s; drop(i); r.len(); }' % (g, post))
        w('Interner::%s: not returned from its scope' % g, INT, 'a stored value is lent by the interner',
          p + 'pub fn f<\'a>(k: InternId, i: &\'a Interner<String>) -> &\'a String { i.%s(k)%s }' % (g, post),
          p + 'pub fn f<\'a>(k: InternId) -> &\'a String { let i = Interner::<String>::new(); i.%s(k)%s }' % (g, post))
        w('Interner::%s: no longer life than the borrow' % g, INT, 'a stored value is lent for the life of the borrow',
          p + 'pub fn f<\'a, \'b: \'a>(k: InternId, i: &\'b Interner<String>) -> &\'a String { i.%s(k)%s }' % (g, post),
          p + 'pub fn f<\'a, \'b>(k: InternId, i: &\'b Interner<String>) -> &\'a String { i.%s(k)%s }' % (g, post))
        w('Interner::%s: stored values are not changed' % g, INT, 'a stored value is lent for reading only',
          p + 'pub fn f(k: InternId, i: &Interner<String>) { let r: &String = i.%s(k)%s; }' % (g, post),
          p + 'pub fn f(k: InternId, i: &Interner<String>) { let r: &mut String = i.%s(k)%s; }' % (g, post), 'E0308')
    w('Interner: stored values keep their life (shared)', INT, 'a shorter-lived value cannot be stored through a shared interner',
      p + 'pub fn f<\'a>(i: &\'a Interner<&\'static str>) -> &\'a Interner<&\'static str> { i }',
      p + 'pub fn f<\'a>(i: &\'a Interner<&\'static str>) -> &\'a Interner<&\'a str> { i }')
    w('Interner: stored values live no longer than stored', INT, 'an interner does not lengthen the life of its values',
      p + 'pub fn f<\'a>(i: Interner<&\'a str>) -> Interner<&\'a str> { i }',
      p + 'pub fn f<\'a>(i: Interner<&\'a str>) -> Interner<&\'static str> { i }')
    w('Interner is not copied', INT, 'the stored values have one owner',
      p + 'pub fn f(i: Interner<i32>) { let j = i; drop(j); }',
      p + 'pub fn f(i: Interner<i32>) { let j = i; drop(j); drop(i); }', 'E0382')
    w('Interner: the store is not reachable by a client', INT, 'slots are claimed and filled only by the library',
      p + 'pub fn f(i: &Interner<i32>) { i.refcount(InternId::from_usize(0)); }',
      p + 'pub fn f(i: &Interner<i32>) { let s = &i.inner; }', 'E0616')
    w('Interner: a value that borrows ends with what it borrows', INT, 'a stored reference does not outlive its target',
      p + 'pub fn f() { let s = String::new(); let i = Interner::<&str>::new(); let k = i.add::<&str, &str>(&s); i.get(k).len(); drop(i); drop(s); }',
      p + 'pub fn f() { let s = String::new(); let i = Interner::<&str>::new(); let k = i.add::<&str, &str>(&s); drop(s); i.get(k).len(); drop(i); }')


def static_iter():
    p = 'use numeric_static_iter::*;\n'
    for nm, mk in (('array', '(&a).into_static_iter()'), ('mapped', '(&a).into_static_iter().map(|x| x)'),
                   ('enumerated', '(&a).into_static_iter().enumerate().map(|(_, x)| x)'), ('zipped', '(&a).into_static_iter().zip([0u8; 2]).map(|(x, _)| x)'),
                   ('zipped all', 'zip_all(((&a), [0u8; 2])).map(|(x, _)| x)')):
        w('borrowed items, %s: not used after the array is dropped' % nm, ARR, 'iteration over a borrowed array borrows it',
          p + 'pub fn f() { let a = [String::new(), String::new()]; let it = %s; let r: [&String; 2] = it.collect(); drop(a); }' % mk,
          p + 'pub fn f() { let a = [String::new(), String::new()]; let it = %s; drop(a); let r: [&String; 2] = it.collect(); }' % mk)
        w('borrowed items, %s: collected references end with the array' % nm, ARR, 'collected references borrow the array',
          p + 'pub fn f() { let a = [String::new(), String::new()]; let it = %s; let r: [&String; 2] = it.collect(); r.len(); drop(a); }' % mk,
          p + 'pub fn f() { let a = [String::new(), String::new()]; let it = %s; let r: [&String; 2] = it.collect(); drop(a); r[0].len(); }' % mk)
    w('a borrowed array is not moved out of', ARR, 'iteration over a borrowed array hands out references',
      p + 'pub fn f() { let a = [String::new(), String::new()]; let r: [&String; 2] = (&a).into_static_iter().collect(); }',
      p + 'pub fn f() { let a = [String::new(), String::new()]; let r: [String; 2] = (&a).into_static_iter().collect(); }', 'E0271 E0277 E0308')
    w('iteration over an array consumes it', ARR, 'an array is iterated once',
      p + 'pub fn f() { let a = [String::new()]; let it = a.into_static_iter(); }',
      p + 'pub fn f() { let a = [String::new()]; let it = a.into_static_iter(); let b = a; }', 'E0382')
    for nm, use in (('collect', 'let r: [String; 2] = it.collect();'), ('fold', 'it.fold((), |_, _| ());'), ('try_fold', 'let _ = it.try_fold((), |_, _| Ok::<(), ()>(()));'),
                    ('any', 'it.any(|_| true);'), ('all', 'it.all(|_| true);'), ('map', 'let m = it.map(|x| x);'), ('zip', 'let m = it.zip([0u8; 2]);'), ('enumerate', 'let m = it.enumerate();')):
        w('%s consumes the iterator' % nm, SIT, 'items are handed out once: an iterator is used up by its consumer',
          p + 'pub fn f() { let it = [String::new(), String::new()].into_static_iter(); %s }' % use,
          p + 'pub fn f() { let it = [String::new(), String::new()].into_static_iter(); %s drop(it); }' % use, 'E0382')
    w('an owning iterator is not cloned', ARR, 'items are handed out once: an owning iterator has one holder',
      p + 'fn c<T: StaticIter<2>>(t: T) {} pub fn f() { c([String::new(), String::new()].into_static_iter()) }',
      p + 'fn c<T: StaticIter<2> + Clone>(t: T) {} pub fn f() { c([String::new(), String::new()].into_static_iter()) }', 'E0277')
    w('an owning iterator of borrowed items ends with them', ARR, 'items keep their life',
      p + 'pub fn f() { let s = String::new(); let it = [&s].into_static_iter(); let r: [&String; 1] = it.collect(); drop(s); }',
      p + 'pub fn f() { let s = String::new(); let it = [&s].into_static_iter(); drop(s); let r: [&String; 1] = it.collect(); }')
    for nm, mk in (('owned', '[String::new(), String::new()].into_static_iter()'), ('mapped', '[1, 2].into_static_iter().map(|x| x)'),
                   ('enumerated', '[1, 2].into_static_iter().enumerate()'), ('zipped', '[1, 2].into_static_iter().zip([3, 4])'),
                   ('zip of arrays', 'zip_all::<_, 2>([[1, 2], [3, 4]])'), ('zip of a pair', 'zip_all::<_, 2>(([1, 2], [3, 4]))')):
        w('indexed access needs unsafe (%s)' % nm, SIT, 'asking for an arbitrary position is not possible for safe code',
          p + 'pub fn f() { let mut it = %s; unsafe { StaticIter::<2>::idx(&mut it, 0) }; }' % mk,
          p + 'pub fn f() { let mut it = %s; StaticIter::<2>::idx(&mut it, 0); }' % mk, 'E0133')
    w('finishing a partial collection needs unsafe', SIT, 'declaring a collection complete is not possible for safe code',
      p + 'pub fn f() { let u = core::ops::ControlFlow::Continue(<[String; 2] as FromStaticIter<String, 2>>::uninit()); let r = unsafe { <[String; 2] as FromStaticIter<String, 2>>::finish(u) }; }',
      p + 'pub fn f() { let u = core::ops::ControlFlow::Continue(<[String; 2] as FromStaticIter<String, 2>>::uninit()); let r = <[String; 2] as FromStaticIter<String, 2>>::finish(u); }', 'E0133')


def rest():
    p = 'use numeric_bits::bit_slice::*;\n'
    w('bit iteration ends with the limbs', BIT, 'iterating over bits borrows the limbs',
      p + 'pub fn f() { let a = vec![0u8; 2]; let it = a.iter_bits(); it.count(); drop(a); }',
      p + 'pub fn f() { let a = vec![0u8; 2]; let it = a.iter_bits(); drop(a); it.count(); }')
    w('limbs are not written during bit iteration', BIT, 'iterating over bits borrows the limbs',
      p + 'pub fn f() { let mut a = vec![0u8; 2]; let it = a.iter_bits(); it.count(); a.set_bit(0, true); }',
      p + 'pub fn f() { let mut a = vec![0u8; 2]; let it = a.iter_bits(); a.set_bit(0, true); it.count(); }')
    w('the slice of limbs borrows them', 'crates/bits/src/bit_slice.rs', 'access as a slice borrows the limbs',
      p + 'pub fn f() { let a = vec![0u8; 2]; let s = BitSliceExt::slice(&a); s.len(); drop(a); }',
      p + 'pub fn f() { let a = vec![0u8; 2]; let s = BitSliceExt::slice(&a); drop(a); s.len(); }')
    p = 'use numeric_ints::BigInt;\n'
    w('a big integer is not copied', BIG, 'a stored big integer is counted: its handle is duplicated only by clone',
      p + 'pub fn f(a: BigInt) { let b = a.clone(); drop(b); drop(a); }',
      p + 'pub fn f(a: BigInt) { let b = a; drop(b); drop(a); }', 'E0382')
    w('the handle of a big integer is not made by a client', BIG, 'handles come only from the library',
      p + 'pub fn f() -> BigInt { BigInt::from(5) }',
      p + 'pub fn f() -> BigInt { BigInt(5) }', 'E0423 E0603 E0618 E0308')


def run():
    W.clear()
    matrices()
    interner()
    static_iter()
    rest()
    return _run('P25', RULE, W, ['the compiler\'s borrow, variance and privacy checks are right'])
