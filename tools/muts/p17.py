U='crates/utils/src/'
MUTS=[
 ('P17','bug','list send any',[(U+'linked.rs','unsafe impl<T: Send> Send for','unsafe impl<T> Send for')]),
 ('P17','bug','list send sync',[(U+'linked.rs','unsafe impl<T: Send> Send for','unsafe impl<T: Sync> Send for')]),
 ('P17','bug','list sync send',[(U+'linked.rs','unsafe impl<T: Send + Sync> Sync for','unsafe impl<T: Send> Sync for')]),
 ('P17','bug','list sync sync',[(U+'linked.rs','unsafe impl<T: Send + Sync> Sync for','unsafe impl<T: Sync> Sync for')]),
 ('P17','bug','interned sync send',[(U+'intern.rs','unsafe impl<T: Send + Sync> Sync for','unsafe impl<T: Send> Sync for')]),
 ('P17','bug','iter phantom',[(U+'linked.rs','phantom: PhantomData<&\'a T>','phantom: PhantomData<&\'a ()>')]),
 ('P17','bug','interner sync',[(U+'intern.rs','impl<T> Interner<T>\nwhere','unsafe impl<T> Sync for Interner<T> {}\nimpl<T> Interner<T>\nwhere')]),
 ('P17','bug','view send',[('crates/compounds/src/matrix/refs.rs','use','unsafe impl<T> Send for MatrixRef<\'_, T> {}\nuse')]),
 ('P17','ref','where form',[(U+'linked.rs','unsafe impl<T: Send> Send for UnsyncLinked<T> {}','unsafe impl<T> Send for UnsyncLinked<T> where T: Send {}')]),
 ('P17','ref','view send ok',[('crates/compounds/src/matrix/refs.rs','use','unsafe impl<T: Sync> Send for MatrixRef<\'_, T> {}\nuse')]),
]
