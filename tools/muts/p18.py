L='crates/utils/src/linked.rs'
I='crates/utils/src/intern.rs'
def B(n,*e): return ('P18','bug',n,list(e))
def R(n,*e): return ('P18','ref',n,list(e))
MUTS=[
 B('publish relaxed',(I,'self.refs.store(1, Ordering::Release)','self.refs.store(1, Ordering::Relaxed)')),
 B('publish two',(I,'self.refs.store(1, Ordering::Release)','self.refs.store(2, Ordering::Release)')),
 B('claim relaxed',(I,'compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)','compare_exchange(count, new, Ordering::Relaxed, Ordering::Relaxed)')),
 B('claim release',(I,'compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)','compare_exchange(count, new, Ordering::Release, Ordering::Acquire)')),
 B('claim takes ref',(I,'if count == 0 { CLAIMED } else { count + 1 }','count + 1')),
 B('acquire plus 2',(I,'{ count + 1 };','{ count + 2 };')),
 B('acquire no wait',(I,'''            if count == CLAIMED {
                hint::spin_loop();
                count = self.refs.load(Ordering::Acquire);
                continue;
            }
''','''            hint::spin_loop();
''')),
 B('acquire dead when one',(I,'Ok(_) => return count == 0','Ok(_) => return count <= 1')),
 B('set_next relaxed',(L,'next.compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)','next.compare_exchange(ptr::null_mut(), new, Ordering::Relaxed, Ordering::Relaxed)')),
 B('set_next acquire only',(L,'next.compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)','next.compare_exchange(ptr::null_mut(), new, Ordering::Acquire, Ordering::Acquire)')),
 B('head cas relaxed',(L,'''            .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
        {''','''            .compare_exchange(ptr::null_mut(), new, Ordering::Relaxed, Ordering::Relaxed)
        {''')),
 B('next opt relaxed',(L,'if ptr.load(Ordering::Acquire).is_null() {','if ptr.load(Ordering::Relaxed).is_null() {')),
 B('iter relaxed',(L,'let ptr = self.cur.load(Ordering::Acquire);','let ptr = self.cur.load(Ordering::Relaxed);')),
 B('get head relaxed',(L,'''        let mut cur_node = self.head.load(Ordering::Acquire);
        if cur''','''        let mut cur_node = self.head.load(Ordering::Relaxed);
        if cur''')),
 B('tail head relaxed',(L,'''        let mut cur_node = self.head.load(Ordering::Acquire);

''','''        let mut cur_node = self.head.load(Ordering::Relaxed);

''')),
 B('tail len 0',(L,'let mut len = 1;','let mut len = 0;')),
 B('tail len 2',(L,'''            len += 1;
        }

''','''            len += 2;
        }

''')),
 B('push stale len',(L,'''                        len += 1;
                    }''','''                    }''')),
 B('push len',(L,'                len + 1\n','                len\n')),
 B('push first',(L,'Ok(_) => 1,','Ok(_) => 0,')),
 B('push swap head',(L,'''        match self
            .head
            .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
        {''','''        match if self.head.load(Ordering::Acquire).is_null() {
            self.head.store(new, Ordering::Release);
            Ok(())
        } else {
            Err(())
        } {''')),
 B('get one more',(L,'for _ in 0..idx {','for _ in 0..=idx {')),
 B('get from one',(L,'for _ in 0..idx {','for _ in 1..idx {')),
 B('iter skip',(L,'self.cur = Node::get_next(ptr);','if let Some(n) = Node::get_next_opt(Node::get_next(ptr).load(Ordering::Acquire)) { self.cur = n }')),
 B('iter stuck',(L,'            self.cur = Node::get_next(ptr);\n','')),
 B('drop leak',(L,'cur = unsafe { Box::from_raw(cur) }.next.load(Ordering::Relaxed);','cur = unsafe { &*cur }.next.load(Ordering::Relaxed);')),
 B('drop first only',(L,'while !cur.is_null() {','if !cur.is_null() {'),(L,'cur = unsafe { Box::from_raw(cur) }.next.load(Ordering::Relaxed);','drop(unsafe { Box::from_raw(cur) });'),(L,'let mut cur = self.head','let cur = self.head')),
 B('is_empty',(L,'self.head.load(Ordering::Acquire).is_null()','!self.head.load(Ordering::Acquire).is_null()')),
 B('try_get claimed',(I,'0 | CLAIMED => None','0 => None')),
 B('try_get dead',(I,'0 | CLAIMED => None','CLAIMED => None')),
 B('try_get relaxed',(I,'match slot.refs.load(Ordering::Acquire) {','match slot.refs.load(Ordering::Relaxed) {')),
 B('idx swap 31',(I,'(offset.0 / 32, offset.0 % 32)','(offset.0 / 32, offset.0 & 15)')),
 B('id 31',(I,'loc1 * 32 + loc2','loc1 * 31 + loc2')),
 B('id swap',(I,'loc1 * 32 + loc2','loc2 * 32 + loc1')),
 B('refcount claimed',(I,'''            CLAIMED => 0,
            count => count,''','''            count => count,''')),
 B('no dead check',(I,'''                    if dead {
                        i.publish();
                    }
''','''                    i.publish();
''')),
 B('no revive publish',(I,'''                    if dead {
                        i.publish();
                    }
''','''                    let _ = dead;
''')),
 B('publish first',(I,'''                    unsafe { slot.set_val(val.into()) };
                    slot.publish();''','''                    slot.publish();
                    unsafe { slot.set_val(val.into()) };''')),
 B('no publish',(I,'''                    slot.publish();
                    break''','''                    break''')),
 B('no decr',(I,'                Self::decr_inner(i);\n','')),
 B('decr twice',(I,'                Self::decr_inner(i);\n','                Self::decr_inner(i);\n                Self::decr_inner(i);\n')),
 B('dead reused without claim',(I,'} else if dead {','} else if dead || i.val_opt().is_none() {')),
 B('live overwritten',(I,'} else if dead {','} else if dead || i.refs.load(Ordering::Acquire) == 1 {')),
 B('fetch sub',(I,'''            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {
                val.checked_sub(1)
            });''','''            .fetch_sub(1, Ordering::AcqRel);''')),
 B('decr relaxed',(I,'.fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {','.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |val| {')),
 B('decr floor one',(I,'val.checked_sub(1)','if val > 1 { Some(val - 1) } else { None }')),
 B('decr wrap',(I,'val.checked_sub(1)','Some(val.wrapping_sub(1))')),
 B('incr two',(I,'fetch_add(1, Ordering::AcqRel)','fetch_add(2, Ordering::AcqRel)')),
 B('incr calls decr',(I,'Self::incr_inner(&self.inner[idx1][idx2]);','Self::decr_inner(&self.inner[idx1][idx2]);')),
 B('incr other slot',(I,'Self::incr_inner(&self.inner[idx1][idx2]);','Self::incr_inner(&self.inner[idx1][idx2 / 2]);')),
 B('dead other slot',(I,'let slot = &self.inner[loc1][loc2];','let slot = &self.inner[loc1][loc2 / 2];')),
 B('dead first chunk',(I,'let slot = &self.inner[loc1][loc2];','let slot = &self.inner[0][loc2];')),
 B('find eq ignored',(I,'is_some_and(|cur_val| val == cur_val.borrow())','is_some_and(|_| true)')),
 B('find ne',(I,'is_some_and(|cur_val| val == cur_val.borrow())','is_some_and(|cur_val| val != cur_val.borrow())')),
 R('set val inline',(I,'unsafe { slot.set_val(val.into()) };','let new: T = val.into();\n                    unsafe { *slot.val.get() = Some(new) };')),
 R('acquire match',(I,'''            let new = if count == 0 { CLAIMED } else { count + 1 };
''','''            let new = match count {
                0 => CLAIMED,
                n => n + 1,
            };
''')),
 R('find nested',(I,'''                } else if dead {
                    return Find::Dead((idx, idx2));
                }
                Self::decr_inner(i);''','''                }
                match dead {
                    true => return Find::Dead((idx, idx2)),
                    false => Self::decr_inner(i),
                }''')),
 R('seqcst',(I,'self.refs.store(1, Ordering::Release)','self.refs.store(1, Ordering::SeqCst)')),
 R('bits idx',(I,'(offset.0 / 32, offset.0 % 32)','(offset.0 >> 5, offset.0 & 31)')),
 R('id chunk const',(I,'loc1 * 32 + loc2','loc2 + CHUNK_SIZE * loc1')),
 R('tail loop',(L,'''        while let Some(new_node) = Node::get_next_opt(cur_node) {
            cur_node = new_node.load(Ordering::Relaxed);
            len += 1;
        }
''','''        loop {
            let next = Node::get_next(cur_node).load(Ordering::Acquire);
            if next.is_null() {
                break;
            }
            cur_node = next;
            len += 1;
        }
''')),
 R('get while',(L,'''        for _ in 0..idx {
            cur_node = Node::get_next_opt(cur_node)?.load(Ordering::Relaxed);
        }
''','''        let mut left = idx;
        while left > 0 {
            cur_node = match Node::get_next_opt(cur_node) {
                Some(n) => n.load(Ordering::Relaxed),
                None => return None,
            };
            left -= 1;
        }
''')),
 R('get via iter',(L,'''        let mut cur_node = self.head.load(Ordering::Acquire);
        if cur_node.is_null() {
            return None;
        }
        for _ in 0..idx {
            cur_node = Node::get_next_opt(cur_node)?.load(Ordering::Relaxed);
        }
        Some(Node::get_val(cur_node))''','''        self.iter().nth(idx)''')),
 R('drop loop',(L,'''            cur = unsafe { Box::from_raw(cur) }.next.load(Ordering::Relaxed);''','''            let node = unsafe { Box::from_raw(cur) };
            cur = node.next.load(Ordering::Relaxed);
            drop(node);''')),
 R('drop get_mut',(L,'let mut cur = self.head.load(Ordering::Relaxed);','let mut cur = *self.head.get_mut();')),
 R('iter if let',(L,'''        if ptr.is_null() {
            None
        } else {
            let out = Node::get_val(ptr);
            self.cur = Node::get_next(ptr);
            Some(out)
        }''','''        if ptr.is_null() {
            return None;
        }
        self.cur = Node::get_next(ptr);
        Some(Node::get_val(ptr))''')),
 R('try_get if',(I,'''        match slot.refs.load(Ordering::Acquire) {
            0 | CLAIMED => None,
            _ => Some(slot.val()),
        }''','''        let count = slot.refs.load(Ordering::Acquire);
        if count == 0 || count == CLAIMED {
            return None;
        }
        Some(slot.val())''')),
 R('try_get live helper',(I,'''        match slot.refs.load(Ordering::Acquire) {
            0 | CLAIMED => None,
            _ => Some(slot.val()),
        }''','''        let count = slot.refs.load(Ordering::Acquire);
        (count != 0 && count != CLAIMED).then(|| slot.val())''')),
 R('decr if',(I,'val.checked_sub(1)','if val == 0 { None } else { Some(val - 1) }')),
 R('push loop',(L,'''                while !Node::set_next(tail, new) {
                    if let Some(next) = Node::get_next_opt(tail) {
                        tail = next.load(Ordering::Relaxed);
                        len += 1;
                    }
                }
                len + 1''','''                loop {
                    if Node::set_next(tail, new) {
                        break len + 1;
                    }
                    if let Some(next) = Node::get_next_opt(tail) {
                        tail = next.load(Ordering::Relaxed);
                        len += 1;
                    }
                }''')),
 R('slot helper',(I,'''    pub fn incr(&self, offset: InternId) {
        let (idx1, idx2) = Self::offset_to_idx(offset);
        Self::incr_inner(&self.inner[idx1][idx2]);''','''    fn slot(&self, offset: InternId) -> &Interned<T> {
        let (idx1, idx2) = Self::offset_to_idx(offset);
        &self.inner[idx1][idx2]
    }

    pub fn incr(&self, offset: InternId) {
        Self::incr_inner(self.slot(offset));''')),
 R('iter indices',(I,'for (idx2, i) in i.iter().enumerate() {','for idx2 in 0..CHUNK_SIZE {\n                let i = &i[idx2];')),
]
