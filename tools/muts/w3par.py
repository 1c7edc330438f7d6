"""third wave: parallel structures"""
I = 'crates/utils/src/intern.rs'
L = 'crates/utils/src/linked.rs'
def B(n, *e): return ('P18', 'bug', 'w3 ' + n, list(e))
def R(n, *e): return ('P18', 'ref', 'w3 ' + n, list(e))
FIND = '''                let dead = i.acquire();
                if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
                    if dead {
                        i.publish();
                    }
                    return Find::Exists((idx, idx2));
                } else if dead {
                    return Find::Dead((idx, idx2));
                }
                Self::decr_inner(i);
'''
ACQ = '''        let mut count = self.refs.load(Ordering::Acquire);
        loop {
            if count == CLAIMED {
                hint::spin_loop();
                count = self.refs.load(Ordering::Acquire);
                continue;
            }
            let new = if count == 0 { CLAIMED } else { count + 1 };
            match self
                .refs
                .compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)
            {
                Ok(_) => return count == 0,
                Err(cur) => count = cur,
            }
        }
'''
TAIL = '''        let mut len = 1;

        while let Some(new_node) = Node::get_next_opt(cur_node) {
            cur_node = new_node.load(Ordering::Relaxed);
            len += 1;
        }

        (cur_node, len)
'''
PUSH = '''                let (mut tail, mut len) = self.tail();
                while !Node::set_next(tail, new) {
                    if let Some(next) = Node::get_next_opt(tail) {
                        tail = next.load(Ordering::Relaxed);
                        len += 1;
                    }
                }
                len + 1
'''
GET = '''        let mut cur_node = self.head.load(Ordering::Acquire);
        if cur_node.is_null() {
            return None;
        }
        for _ in 0..idx {
            cur_node = Node::get_next_opt(cur_node)?.load(Ordering::Relaxed);
        }
        Some(Node::get_val(cur_node))
'''
DROP = '''        let mut cur = self.head.load(Ordering::Relaxed);
        while !cur.is_null() {
            // SAFETY: Drop means unique access - it's sound to drop nodes or access them mutably
            //         since we're guaranteed to be the only code doing it
            cur = unsafe { Box::from_raw(cur) }.next.load(Ordering::Relaxed);
        }
'''
ADDM = '''                Find::Dead((loc1, loc2)) => {
                    let slot = &self.inner[loc1][loc2];
                    // SAFETY: Slot was dead and we claimed it, we are the only ones with access
                    unsafe { slot.set_val(val.into()) };
                    slot.publish();
                    break (loc1, loc2);
                }
'''
NEXT = '''        let ptr = self.cur.load(Ordering::Acquire);
        if ptr.is_null() {
            None
        } else {
            let out = Node::get_val(ptr);
            self.cur = Node::get_next(ptr);
            Some(out)
        }
'''
DECR = '''        let _ = interned
            .refs
            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |val| {
                val.checked_sub(1)
            });
'''
MUTS = [
 R('find match', (I, FIND, '''                let dead = i.acquire();
                let same = match i.val_opt() {
                    Some(cur_val) => val == cur_val.borrow(),
                    None => false,
                };
                match (same, dead) {
                    (true, true) => {
                        i.publish();
                        return Find::Exists((idx, idx2));
                    }
                    (true, false) => return Find::Exists((idx, idx2)),
                    (false, true) => return Find::Dead((idx, idx2)),
                    (false, false) => Self::decr_inner(i),
                }
''')),
 R('find nested', (I, FIND, '''                let claimed = i.acquire();
                let found = i.val_opt().map_or(false, |cur| val == cur.borrow());
                if claimed {
                    if !found {
                        return Find::Dead((idx, idx2));
                    }
                    i.publish();
                    return Find::Exists((idx, idx2));
                }
                if found {
                    return Find::Exists((idx, idx2));
                }
                Self::decr_inner(i);
''')),
 R('acquire weak', (I, '.compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)\n            {\n                Ok(_) => return', '.compare_exchange_weak(count, new, Ordering::AcqRel, Ordering::Acquire)\n            {\n                Ok(_) => return')),
 R('acquire while', (I, ACQ, '''        loop {
            let count = self.refs.load(Ordering::Acquire);
            if count == CLAIMED {
                hint::spin_loop();
                continue;
            }
            let dead = count == 0;
            let new = if dead { CLAIMED } else { count + 1 };
            let swapped =
                self.refs
                    .compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire);
            if swapped.is_ok() {
                return dead;
            }
        }
''')),
 R('acquire seqcst', (I, '.compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)', '.compare_exchange(count, new, Ordering::SeqCst, Ordering::SeqCst)')),
 R('acquire split', (I, ACQ, '''        let mut count = self.refs.load(Ordering::Acquire);
        loop {
            let result = match count {
                CLAIMED => {
                    hint::spin_loop();
                    Err(self.refs.load(Ordering::Acquire))
                }
                0 => self
                    .refs
                    .compare_exchange(0, CLAIMED, Ordering::AcqRel, Ordering::Acquire)
                    .map(|_| true),
                n => self
                    .refs
                    .compare_exchange(n, n + 1, Ordering::AcqRel, Ordering::Acquire)
                    .map(|_| false),
            };
            match result {
                Ok(dead) => return dead,
                Err(cur) => count = cur,
            }
        }
''')),
 R('tail loop', (L, TAIL, '''        let mut len = 1;

        loop {
            match Node::get_next_opt(cur_node) {
                Some(new_node) => {
                    cur_node = new_node.load(Ordering::Acquire);
                    len += 1;
                }
                None => return (cur_node, len),
            }
        }
''')),
 R('push loop', (L, PUSH, '''                let (mut tail, mut len) = self.tail();
                loop {
                    if Node::set_next(tail, new) {
                        break len + 1;
                    }
                    if let Some(next) = Node::get_next_opt(tail) {
                        tail = next.load(Ordering::Relaxed);
                        len += 1;
                    }
                }
''')),
 R('push early', (L, '''        match self
            .head
            .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
        {
            Ok(_) => 1,
            Err(_) => {
''' + PUSH + '''            }
        }
''', '''        let first = self
            .head
            .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
            .is_ok();
        if first {
            return 1;
        }
        let (mut tail, mut len) = self.tail();
        while !Node::set_next(tail, new) {
            if let Some(next) = Node::get_next_opt(tail) {
                tail = next.load(Ordering::Relaxed);
                len += 1;
            }
        }
        len + 1
''')),
 R('get while', (L, GET, '''        let mut cur_node = self.head.load(Ordering::Acquire);
        let mut left = idx;
        while !cur_node.is_null() {
            if left == 0 {
                return Some(Node::get_val(cur_node));
            }
            left -= 1;
            cur_node = Node::get_next(cur_node).load(Ordering::Acquire);
        }
        None
''')),
 R('get nth', (L, GET, '''        self.iter().nth(idx)
''')),
 R('drop get_mut', (L, DROP, '''        let mut cur = *self.head.get_mut();
        while !cur.is_null() {
            // SAFETY: Drop means unique access
            let mut node = unsafe { Box::from_raw(cur) };
            cur = *node.next.get_mut();
        }
''')),
 R('drop into_inner', (L, DROP, '''        let mut cur = self.head.load(Ordering::Acquire);
        while !cur.is_null() {
            // SAFETY: Drop means unique access
            let node = unsafe { Box::from_raw(cur) };
            let next = node.next.load(Ordering::Relaxed);
            drop(node);
            cur = next;
        }
''')),
 R('add helper', (I, ADDM, '''                Find::Dead(loc) => {
                    self.fill(loc, val.into());
                    break loc;
                }
'''), (I, "    pub fn try_get(&self", '''    fn fill(&self, loc: (usize, usize), val: T) {
        let slot = &self.inner[loc.0][loc.1];
        // SAFETY: Slot was dead and we claimed it, we are the only ones with access
        unsafe { slot.set_val(val) };
        slot.publish();
    }

    pub fn try_get(&self''')),
 R('next as_ref', (L, NEXT, '''        let ptr = self.cur.load(Ordering::Acquire);
        if ptr.is_null() {
            return None;
        }
        self.cur = Node::get_next(ptr);
        Some(Node::get_val(ptr))
''')),
 R('decr loop', (I, DECR, '''        let mut val = interned.refs.load(Ordering::Acquire);
        while val != 0 {
            match interned.refs.compare_exchange_weak(
                val,
                val - 1,
                Ordering::AcqRel,
                Ordering::Acquire,
            ) {
                Ok(_) => return,
                Err(cur) => val = cur,
            }
        }
''')),
 R('idx consts', (I, "(offset.0 / 32, offset.0 % 32)", "(offset.0 / CHUNK_SIZE, offset.0 % CHUNK_SIZE)"), (I, "loc1 * 32 + loc2", "loc1 * CHUNK_SIZE + loc2")),
 R('idx shift', (I, "(offset.0 / 32, offset.0 % 32)", "(offset.0 >> 5, offset.0 & (CHUNK_SIZE - 1))")),
 R('try_get if', (I, '''        match slot.refs.load(Ordering::Acquire) {
            0 | CLAIMED => None,
            _ => Some(slot.val()),
        }
''', '''        let count = slot.refs.load(Ordering::Acquire);
        if count == 0 || count == CLAIMED {
            return None;
        }
        slot.val_opt()
''')),
 # bugs
 B('revive uncounted', (I, '''                    if dead {
                        i.publish();
                    }
''', '''                    if dead {
                        i.publish();
                        Self::decr_inner(i);
                    }
''')),
 B('claim of any', (I, "let new = if count == 0 { CLAIMED } else { count + 1 };", "let new = if count <= 1 { CLAIMED } else { count + 1 };")),
 B('dead relaxed publish', (I, "self.refs.store(1, Ordering::Release);", "self.refs.store(1, Ordering::Relaxed);")),
 B('publish before write', (I, '''                    unsafe { slot.set_val(val.into()) };
                    slot.publish();
''', '''                    slot.publish();
                    unsafe { slot.set_val(val.into()) };
''')),
 B('no release on mismatch', (I, "                Self::decr_inner(i);\n            }", "                if idx2 % 2 == 0 {\n                    Self::decr_inner(i);\n                }\n            }")),
 B('acquire relaxed', (I, '.compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)', '.compare_exchange(count, new, Ordering::Release, Ordering::Relaxed)')),
 B('push store', (L, '''        let next = Self::get_next(this);
        next.compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
            .is_ok()
''', '''        let next = Self::get_next(this);
        let free = next.load(Ordering::Acquire).is_null();
        if free {
            next.store(new, Ordering::Release);
        }
        free
''')),
 B('push gives up', (L, PUSH, '''                let (tail, len) = self.tail();
                if !Node::set_next(tail, new) {
                    let (tail, _) = self.tail();
                    Node::set_next(tail, new);
                }
                len + 1
''')),
 B('tail relaxed', (L, "if ptr.load(Ordering::Acquire).is_null() {", "if ptr.load(Ordering::Relaxed).is_null() {")),
 B('get wraps', (L, "for _ in 0..idx {", "for _ in 0..(idx & 0xff) {")),
 B('decr wraps', (I, "val.checked_sub(1)", "Some(val.wrapping_sub(1))")),
 B('iter relaxed', (L, "        let ptr = self.cur.load(Ordering::Acquire);\n        if ptr", "        let ptr = self.cur.load(Ordering::Relaxed);\n        if ptr")),
 B('try_get claimed', (I, "0 | CLAIMED => None", "0 => None")),
 B('head race', (L, '''        match self
            .head
            .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
        {
            Ok(_) => 1,
            Err(_) => {
''', '''        match self.head.swap(new, Ordering::AcqRel).is_null() {
            true => 1,
            false => {
''')),
 R('push retail', (L, PUSH, """                loop {
                    let (tail, len) = self.tail();
                    if Node::set_next(tail, new) {
                        return len + 1;
                    }
                }
""")),
 R('push all in loop', (L, """        match self
            .head
            .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
        {
            Ok(_) => 1,
            Err(_) => {
""" + PUSH + """            }
        }
""", """        loop {
            let (tail, len) = self.tail();
            let linked = if tail.is_null() {
                self.head
                    .compare_exchange(ptr::null_mut(), new, Ordering::AcqRel, Ordering::Acquire)
                    .is_ok()
            } else {
                Node::set_next(tail, new)
            };
            if linked {
                return len + 1;
            }
        }
""")),
 R('push recursive', (L, PUSH, """                let (tail, len) = self.tail();
                self.link(tail, new, len)
"""), (L, "    pub fn get(&self, idx", """    fn link(&self, tail: *mut Node<T>, new: *mut Node<T>, len: usize) -> usize {
        if Node::set_next(tail, new) {
            return len + 1;
        }
        match Node::get_next_opt(tail) {
            Some(next) => self.link(next.load(Ordering::Relaxed), new, len + 1),
            None => self.link(tail, new, len),
        }
    }

    pub fn get(&self, idx""")),
]
