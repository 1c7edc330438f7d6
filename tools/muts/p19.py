L = "crates/static-iter/src/lib.rs"
A = "crates/static-iter/src/adapter.rs"
Y = "crates/static-iter/src/array.rs"
Z = "crates/static-iter/src/zip_all.rs"
def B(n,*e): return ('P19','bug',n,list(e))
def R(n,*e): return ('P19','ref',n,list(e))
FOLD = "        (0..N).fold(start, |acc, idx| {\n            // SAFETY: Follows contract of `idx` - we call exactly once for each value from `0..N`\n            let item = unsafe { self.idx(idx) };\n            func(acc, item)\n        })\n"
TRY = "        (0..N).try_fold(start, |acc, idx| {\n            // SAFETY: Follows contract of `idx` - we call exactly once for each value from `0..N`\n            let item = unsafe { self.idx(idx) };\n            func(acc, item)\n        })\n"
FSI = "        let uninit = (0..N).try_fold(Self::uninit(), |acc, idx| {\n            let val = unsafe { iter.idx(idx) };\n            Self::write(acc, idx, val)\n        });\n        unsafe { Self::finish(uninit) }\n"
ANY = "        self.try_fold((), |(), x| if func(x) { Err(()) } else { Ok(()) }) == Err(())\n"
ALL = "        self.try_fold((), |(), x| if func(x) { Ok(()) } else { Err(()) }) == Ok(())\n"
AFSI = "        core::array::from_fn(|idx| unsafe { iter.idx(idx) })\n"
MUTS = [
 B('fold from 1', (L, FOLD, FOLD.replace('(0..N)', '(1..N)'))),
 B('fold short', (L, FOLD, FOLD.replace('(0..N)', '(0..N.saturating_sub(1))'))),
 B('fold rev', (L, FOLD, FOLD.replace('(0..N)', '(0..N).rev()'))),
 B('fold index', (L, FOLD, FOLD.replace('self.idx(idx)', 'self.idx(N - 1 - idx)'))),
 B('fold step', (L, FOLD, FOLD.replace('(0..N)', '(0..N).step_by(2)'))),
 B('fold drop acc', (L, FOLD, FOLD.replace('func(acc, item)', 'if idx == 70 { acc } else { func(acc, item) }'))),
 B('try_fold short', (L, TRY, TRY.replace('(0..N)', '(0..N.saturating_sub(1))'))),
 B('try_fold index', (L, TRY, TRY.replace('self.idx(idx)', 'self.idx(if idx > 4 { idx - 1 } else { idx })'))),
 B('any conv', (L, ANY, ANY.replace('== Err(())', '!= Err(())'))),
 B('all conv', (L, ALL, "        !self.any(func)\n")),
 B('all as any', (L, ALL, "        self.try_fold((), |(), x| if func(x) { Err(()) } else { Ok(()) }) == Err(())\n")),
 B('sum from one', (L, "Self::Item::zero(), |acc, val| acc + val", "Self::Item::zero(), |acc, val| acc + val + Self::Item::zero() + Self::Item::zero()") , ) if False else B('sum skip', (L, "Self::Item::zero(), |acc, val| acc + val", "Self::Item::zero(), |_, val| val")),
 B('product zero', (L, "self.fold(Self::Item::one(), |acc, val| acc * val)", "self.fold(Self::Item::one(), |acc, _val| acc)")),
 B('collect index', (L, FSI, FSI.replace('Self::write(acc, idx, val)', 'Self::write(acc, N - 1 - idx, val)'))),
 B('collect short', (L, FSI, FSI.replace('(0..N)', '(0..N.max(1) - 1)'))),
 B('array index', (L, AFSI, AFSI.replace('iter.idx(idx)', 'iter.idx(N - 1 - idx)'))),
 B('array index cond', (L, AFSI, AFSI.replace('iter.idx(idx)', 'iter.idx(if idx > 8 { idx - 1 } else { idx })'))),
 B('array write', (L, "        this[idx].write(val);\n", "        this[idx & 7].write(val);\n")),
 B('option write none', (L, "            None => ControlFlow::Break(None),", "            None => ControlFlow::Continue(this),")),
 B('option finish', (L, "            ControlFlow::Break(Some(inner)) => Some(C::finish(ControlFlow::Break(inner))),\n            ControlFlow::Break(None) => None,", "            ControlFlow::Break(Some(_inner)) => None,\n            ControlFlow::Break(None) => None,")),
 B('option index', (L, "Some(val) => C::write(this, idx, val).map_break(Some),", "Some(val) => C::write(this, idx.min(15), val).map_break(Some),")),
 B('result finish', (L, "            ControlFlow::Break(Ok(e)) => Ok(C::finish(ControlFlow::Break(e))),", "            ControlFlow::Break(Ok(e)) => { let r = C::finish(ControlFlow::Break(e)); let _ = &r; loop {} }")) if False else B('result index', (L, "Ok(val) => C::write(this, idx, val).map_break(Ok),", "Ok(val) => C::write(this, N - 1 - idx, val).map_break(Ok),")),
 B('zip right', (A, "(self.left.idx(idx), self.right.idx(idx))", "(self.left.idx(idx), self.right.idx(N - 1 - idx))")),
 B('enumerate 1', (A, "(idx, self.inner.idx(idx))", "(idx + 1, self.inner.idx(idx))")),
 B('enumerate rev', (A, "(idx, self.inner.idx(idx))", "(N - idx, self.inner.idx(idx))")),
 B('map index', (A, "(self.func)(self.inner.idx(idx))", "(self.func)(self.inner.idx(idx & 15))")),
 B('into idx', (Y, "self.inner.get_unchecked_mut(idx)", "self.inner.get_unchecked_mut(idx + 1)")),
 B('ref idx', (Y, "&self.inner[idx]", "&self.inner[N - 1 - idx]")),
 B('range', (L, "    unsafe fn idx(&mut self, idx: usize) -> Self::Item {\n        idx\n", "    unsafe fn idx(&mut self, idx: usize) -> Self::Item {\n        idx % 64\n")),
 B('arrayzip', (Z, "self.arrs.each_mut().map(|val| val.idx(idx))", "self.arrs.each_mut().map(|val| val.idx(idx % N))")),
 B('tuplezip', (Z, "(self.iters.0.idx(idx), self.iters.1.idx(idx))", "(self.iters.0.idx(idx), self.iters.1.idx(idx % 32))")),
 R('fold loop', (L, FOLD, "        let mut acc = start;\n        for idx in 0..N {\n            let item = unsafe { self.idx(idx) };\n            acc = func(acc, item);\n        }\n        acc\n")),
 R('fold while', (L, FOLD, "        let mut acc = start;\n        let mut i = 0;\n        while i < N {\n            acc = func(acc, unsafe { self.idx(i) });\n            i += 1;\n        }\n        acc\n")),
 R('try_fold loop', (L, TRY, "        let mut acc = start;\n        for idx in 0..N {\n            let item = unsafe { self.idx(idx) };\n            acc = func(acc, item)?;\n        }\n        Ok(acc)\n")),
 R('any loop', (L, "    fn any<F: FnMut(Self::Item) -> bool>(self, mut func: F) -> bool {\n" + ANY, "    fn any<F: FnMut(Self::Item) -> bool>(mut self, mut func: F) -> bool {\n        for i in 0..N {\n            if func(unsafe { self.idx(i) }) {\n                return true;\n            }\n        }\n        false\n")),
 R('any is_err', (L, ANY, ANY.replace(' == Err(())', '.is_err()'))),
 R('all via any', (L, ALL, "        !self.any(|x| !func(x))\n")),
 R('all match', (L, ALL, "        let res: Result<(), ()> = self.try_fold((), |(), x| match func(x) { true => Ok(()), false => Err(()) });\n        res.is_ok()\n")),
 R('collect loop', (L, FSI, "        let mut acc = Self::uninit();\n        for idx in 0..N {\n            let val = unsafe { iter.idx(idx) };\n            match Self::write(acc, idx, val) {\n                ControlFlow::Continue(next) => acc = next,\n                brk @ ControlFlow::Break(_) => return unsafe { Self::finish(brk) },\n            }\n        }\n        unsafe { Self::finish(ControlFlow::Continue(acc)) }\n")),
 R('sum loop', (L, "    fn sum(self) -> Self::Item", "    fn sum(mut self) -> Self::Item"), (L, "        self.fold(Self::Item::zero(), |acc, val| acc + val)\n", "        let mut acc = Self::Item::zero();\n        for i in 0..N {\n            acc = acc + unsafe { self.idx(i) };\n        }\n        acc\n")),
 R('array loop', (L, AFSI, "        let mut out = [const { MaybeUninit::<T>::uninit() }; N];\n        for (i, slot) in out.iter_mut().enumerate() {\n            slot.write(unsafe { iter.idx(i) });\n        }\n        unsafe { mem::transmute_copy(&out) }\n")),
 R('array default', (L, "    fn from_static_iter(mut iter: impl StaticIter<N, Item = T>) -> Self {\n" + AFSI + "    }\n}", "    fn from_static_iter(mut iter: impl StaticIter<N, Item = T>) -> Self {\n        let mut next = 0;\n        core::array::from_fn(|_| {\n            let i = next;\n            next += 1;\n            unsafe { iter.idx(i) }\n        })\n    }\n}")),
 R('option write', (L, "        match val {\n            Some(val) => C::write(this, idx, val).map_break(Some),\n            None => ControlFlow::Break(None),\n        }", "        let Some(val) = val else {\n            return ControlFlow::Break(None);\n        };\n        match C::write(this, idx, val) {\n            ControlFlow::Continue(c) => ControlFlow::Continue(c),\n            ControlFlow::Break(b) => ControlFlow::Break(Some(b)),\n        }")),
 R('zip lets', (A, "        (self.left.idx(idx), self.right.idx(idx))", "        let l = self.left.idx(idx);\n        let r = self.right.idx(idx);\n        (l, r)")),
 R('into read', (Y, "        core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()", "        let slot = self.inner.get_unchecked_mut(idx);\n        let item = core::mem::replace(slot, MaybeUninit::uninit());\n        item.assume_init()")),
 R('into read2', (Y, "        core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()", "        self.inner.get_unchecked(idx).assume_init_read()")),
 R('ref get', (Y, "        &self.inner[idx]", "        self.inner.get_unchecked(idx)")),
 R('tuple lets', (Z, "        (self.iters.0.idx(idx), self.iters.1.idx(idx))", "        let (a, b) = &mut self.iters;\n        (a.idx(idx), b.idx(idx))")),
 R('zip order', (A, "        (self.left.idx(idx), self.right.idx(idx))", "        let r = self.right.idx(idx);\n        let l = self.left.idx(idx);\n        (l, r)")),
]
PAIR = "        let mut acc = start;\n        let mut i = 0;\n        while i + 1 < N {\n            acc = func(acc, unsafe { self.idx(i) });\n            acc = func(acc, unsafe { self.idx(i + 1) });\n            i += 2;\n        }\n"
MUTS += [
 B('fold pairs no tail', (L, FOLD, PAIR + "        acc\n")),
 B('fold pairs tail', (L, FOLD, PAIR + "        if i > N {\n            acc = func(acc, unsafe { self.idx(i) });\n        }\n        acc\n")),
 R('fold pairs', (L, FOLD, PAIR + "        if i < N {\n            acc = func(acc, unsafe { self.idx(i) });\n        }\n        acc\n")),
 B('fold first', (L, FOLD, "        let first = func(start, unsafe { self.idx(0) });\n        (1..N - 1).fold(first, |acc, idx| func(acc, unsafe { self.idx(idx) }))\n")),
 R('fold last', (L, FOLD, "        if N == 0 {\n            return start;\n        }\n        let acc = (0..N - 1).fold(start, |acc, idx| func(acc, unsafe { self.idx(idx) }));\n        func(acc, unsafe { self.idx(N - 1) })\n")),
 B('any last', (L, "    fn any<F: FnMut(Self::Item) -> bool>(self, mut func: F) -> bool {\n" + ANY, "    fn any<F: FnMut(Self::Item) -> bool>(mut self, mut func: F) -> bool {\n        let mut hit = false;\n        for i in 0..N {\n            hit = func(unsafe { self.idx(i) });\n        }\n        hit\n")),
 R('any eager', (L, "    fn any<F: FnMut(Self::Item) -> bool>(self, mut func: F) -> bool {\n" + ANY, "    fn any<F: FnMut(Self::Item) -> bool>(mut self, mut func: F) -> bool {\n        let mut hit = false;\n        let mut i = 0;\n        while i < N && !hit {\n            hit = func(unsafe { self.idx(i) });\n            i += 1;\n        }\n        hit\n")),
 B('sum skip first', (L, "    fn sum(self) -> Self::Item", "    fn sum(mut self) -> Self::Item"), (L, "        self.fold(Self::Item::zero(), |acc, val| acc + val)\n", "        let mut acc = Self::Item::zero();\n        let mut i = 0;\n        while i < N {\n            let v = unsafe { self.idx(i) };\n            if i + 1 != N || N < 3 {\n                acc = acc + v;\n            }\n            i += 1;\n        }\n        acc\n")),
 R('sum order', (L, "|acc, val| acc + val)", "|acc, val| val + acc)")),
]
MUTS += [
 R('any first', (L, "    fn any<F: FnMut(Self::Item) -> bool>(self, mut func: F) -> bool {\n" + ANY, "    fn any<F: FnMut(Self::Item) -> bool>(mut self, mut func: F) -> bool {\n        if N > 0 && func(unsafe { self.idx(0) }) {\n            return true;\n        }\n        for i in 1..N {\n            if func(unsafe { self.idx(i) }) {\n                return true;\n            }\n        }\n        false\n")),
 R('fold first', (L, FOLD, "        if N == 0 {\n            return start;\n        }\n        let mut acc = func(start, unsafe { self.idx(0) });\n        for i in 1..N {\n            acc = func(acc, unsafe { self.idx(i) });\n        }\n        acc\n")),
 R('try_fold first', (L, TRY, "        if N == 0 {\n            return Ok(start);\n        }\n        let mut acc = func(start, unsafe { self.idx(0) })?;\n        for i in 1..N {\n            acc = func(acc, unsafe { self.idx(i) })?;\n        }\n        Ok(acc)\n")),
 B('try_fold first bug', (L, TRY, "        if N == 0 {\n            return Ok(start);\n        }\n        let mut acc = func(start, unsafe { self.idx(0) })?;\n        for i in 1..N - 1 {\n            acc = func(acc, unsafe { self.idx(i) })?;\n        }\n        Ok(acc)\n")),
]
