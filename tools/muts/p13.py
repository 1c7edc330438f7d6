F="crates/ints/src/big_int.rs"
def B(n,*e): return ('P13','bug',n,list(e))
def R(n,*e): return ('P13','ref',n,list(e))
MUTS=[
 B('clone never counts',(F,"        if !tag.inline() {\n            INT_STORE.incr(InternId::from_usize(val));\n        }\n        BigInt(self.0)","        let _ = (val, tag);\n        BigInt(self.0)")),
 B('clone counts inline',(F,"        if !tag.inline() {\n            INT_STORE.incr(","        if !tag.negative() {\n            INT_STORE.incr(")),
 B('clone skips neg',(F,"        if !tag.inline() {\n            INT_STORE.incr(","        if matches!(tag, Tag::None) {\n            INT_STORE.incr(")),
 B('clone twice',(F,"            INT_STORE.incr(InternId::from_usize(val));","            INT_STORE.incr(InternId::from_usize(val));\n            INT_STORE.incr(InternId::from_usize(val));")),
 B('clone other id',(F,"            INT_STORE.incr(InternId::from_usize(val));","            INT_STORE.incr(InternId::from_usize(val >> 1));")),
 B('drop skips neg',(F,"        if !tag.inline() {\n            INT_STORE.decr(","        if matches!(tag, Tag::None) {\n            INT_STORE.decr(")),
 B('drop inline too',(F,"        if !tag.inline() {\n            INT_STORE.decr(","        if !matches!(tag, Tag::Inline) {\n            INT_STORE.decr(")),
 B('drop twice',(F,"            INT_STORE.decr(InternId::from_usize(val));","            INT_STORE.decr(InternId::from_usize(val));\n            INT_STORE.decr(InternId::from_usize(val));")),
 B('drop none',(F,"            INT_STORE.decr(InternId::from_usize(val));","            let _ = InternId::from_usize(val);")),
 B('drop raw word',(F,"            INT_STORE.decr(InternId::from_usize(val));","            INT_STORE.decr(InternId::from_usize(self.0.0));")),
 B('neg copies word',(F,"    fn neg(mut self) -> Self::Output {\n        self.0 = self.0.invert_neg();\n        self\n","    fn neg(self) -> Self::Output {\n        BigInt(self.0.invert_neg())\n")),
 B('neg ref copies word',(F,"        let mut out = self.clone();\n        out.0 = out.0.invert_neg();\n        out\n","        BigInt(self.0.invert_neg())\n")),
 B('neg ref forgets',(F,"        let mut out = self.clone();\n        out.0 = out.0.invert_neg();\n        out\n","        let out = self.clone();\n        let w = out.0.invert_neg();\n        mem::forget(out.clone());\n        mem::forget(out);\n        BigInt(w)\n")),
 B('intern counts again',(F,"        let offset = INT_STORE.add::<_, [usize]>(val);\n","        let offset = INT_STORE.add::<_, [usize]>(val);\n        INT_STORE.incr(offset.clone());\n")),
 B('intern counts again when neg',(F,"        let offset = INT_STORE.add::<_, [usize]>(val);\n","        let offset = INT_STORE.add::<_, [usize]>(val);\n        if neg {\n            INT_STORE.incr(offset.clone());\n        }\n")),
 B('intern releases',(F,"        let offset = INT_STORE.add::<_, [usize]>(val);\n","        let offset = INT_STORE.add::<_, [usize]>(val);\n        INT_STORE.decr(offset.clone());\n")),
 B('abs copies word',(F,"        if self.is_negative() {\n            -self\n","        if self.is_negative() {\n            BigInt(self.0.invert_neg())\n")),
 B('lookup shifted',(F,"MaybeInline::Slice(INT_STORE.get(InternId::from_usize(self.0.offset())))","MaybeInline::Slice(INT_STORE.get(InternId::from_usize(self.0.offset() >> 1)))")),
 R('clone early return',(F,"        if !tag.inline() {\n            INT_STORE.incr(InternId::from_usize(val));\n        }\n        BigInt(self.0)","        if tag.inline() {\n            return BigInt(self.0);\n        }\n        INT_STORE.incr(InternId::from_usize(val));\n        BigInt(TaggedOffset::new(val, tag))")),
 R('drop via is_interned',(F,"        let (val, tag) = self.0.get();\n        if !tag.inline() {\n            INT_STORE.decr(InternId::from_usize(val));","        if self.is_interned() {\n            INT_STORE.decr(InternId::from_usize(self.0.offset()));")),
 R('neg forget',(F,"    fn neg(mut self) -> Self::Output {\n        self.0 = self.0.invert_neg();\n        self\n","    fn neg(self) -> Self::Output {\n        let w = self.0.invert_neg();\n        mem::forget(self);\n        BigInt(w)\n")),
 R('neg ref incr',(F,"        let mut out = self.clone();\n        out.0 = out.0.invert_neg();\n        out\n","        -self.clone()\n")),
 R('helper id',(F,"            INT_STORE.decr(InternId::from_usize(val));","            let id = InternId::from_usize(val);\n            INT_STORE.decr(id);")),
]
