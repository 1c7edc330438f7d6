// Fact extractor: a rustc_private driver that dumps, for every crate of the workspace under
// analysis, the type-checked program (MIR with callees resolved in each function's own typing
// environment, impls, ADTs, auto-trait facts) as one JSON document.  It never runs the code.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

macro_rules! pp {
    ($e:expr) => {
        rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_no_visible_paths!($e)
            )
        )
    };
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<(Instance<'tcx>, usize), usize>,
    envs: HashMap<ty::TypingEnv<'tcx>, usize>,
    env_list: Vec<ty::TypingEnv<'tcx>>,
    queue: VecDeque<(usize, Instance<'tcx>, usize, bool)>,
    consts: HashMap<(DefId, ty::GenericArgsRef<'tcx>, usize), usize>,
    next: usize,
    adts: BTreeMap<String, String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        pp!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        js(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn env(&mut self, e: ty::TypingEnv<'tcx>) -> usize {
        if let Some(&i) = self.envs.get(&e) {
            return i;
        }
        let i = self.env_list.len();
        self.env_list.push(e);
        self.envs.insert(e, i);
        i
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("[\"cparam\",{}]", js(p.name.as_str())),
            _ => {
                if let Some(l) = c.try_to_leaf() {
                    let sz = l.size();
                    format!("[\"cint\",\"{}\"]", l.to_bits(sz))
                } else {
                    format!("[\"cother\",{}]", js(&pp!(format!("{:?}", c))))
                }
            }
        }
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(format!("{}", self.ty(t)));
            } else if let Some(c) = x.as_const() {
                v.push(self.cst(c));
            }
        }
        jl(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = js(&pp!(format!("{}", t)));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"n\":{}", js(x.name_str())),
            ty::Uint(x) => format!("\"k\":\"uint\",\"n\":{}", js(x.name_str())),
            ty::Float(x) => format!("\"k\":\"float\",\"n\":{}", js(x.name_str())),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(d, a) => {
                self.adt(*d);
                let a = self.args(a);
                format!("\"k\":\"adt\",\"p\":{},\"a\":{}", js(&self.path(d.did())), a)
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = self.cst(*n);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n)
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("\"k\":\"slice\",\"e\":{}", e)
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", e, m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                format!("\"k\":\"ref\",\"e\":{},\"m\":{}", e, m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", jl(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Closure(d, a) => {
                let up = a.as_closure().upvar_tys();
                let v: Vec<String> = up.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"closure\",\"p\":{},\"up\":{}", js(&self.path(*d)), jl(v))
            }
            ty::FnDef(d, a) => {
                let a = self.args(a.skip_binder());
                format!("\"k\":\"fndef\",\"p\":{},\"a\":{}", js(&self.path(*d)), a)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Alias(_, al) => {
                let a = self.args(al.args);
                let p = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => self.path(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => self.path(def_id.into()),
                    _ => String::new(),
                };
                format!("\"k\":\"alias\",\"p\":{},\"a\":{}", js(&p), a)
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let p = self.path(d.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() {
                format!("\"{}\"", d.discriminant_for_variant(tcx, vi).val)
            } else {
                "null".into()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(ft);
                fs.push(format!(
                    "{{\"n\":{},\"t\":{},\"vis\":{}}}",
                    js(f.name.as_str()),
                    t,
                    js(&format!("{:?}", f.vis.is_public()))
                ));
            }
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                js(v.name.as_str()),
                discr,
                jl(fs)
            ));
        }
        let gens = tcx.generics_of(d.did());
        let mut gn = vec![];
        for g in gens.own_params.iter() {
            if !matches!(g.kind, ty::GenericParamDefKind::Lifetime) {
                gn.push(js(g.name.as_str()));
            }
        }
        let kind = if d.is_enum() {
            "enum"
        } else if d.is_union() {
            "union"
        } else {
            "struct"
        };
        let hasdrop = tcx.adt_destructor(d.did()).is_some();
        self.adts.insert(
            p.clone(),
            format!(
                "{{\"kind\":\"{}\",\"crate\":{},\"gens\":{},\"drop\":{},\"v\":{},\"transparent\":{}}}",
                kind,
                js(tcx.crate_name(d.did().krate).as_str()),
                jl(gn),
                hasdrop,
                jl(vs),
                d.repr().transparent()
            ),
        );
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(vi).fields[f].name.as_str().to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    let ti = self.ty(t);
                    format!("[\"f\",{},{},{}]", f.index(), js(&name), ti)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.index()),
                ProjectionElem::PhantomDeref => "[\"pd\"]".to_string(), ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
                ProjectionElem::UnwrapUnsafeBinder(_) => "[\"ub\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.index(), jl(v))
    }
    fn constant(&mut self, c: &Const<'tcx>, env: usize, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let cty = c.ty();
        let t = self.ty(cty);
        if let ty::FnDef(d, a) = cty.kind() {
            let cal = self.callee(*d, a.skip_binder(), env);
            return format!("{{\"k\":\"fn\",\"t\":{},\"f\":{}}}", t, cal);
        }
        let te = self.env_list[env];
        match c {
            Const::Ty(_, ct) => {
                let s = self.cst(*ct);
                return format!("{{\"k\":\"tyconst\",\"t\":{},\"v\":{}}}", t, s);
            }
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                return format!(
                    "{{\"k\":\"promoted\",\"t\":{},\"n\":{}}}",
                    t,
                    u.promoted.unwrap().index()
                );
            }
            _ => {}
        }
        // try full evaluation by the compiler (only when independent of type parameters)
        let mut val: Option<ConstValue> = None;
        match c {
            Const::Val(v, _) => val = Some(*v),
            Const::Unevaluated(u, _) => {
                if !u.args.has_param() {
                    if let Ok(v) = c.eval(tcx, te, rustc_span::DUMMY_SP) {
                        val = Some(v);
                    }
                }
            }
            _ => {}
        }
        let mut uninfo = String::new();
        if let Const::Unevaluated(u, _) = c {
            let a = self.args(u.args);
            uninfo = format!(",\"p\":{},\"a\":{}", js(&self.path(u.def)), a);
            // resolve associated const
            if let Ok(Some(i)) = Instance::try_resolve(tcx, te, u.def, u.args) {
                if let InstanceKind::Item(d) = i.def {
                    let workspace = true;
                    if tcx.is_mir_available(d) {
                        let k = self.enqueue(i, env, true);
                        let _ = write!(uninfo, ",\"inst\":{}", k);
                    }
                }
            }
            let nm = tcx.opt_item_name(u.def).map(|s| s.to_string()).unwrap_or_default();
            let _ = write!(uninfo, ",\"n\":{}", js(&nm));
        }
        if let Some(v) = val {
            if let Some(x) = self.const_tree(v, cty, te, 0) {
                return x;
            }
            match v {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    return format!(
                        "{{\"k\":\"int\",\"t\":{},\"v\":\"{}\",\"sz\":{}{}}}",
                        t,
                        i.to_bits(i.size()),
                        i.size().bytes(),
                        uninfo
                    );
                }
                ConstValue::ZeroSized => {
                    return format!("{{\"k\":\"zst\",\"t\":{}{}}}", t, uninfo);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!(
                            "{{\"k\":\"str\",\"t\":{},\"v\":{}{}}}",
                            t,
                            js(&String::from_utf8_lossy(b)),
                            uninfo
                        );
                    }
                }
                _ => {}
            }
            // an immutable static: its initialiser
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                let (prov, off) = p.into_raw_parts();
                if off.bytes() == 0 {
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let sty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if d.is_local() && !tcx.is_mutable_static(d) && !tcx.is_thread_local_static(d) && sty.is_freeze(tcx, te) {
                            let k = self.enqueue(Instance::mono(tcx, d), env, true);
                            return format!("{{\"k\":\"static\",\"t\":{},\"inst\":{},\"v\":{}}}", t, k, js(&pp!(format!("{:?}", c))));
                        }
                    }
                }
            }
            // try destructuring (arrays / tuples of ints) for tables
            if let Some(s) = self.bytes_of(v, cty, te) {
                return format!("{{\"k\":\"bytes\",\"t\":{},\"v\":{}{}}}", t, s, uninfo);
            }
            return format!(
                "{{\"k\":\"opaque\",\"t\":{},\"v\":{}{}}}",
                t,
                js(&pp!(format!("{:?}", c))),
                uninfo
            );
        }
        format!("{{\"k\":\"uneval\",\"t\":{}{}}}", t, uninfo)
    }
    /// constant of an enum / struct / tuple / array type as a constructor tree
    fn const_tree(&mut self, v: ConstValue, cty: Ty<'tcx>, te: ty::TypingEnv<'tcx>, d: usize) -> Option<String> {
        let tcx = self.tcx;
        if cty.has_param() || cty.has_aliases() || d > 4 {
            return None;
        }
        match cty.kind() {
            ty::Adt(def, _) => {
                let p = self.path(def.did());
                if def.is_union() || p.contains("nonzero") || (!def.is_enum() && !def.is_struct()) {
                    return None;
                }
            }
            ty::Tuple(a) if a.len() > 0 => {}
            ty::Array(_, n) => {
                if n.try_to_target_usize(tcx)? > 64 {
                    return None;
                }
            }
            _ => return None,
        }
        let dc = tcx.try_destructure_mir_constant_for_user_output(v, cty)?;
        let vi = dc.variant.map(|x| x.index()).unwrap_or(0);
        let mut fs = vec![];
        let fields: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.iter().map(|x| (x.0, x.1)).collect();
        for (fv, ft) in fields {
            fs.push(self.leaf_const(fv, ft, te, d + 1)?);
        }
        let t = self.ty(cty);
        Some(format!("{{\"k\":\"tree\",\"t\":{},\"vi\":{},\"f\":{}}}", t, vi, jl(fs.into_iter())))
    }
    fn leaf_const(&mut self, v: ConstValue, ct: Ty<'tcx>, te: ty::TypingEnv<'tcx>, d: usize) -> Option<String> {
        if let Some(x) = self.const_tree(v, ct, te, d) {
            return Some(x);
        }
        let t = self.ty(ct);
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => Some(format!(
                "{{\"k\":\"int\",\"t\":{},\"v\":\"{}\",\"sz\":{}}}",
                t, i.to_bits(i.size()), i.size().bytes()
            )),
            ConstValue::ZeroSized => Some(format!("{{\"k\":\"zst\",\"t\":{}}}", t)),
            _ => None,
        }
    }
    fn bytes_of(&self, v: ConstValue, t: Ty<'tcx>, te: ty::TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if t.has_param() {
            return None;
        }
        let (alloc_id, off, t) = match v {
            ConstValue::Indirect { alloc_id, offset } => (alloc_id, offset, t),
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let t = t.builtin_deref(true)?;
                (prov.alloc_id(), off, t)
            }
            _ => return None,
        };
        let lay = tcx.layout_of(te.as_query_input(t)).ok()?;
        let ga = tcx.try_get_global_alloc(alloc_id)?;
        let al = match ga {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => m,
            _ => return None,
        };
        let a = al.inner();
        let n = lay.size.bytes_usize();
        let o = off.bytes_usize();
        if o + n > a.len() || n > 4096 {
            return None;
        }
        let has_ptr = !a.provenance().ptrs().is_empty();
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
        Some(format!(
            "{{\"ptr\":{},\"b\":{}}}",
            has_ptr,
            jl(b.iter().map(|x| x.to_string()))
        ))
    }
    fn std_ok(&self, d: DefId) -> bool {
        let p = self.path(d);
        let pre = [
            "core::option::", "core::result::", "core::cmp::", "core::convert::", "core::mem::",
            "core::ops::", "core::bool::", "core::clone::", "core::tuple::", "core::iter::",
            "core::num::", "core::array::", "core::default::", "core::slice::", "core::ptr::",
            "<", "core::borrow::", "alloc::borrow::", "alloc::slice::","core::sync::","alloc::boxed::","core::cell::",
        ];
        pre.iter().any(|x| p.starts_with(x))
    }
    fn enqueue(&mut self, i: Instance<'tcx>, env: usize, is_const: bool) -> usize {
        let tcx = self.tcx;
        let env = if i.args.has_param() || i.args.has_aliases() {
            env
        } else {
            self.env(ty::TypingEnv::fully_monomorphized())
        };
        if let Some(&k) = self.insts.get(&(i, env)) {
            return k;
        }
        let k = self.next;
        self.next += 1;
        self.insts.insert((i, env), k);
        self.queue.push_back((k, i, env, is_const));
        k
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: usize) -> String {
        let tcx = self.tcx;
        let te = self.env_list[env];
        let mut o = format!(
            "{{\"p\":{},\"n\":{},\"a\":{}",
            js(&self.path(d)),
            js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            self.args(a)
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", js(&self.path(tr)));
        }
        if tcx.intrinsic(d).is_some() {
            o.push_str(",\"intr\":true");
        }
        let unsafe_ = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        if unsafe_ {
            o.push_str(",\"unsafe\":true");
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push_str(",\"ctor\":true");
        }
        match Instance::try_resolve(tcx, te, d, a) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                let _ = write!(o, ",\"rp\":{},\"rc\":{}", js(&self.path(rd)), js(tcx.crate_name(rd.krate).as_str()));
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                let _ = write!(o, ",\"rk\":\"{}\"", kind);
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let _ = write!(o, ",\"rself\":{}", st);
                    let ra = self.args(i.args);
                    let _ = write!(o, ",\"ra\":{}", ra);
                }
                match i.def {
                    InstanceKind::Item(dd) => {
                        if (tcx.is_mir_available(dd)) && (self.ws(dd) || self.std_ok(dd)) {
                            let k = self.enqueue(i, env, false);
                            let _ = write!(o, ",\"inst\":{}", k);
                        }
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        // the closure body itself (receiver by reference)
                        let cty = i.args.type_at(0);
                        if let ty::Closure(cd, ca) = cty.kind() {
                            let ci = Instance { def: InstanceKind::Item(*cd), args: ca };
                            let k = self.enqueue(ci, env, false);
                            let _ = write!(o, ",\"inst\":{}", k);
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        o.push('}');
        o
    }
    fn ws(&self, d: DefId) -> bool {
        d.is_local() || self.tcx.crate_name(d.krate).as_str().starts_with("numeric")
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: usize, inst: Instance<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(&c.const_, env, inst)),
            Operand::RuntimeChecks(_) => "[\"rtc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: usize, inst: Instance<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, env, inst)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, body, env, inst);
                let n = self.cst(*n);
                format!("[\"rep\",{},{}]", o, n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p, body), m)
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"raw\",{},{}]", self.place(p, body), js(&format!("{:?}", k)))
            }
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, self.tcx);
                let ot = self.ty(ot);
                let o = self.operand(o, body, env, inst);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), o, ot, t)
            }
            Rvalue::BinaryOp(b, ab) => {
                let lt = ab.0.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                let rt = ab.1.ty(&body.local_decls, self.tcx);
                let rt = self.ty(rt);
                let a = self.operand(&ab.0, body, env, inst);
                let bb = self.operand(&ab.1, body, env, inst);
                format!("[\"bin\",{},{},{},{},{}]", js(&format!("{:?}", b)), a, bb, lt, rt)
            }
            Rvalue::UnaryOp(u, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                let a = self.operand(o, body, env, inst);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", u)), a, lt)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> =
                    fs.iter().map(|o| self.operand(o, body, env, inst)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"array\",{}]", t)
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        let a = self.args(a);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            js(&self.path(*d)),
                            v.index(),
                            a,
                            af.map(|x| x.index() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        // make sure the body is dumped
                        let ci = Instance { def: InstanceKind::Item(*d), args: a };
                        let k = self.enqueue(ci, env, false);
                        format!("[\"closure\",{},{}]", js(&self.path(*d)), k)
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let t = self.ty(*t);
                        format!("[\"rawptr\",{},{}]", t, m.is_mut())
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, jl(f))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, body)),
            Rvalue::ThreadLocalRef(_) => "[\"other\",\"tls\"]".into(),
            _ => "[\"other\",\"?\"]".into(),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: usize, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let te = self.env_list[env];
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.index(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0, b);
                        let r = self.rvalue(&x.1, b, env, inst);
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o, b, env, inst);
                            st.push(format!("[\"assume\",{}]", o));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let s1 = self.operand(&c.src, b, env, inst);
                            let s2 = self.operand(&c.dst, b, env, inst);
                            let s3 = self.operand(&c.count, b, env, inst);
                            st.push(format!("[\"copy\",{},{},{}]", s1, s2, s3));
                        }
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.index() as i64,
                _ => -1,
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(discr, b, env, inst);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.index()))
                        .collect();
                    format!("[\"switch\",{},{},{},{}]", d, jl(ts), targets.otherwise().index(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let needs = pt.needs_drop(tcx, te);
                    let t = self.ty(pt);
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place, b),
                        target.index(),
                        t,
                        needs,
                        uw(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, b, env, inst);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(&x.node, b, env, inst)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&b.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let d = self.place(destination, b);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{},{}]",
                        f,
                        jl(a),
                        d,
                        target.map(|x| x.index() as i64).unwrap_or(-1),
                        uw(unwind),
                        sp,
                        jl(at),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, env, inst);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        AssertKind::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertKind::NullPointerDereference => "nullptr".into(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, js(&m), target.index(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"l\":{},\"cl\":{}}}",
                jl(st),
                t,
                sp,
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"spread\":{}",
            b.arg_count,
            jl(locals),
            jl(names),
            jl(blocks),
            b.spread_arg.map(|x| x.index() as i64).unwrap_or(-1)
        )
    }
    fn item_info(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(
            o,
            "\"path\":{},\"name\":{},\"crate\":{},\"kind\":{},\"span\":{}",
            js(&self.path(d)),
            js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            js(tcx.crate_name(d.krate).as_str()),
            js(&format!("{:?}", tcx.def_kind(d))),
            self.span(tcx.def_span(d))
        );
        let p = if tcx.is_closure_like(d) { tcx.typeck_root_def_id(d) } else { d };
        if let Some(im) = tcx.impl_of_assoc(p) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"iself\":{},\"impl\":{}", st, js(&format!("{:?}", im.index)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let a = self.args(tr.args);
                let _ = write!(
                    o,
                    ",\"itrait\":{},\"itargs\":{}",
                    js(&self.path(tr.def_id)),
                    a
                );
            }
        } else if let Some(tr) = tcx.trait_of_assoc(p) {
            let _ = write!(o, ",\"dtrait\":{}", js(&self.path(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
        }
        if d.is_local() || true {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let vis = tcx.visibility(d);
                let _ = write!(o, ",\"pub\":{}", vis.is_public());
            }
        }
        o
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            envs: HashMap::new(),
            env_list: vec![],
            queue: VecDeque::new(),
            consts: HashMap::new(),
            next: 0,
            adts: BTreeMap::new(),
        };
        let mut roots = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            let is_const = matches!(
                dk,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                continue; // closures are reached from their parents
            }
            let env = ty::TypingEnv::post_analysis(tcx, did);
            let e = d.env(env);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let i = Instance { def: InstanceKind::Item(did), args };
            let k = d.enqueue(i, e, is_const);
            roots.push(k.to_string());
        }
        let mut iroots = vec![];
        if krate == "numeric_bits" {
            // provided trait methods at concrete limb types: Self = [limb], other parameters [limb] or Vec<limb>
            let vec_did = tcx.get_diagnostic_item(rustc_span::sym::Vec);
            let galloc = tcx.lang_items().global_alloc_ty();
            for limb in [tcx.types.u8, tcx.types.usize] {
                let sl = Ty::new_slice(tcx, limb);
                let vc = match (vec_did, galloc) {
                    (Some(v), Some(g)) => {
                        let gt = Ty::new_adt(tcx, tcx.adt_def(g), ty::List::empty());
                        Ty::new_adt(tcx, tcx.adt_def(v), tcx.mk_args(&[limb.into(), gt.into()]))
                    }
                    _ => continue,
                };
                for ld in tcx.mir_keys(()).iter() {
                    let did = ld.to_def_id();
                    if tcx.def_kind(did) != DefKind::AssocFn || tcx.trait_of_assoc(did).is_none() {
                        continue;
                    }
                    let te = ty::TypingEnv::post_analysis(tcx, did);
                    for selfk in 0..2 {
                        let mut ok = true;
                        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            ty::GenericParamDefKind::Type { .. } => {
                                if p.index == 0 {
                                    if selfk == 0 { sl.into() } else { vc.into() }
                                } else {
                                    let pt = Ty::new_param(tcx, p.index, p.name);
                                    if pt.is_sized(tcx, te) { vc.into() } else { sl.into() }
                                }
                            }
                            ty::GenericParamDefKind::Const { .. } => {
                                ok = false;
                                ty::Const::from_target_usize(tcx, 1).into()
                            }
                        });
                        if !ok || tcx.instantiate_and_check_impossible_clauses((did, args)) {
                            continue;
                        }
                        let i = Instance { def: InstanceKind::Item(did), args };
                        let e = d.env(ty::TypingEnv::fully_monomorphized());
                        let k = d.enqueue(i, e, false);
                        iroots.push(format!("[{},{},{}]", k, js(&limb.to_string()), js(if selfk == 0 { "slice" } else { "vec" })));
                    }
                }
                // inherent and implementing methods and free functions of the limb type ("own"), and with the
                // second parameter at the other limb type ("other")
                for ld in tcx.mir_keys(()).iter() {
                    let did = ld.to_def_id();
                    if !matches!(tcx.def_kind(did), DefKind::AssocFn | DefKind::Fn) || tcx.trait_of_assoc(did).is_some() {
                        continue;
                    }
                    let g = tcx.generics_of(did);
                    let (mut types, mut consts) = (0, 0);
                    for k in 0..g.count() {
                        match g.param_at(k, tcx).kind {
                            ty::GenericParamDefKind::Type { .. } => types += 1,
                            ty::GenericParamDefKind::Const { .. } => consts += 1,
                            _ => {}
                        }
                    }
                    if types == 0 {
                        continue;
                    }
                    let other = if limb == tcx.types.u8 { tcx.types.usize } else { tcx.types.u8 };
                    for kind in 0..(if types > 1 { 2 } else { 1 }) {
                        let mut seen = 0;
                        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            ty::GenericParamDefKind::Type { .. } => {
                                seen += 1;
                                if seen > 1 && kind == 1 { other.into() } else { limb.into() }
                            }
                            ty::GenericParamDefKind::Const { .. } => {
                                ty::Const::new_param(tcx, ty::ParamConst::new(p.index, p.name)).into()
                            }
                        });
                        if consts == 0 && tcx.instantiate_and_check_impossible_clauses((did, args)) {
                            continue;
                        }
                        let i = Instance { def: InstanceKind::Item(did), args };
                        let e = d.env(if consts == 0 { ty::TypingEnv::fully_monomorphized() } else { ty::TypingEnv::post_analysis(tcx, did) });
                        let k = d.enqueue(i, e, false);
                        iroots.push(format!("[{},{},{}]", k, js(&limb.to_string()), js(if kind == 0 { "own" } else { "other" })));
                    }
                }
            }
        }
        let mut bodies = vec![];
        while let Some((k, i, env, is_const)) = d.queue.pop_front() {
            let did = i.def_id();
            if bodies.len() > 60000 {
                break;
            }
            let te = d.env_list[env];
            let dk = tcx.def_kind(did);
            let cst = matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
            let body: &Body<'tcx> = if cst {
                if !tcx.is_mir_available(did) {
                    continue;
                }
                tcx.mir_for_ctfe(did)
            } else {
                if !tcx.is_mir_available(did) {
                    continue;
                }
                tcx.optimized_mir(did)
            };
            let b = match i.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                te,
                ty::EarlyBinder::bind(tcx, body.clone()),
            ) {
                Ok(b) => b,
                Err(_) => body.clone(),
            };
            let bs = d.body(&b, env, i);
            let mut proms = vec![];
            for p in tcx.promoted_mir(did).iter() {
                let pb = match i.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    te,
                    ty::EarlyBinder::bind(tcx, p.clone()),
                ) {
                    Ok(b) => b,
                    Err(_) => p.clone(),
                };
                proms.push(format!("{{{}}}", d.body(&pb, env, i)));
            }
            let info = d.item_info(did);
            let a = d.args(i.args);
            bodies.push(format!(
                "{{\"id\":{},\"env\":{},{},\"iargs\":{},{},\"promoted\":{}}}",
                k,
                env,
                info,
                a,
                bs,
                jl(proms)
            ));
        }
        // impls
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = d.ty(st);
                let mut tr = "null".to_string();
                let mut ta = "[]".to_string();
                let mut unsafe_ = false;
                let mut neg = false;
                if of_trait {
                    let h = tcx.impl_trait_header(did);
                    unsafe_ = h.safety.is_unsafe();
                    neg = matches!(h.polarity, ty::ImplPolarity::Negative);
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    tr = js(&d.path(t.def_id));
                    ta = d.args(t.args);
                }
                let preds = tcx.clauses_of(did).instantiate_identity(tcx);
                let mut ps = vec![];
                for p in preds.clauses.iter() {
                    ps.push(js(&pp!(format!("{:?}", p))));
                }
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    items.push(format!("[{},{}]", js(it.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()), js(&d.path(it.def_id))));
                }
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"targs\":{},\"unsafe\":{},\"neg\":{},\"preds\":{},\"items\":{},\"span\":{}}}",
                    st, tr, ta, unsafe_, neg, jl(ps), jl(items), d.span(tcx.def_span(did))
                ));
            }
        }
        // auto traits of local ADTs under probe instantiations
        let mut autos = vec![];
        let find = |path: &[&str]| -> Option<DefId> { find_std(tcx, path) };
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let rc = tcx.get_diagnostic_item(rustc_span::sym::Rc);
        let cell = tcx.get_diagnostic_item(rustc_span::sym::Cell);
        let mg = tcx.get_diagnostic_item(rustc_span::Symbol::intern("MutexGuard"));
        let mut probes: Vec<(&str, Ty<'tcx>)> = vec![("plain", tcx.types.u8)];
        if let Some(rc) = rc {
            // not Send, not Sync: a raw pointer (works in no_std crates too)
        }
        probes.push(("neither", Ty::new_ptr(tcx, tcx.types.u8, rustc_hir::Mutability::Mut)));
        if let Some(c) = cell {
            let ad = tcx.adt_def(c);
            probes.push((
                "send_only",
                Ty::new_adt(tcx, ad, tcx.mk_args(&[tcx.types.u8.into()])),
            ));
        }
        if let Some(c) = mg {
            let ad = tcx.adt_def(c);
            if let Some(r) = Some(tcx.lifetimes.re_static) {
                let g = tcx.generics_of(c);
                if g.count() == 2 {
                    probes.push((
                        "sync_only",
                        Ty::new_adt(tcx, ad, tcx.mk_args(&[r.into(), tcx.types.u8.into()])),
                    ));
                }
            }
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            for (pn, pt) in probes.iter() {
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
                    ty::GenericParamDefKind::Type { .. } => (*pt).into(),
                    ty::GenericParamDefKind::Const { .. } => {
                        ty::Const::from_target_usize(tcx, 2).into()
                    }
                });
                let t = Ty::new_adt(tcx, tcx.adt_def(did), args);
                let mut r = vec![];
                for tr in [send, sync] {
                    let ok = if let Some(tr) = tr {
                        let (infcx, pe) = tcx
                            .infer_ctxt()
                            .build_with_typing_env(ty::TypingEnv::fully_monomorphized());
                        infcx
                            .type_implements_trait(tr, [t], pe)
                            .must_apply_modulo_regions()
                    } else {
                        false
                    };
                    r.push(ok.to_string());
                }
                autos.push(format!(
                    "[{},{},{},{}]",
                    js(&d.path(did)),
                    js(pn),
                    r[0],
                    r[1]
                ));
            }
        }
        // the same, decided under assumptions about one type parameter at a time
        let mut assumes = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let (Some(sd), Some(sy)) = (send, sync) else { continue };
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let t = Ty::new_adt(tcx, tcx.adt_def(did), args);
            let params: Vec<Ty<'tcx>> = args.types().collect();
            for (k, _) in params.iter().enumerate() {
                for (an, has) in [("none", [false, false]), ("send", [true, false]), ("sync", [false, true]), ("both", [true, true])] {
                    let mut cl: Vec<ty::Clause<'tcx>> = tcx.param_env(did).caller_bounds().collect();
                    for (j, pt) in params.iter().enumerate() {
                        for (q, tr) in [sd, sy].into_iter().enumerate() {
                            if j != k || has[q] {
                                let tref = ty::TraitRef::new(tcx, tr, [*pt]);
                                cl.push(ty::Upcast::upcast(ty::Binder::dummy(tref), tcx));
                            }
                        }
                    }
                    let env = ty::ParamEnv::new(tcx, cl);
                    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                    let a = infcx.type_implements_trait(sd, [t], env).must_apply_modulo_regions();
                    let b = infcx.type_implements_trait(sy, [t], env).must_apply_modulo_regions();
                    assumes.push(format!("[{},{},{},{},{}]", js(&d.path(did)), js(&params[k].to_string()), js(an), a, b));
                }
            }
        }
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"crate\":{},\"roots\":{},\"iroots\":{},\"types\":{},\"adts\":{{{}}},\"bodies\":{},\"impls\":{},\"autos\":{},\"assumes\":{}}}",
            js(&krate),
            jl(roots),
            jl(iroots),
            jl(d.ty_out.clone()),
            d.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            jl(bodies),
            jl(impls),
            jl(autos),
            jl(assumes)
        );
        std::fs::write(format!("{}/{}.json", self.out, krate), s).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn find_std<'tcx>(_tcx: TyCtxt<'tcx>, _p: &[&str]) -> Option<DefId> {
    None
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let is_target = {
        let mut cn = None;
        let mut it = args.iter();
        while let Some(a) = it.next() {
            if a == "--crate-name" {
                cn = it.next().cloned();
            }
        }
        cn.map(|c| c.starts_with("numeric")).unwrap_or(false)
    };
    if is_target {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckNull,-CheckAlignment".into());
    }
    if is_target && !out.is_empty() {
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
