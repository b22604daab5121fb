//! rustc driver that dumps the *monomorphic* MIR of everything reachable from the
//! functions in `roots` (module of the harness crate) as JSON.  It never executes
//! anything: it only asks the compiler for the type-checked program.
//!
//! env VERIF_MIR_OUT    : output path (dump happens only for crate VERIF_MIR_CRATE)
//! env VERIF_MIR_CRATE  : crate name whose `roots` module is the root set
//! env VERIF_MIR_RULES  : rules file: `stop <path-prefix>`, `go <path-prefix>`, `subst <path> <fn>`
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;

use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Rules {
    pats: Vec<(bool, String)>, // (stop?, prefix)
    subst: HashMap<String, String>,
}

impl Rules {
    fn load() -> Rules {
        let p = std::env::var("VERIF_MIR_RULES").expect("VERIF_MIR_RULES");
        let txt = std::fs::read_to_string(p).expect("rules");
        let mut r = Rules { pats: vec![], subst: HashMap::new() };
        for l in txt.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            let (k, rest) = l.split_once(' ').unwrap();
            let rest = rest.trim();
            match k {
                "stop" => r.pats.push((true, rest.to_string())),
                "go" => r.pats.push((false, rest.to_string())),
                "subst" => {
                    let (a, b) = rest.rsplit_once(" => ").unwrap();
                    r.subst.insert(a.trim().to_string(), b.trim().to_string());
                }
                _ => panic!("bad rule {l}"),
            }
        }
        r
    }
    fn stop(&self, krate: &str, path: &str) -> bool {
        let path = format!("{krate}|{path}");
        let mut best: Option<(usize, bool)> = None;
        for (s, p) in &self.pats {
            if path.starts_with(p.as_str()) {
                if best.map_or(true, |(l, _)| p.len() >= l) { best = Some((p.len(), *s)); }
            }
        }
        best.map_or(true, |b| b.1)
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    rules: Rules,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_q: VecDeque<Ty<'tcx>>,
    ty_out: BTreeMap<usize, String>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_q: VecDeque<Instance<'tcx>>,
    fn_out: BTreeMap<usize, String>,
    prelude: HashMap<String, DefId>,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d))))
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String { path_of(self.tcx, d) }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t))))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_q.push_back(t);
        i
    }
    fn func(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(n) = self.fns.get(&i) { return *n; }
        let n = self.fns.len();
        self.fns.insert(i, n);
        self.fn_q.push_back(i);
        n
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }
    fn flush_types(&mut self) {
        while let Some(t) = self.ty_q.pop_front() {
            let id = self.tys[&t];
            let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.emit_ty(t)))
                .unwrap_or_else(|_| "{\"name\":\"?\",\"k\":\"other\"}".to_string());
            self.ty_out.insert(id, s);
        }
    }
    fn list(&mut self, ts: impl Iterator<Item = Ty<'tcx>>) -> String {
        let v: Vec<String> = ts.map(|t| self.ty(t).to_string()).collect();
        format!("[{}]", v.join(","))
    }
    fn emit_ty(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let name = esc(&self.tystr(t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"w\":{}", esc(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", esc(i.name_str())),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), esc(&disc.to_string()), fs.join(",")));
                }
                let a = self.list(args.types());
                let krate = tcx.crate_name(def.did().krate).to_string();
                let mut drop = "null".to_string();
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let p = self.path(d.did);
                    let dk = tcx.crate_name(d.did.krate).to_string();
                    if !self.rules.stop(&krate, &path) && !self.rules.stop(&dk, &p) {
                        let inst = Instance::new_raw(d.did, args);
                        drop = self.func(inst).to_string();
                    } else {
                        drop = "-1".to_string();
                    }
                }
                let cargs: Vec<String> = args.consts().map(|c| esc(&format!("{}", c))).collect();
                format!("\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"crate\":{},\"vs\":[{}],\"args\":{},\"cargs\":[{}],\"drop\":{}",
                    kind, esc(&path), esc(&krate), vs.join(","), a, cargs.join(","), drop)
            }
            ty::Ref(_, inner, m) => { let i = self.ty(inner); format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", i, m.is_mut()) }
            ty::RawPtr(inner, m) => { let i = self.ty(inner); format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", i, m.is_mut()) }
            ty::Slice(inner) => { let i = self.ty(inner); format!("\"k\":\"slice\",\"t\":{}", i) }
            ty::Array(inner, len) => {
                let i = self.ty(inner);
                let n = len.try_to_target_usize(tcx).map_or("null".into(), |n| n.to_string());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", i, n)
            }
            ty::Tuple(l) => { let a = self.list(l.iter()); format!("\"k\":\"tuple\",\"ts\":{}", a) }
            ty::Closure(d, args) => {
                let up = self.list(args.as_closure().upvar_tys().iter());
                format!("\"k\":\"closure\",\"path\":{},\"ts\":{}", esc(&self.path(d)), up)
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let inst = self.resolve(d, args);
                format!("\"k\":\"fndef\",\"path\":{},\"fn\":{}", esc(&self.path(d)), inst)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{\"name\":{},{}}}", name, body)
    }
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let p = self.path(d);
        // an implementation of the analysed crate overriding a library method is analysed itself
        let own = match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => self.tcx.crate_name(i.def_id().krate).as_str() == "vec_collections",
            _ => false,
        };
        if own {} else if let Some(s) = self.rules.subst.get(&p).cloned() {
            if let Some(pd) = self.prelude.get(&s).copied() {
                let inst = Instance::new_raw(pd, self.fit_args(pd, args));
                return self.func(inst).to_string();
            }
        }
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let rp = self.path(i.def_id());
                if let InstanceKind::Item(_) = i.def {
                    if let Some(s) = self.rules.subst.get(&rp).cloned() {
                        if let Some(pd) = self.prelude.get(&s).copied() {
                            let inst = Instance::new_raw(pd, self.fit_args(pd, i.args));
                            return self.func(inst).to_string();
                        }
                    }
                }
                self.func(i).to_string()
            }
            _ => "null".into(),
        }
    }
    /// keep only the type arguments (prelude fns are generic over types only)
    fn fit_args(&self, pd: DefId, args: ty::GenericArgsRef<'tcx>) -> ty::GenericArgsRef<'tcx> {
        let want = self.tcx.generics_of(pd).own_counts().types;
        let v: Vec<ty::GenericArg<'tcx>> = args.iter().filter(|a| a.as_type().is_some()).collect();
        if v.len() < want { panic!("prelude {} wants {} type args, have {:?}", self.path(pd), want, args); }
        let mut it = v.into_iter();
        ty::GenericArgs::for_item(self.tcx, pd, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
            _ => it.next().unwrap(),
        })
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let _ = body;
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\".\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(t)),
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), pr.join(","))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(t);
        if depth > 6 { return format!("{{\"c\":\"opaque\",\"t\":{}}}", ti); }
        match *t.kind() {
            ty::FnDef(d, args) => { let args = args.no_bound_vars().unwrap(); let f = self.resolve(d, args); return format!("{{\"c\":\"fn\",\"f\":{},\"t\":{}}}", f, ti); }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match v {
                    ConstValue::Scalar(s) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, size), false).ok(),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(Scalar::Int(i)) = sc {
                    let n: String = if t.is_signed() { i.to_int(i.size()).to_string() } else { i.to_uint(i.size()).to_string() };
                    return format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", esc(&n), ti);
                }
                return format!("{{\"c\":\"opaque\",\"t\":{}}}", ti);
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return format!("{{\"c\":\"opaque\",\"t\":{}}}", ti); } }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    if d.fields.len() <= 64 {
                        let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        let var = d.variant.map_or(0, |v| v.as_usize());
                        return format!("{{\"c\":\"agg\",\"v\":{},\"f\":[{}],\"t\":{}}}", var, fs.join(","), ti);
                    }
                }
                if let ConstValue::ZeroSized = v { return format!("{{\"c\":\"zst\",\"t\":{}}}", ti); }
                return format!("{{\"c\":\"opaque\",\"t\":{}}}", ti);
            }
            ty::Ref(_, inner, _) => {
                match (inner.kind(), v) {
                    (ty::Str, ConstValue::Slice { alloc_id, meta }) => {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                            return format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", esc(&String::from_utf8_lossy(b)), ti);
                        }
                    }
                    (ty::Slice(el), ConstValue::Slice { alloc_id, meta }) if meta <= 64 => {
                        let size = tcx.layout_of(self.env.as_query_input(*el)).unwrap().size;
                        let fs: Vec<String> = (0..meta).map(|i| self.cval(ConstValue::Indirect { alloc_id, offset: size * i }, *el, depth + 1)).collect();
                        return format!("{{\"c\":\"slice\",\"f\":[{}],\"t\":{}}}", fs.join(","), ti);
                    }
                    (_, ConstValue::Scalar(Scalar::Ptr(p, _))) if inner.is_sized(tcx, self.env) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        let aid = prov.alloc_id();
                        if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                            let iv = if tcx.layout_of(self.env.as_query_input(*(&inner))).map_or(false, |l| l.is_zst()) { ConstValue::ZeroSized } else { ConstValue::Indirect { alloc_id: aid, offset: off } };
                            let x = self.cval(iv, inner, depth + 1);
                            return format!("{{\"c\":\"ref\",\"v\":{},\"t\":{}}}", x, ti);
                        }
                        if let GlobalAlloc::Static(d) = tcx.global_alloc(aid) {
                            return format!("{{\"c\":\"static\",\"v\":{},\"t\":{}}}", esc(&self.path(d)), ti);
                        }
                    }
                    _ => {}
                }
                return format!("{{\"c\":\"opaque\",\"t\":{}}}", ti);
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v { return format!("{{\"c\":\"zst\",\"t\":{}}}", ti); }
        format!("{{\"c\":\"opaque\",\"t\":{}}}", ti)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => { let s = self.cval(v, t, 0); format!("[\"k\",{}]", s) }
                    Err(_) => { let ti = self.ty(t); format!("[\"k\",{{\"c\":\"opaque\",\"t\":{}}}]", ti) }
                }
            }
            Operand::RuntimeChecks(_) => {
                let b = self.tcx.types.bool; let ti = self.ty(b);
                format!("[\"k\",{{\"c\":\"int\",\"v\":\"0\",\"t\":{}}}]", ti)
            }
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(body, o), n.try_to_target_usize(self.tcx).map_or("null".into(), |n| n.to_string())),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(body, p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, o), ti) }
            Rvalue::BinaryOp(op, ab) => { let a = self.operand(body, &ab.0); let b = self.operand(body, &ab.1); format!("[\"bin\",\"{:?}\",{},{}]", op, a, b) }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, a)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let (kk, t, v) = match **k {
                    AggregateKind::Array(t) => ("array", self.ty(t) as i64, 0),
                    AggregateKind::Tuple => ("tuple", -1, 0),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(self.env, t);
                        let _ = active;
                        ("adt", self.ty(t) as i64, v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, d, args); ("closure", self.ty(t) as i64, 0) }
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(t) as i64, 0),
                    _ => ("other", -1, 0),
                };
                format!("[\"agg\",\"{}\",{},{},[{}]]", kk, t, v, os.join(","))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn emit_fn(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = self.path(did);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str_with_args(did, inst.args)));
        let krate = tcx.crate_name(did.krate).to_string();
        let mut h = format!("\"name\":{},\"path\":{},\"crate\":{}", esc(&name), esc(&path), esc(&krate));
        if let Some(ti) = tcx.trait_item_of(did) {
            h += &format!(",\"titem\":{}", esc(&self.path(ti)));
        } 
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate(tcx, inst.args);
            let st = tcx.normalize_erasing_regions(self.env, st);
            h += &format!(",\"self\":{}", self.ty(st));
        } else if tcx.trait_of_assoc(did).is_some() && inst.args.len() > 0 {
            if let Some(st) = inst.args[0].as_type() { h += &format!(",\"self\":{}", self.ty(st)); }
        }
        let targs = self.list(inst.args.types());
        h += &format!(",\"args\":{}", targs);
        h += &format!(",\"span\":{}", esc(&self.span(tcx.def_span(did))));
        if let InstanceKind::Item(_) = inst.def {
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate(tcx, inst.args);
                let sig = tcx.normalize_erasing_regions(self.env, tcx.instantiate_bound_regions_with_erased(sig.skip_norm_wip()).output().into_unnorm());
                let t = self.ty(sig);
                h += &format!(",\"ret\":{}", t);
            }
        }
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(_) => "shim",
        };
        h += &format!(",\"kind\":\"{}\"", kind);
        let descend = match inst.def {
            InstanceKind::Item(d) => !self.rules.stop(&krate, &path) && tcx.is_mir_available(d)
                && !matches!(tcx.def_kind(d), DefKind::Ctor(..)) ,
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        let is_ctor = matches!(tcx.def_kind(did), DefKind::Ctor(..));
        if is_ctor {
            let sig = tcx.fn_sig(did).instantiate(tcx, inst.args);
            let sig = tcx.normalize_erasing_regions(self.env, tcx.instantiate_bound_regions_with_erased(sig.skip_norm_wip()).output().into_unnorm());
            let t = self.ty(sig);
            let mut vi = 0usize;
            if let ty::Adt(def, _) = sig.kind() {
                for (i, v) in def.variants().iter_enumerated() { if v.ctor_def_id() == Some(did) { vi = i.as_usize(); } }
            }
            h += &format!(",\"ctor\":[{},{}]", t, vi);
        }
        if !descend { return format!("{{{}}}", h); }
        let body0 = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx, self.env, ty::EarlyBinder::bind(tcx, body0.clone()));
        let is_closure = tcx.is_closure_like(did);
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        h += &format!(",\"closure\":{},\"argc\":{},\"spread\":{},\"locals\":[{}]", is_closure && kind == "item", body.arg_count,
            body.spread_arg.map_or("null".into(), |l| l.as_usize().to_string()), locals.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str()))); } }
        }
        h += &format!(",\"vars\":[{}]", names.join(","));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { bbs.push("null".to_string()); continue; }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(&body, &b.0); let r = self.rvalue(&body, &b.1); ss.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.span(s.source_info.span)))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(&body, place); ss.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize())); }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"L\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"D\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.operand(&body, o); ss.push(format!("[\"assume\",{}]", o)); }
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => ss.push("[\"?\",\"copy_nonoverlapping\"]".into()),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx); let dti = self.ty(dt);
                    let d = self.operand(&body, discr);
                    let bs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", d, bs.join(","), targets.otherwise().as_usize(), dti)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty; let pt = self.ty(pt);
                    let p = self.place(&body, place); format!("[\"drop\",{},{},{}]", p, pt, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = match *ft.kind() {
                        ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap(); let ps = esc(&self.path(d)); let f = self.resolve(d, a); format!("{{\"f\":{},\"p\":{}}}", f, ps) }
                        _ => { let o = self.operand(&body, func); format!("{{\"op\":{}}}", o) }
                    };
                    let rust_call = match *ft.kind() { ty::FnDef(..) | ty::FnPtr(..) => ft.fn_sig(tcx).abi() == rustc_abi::ExternAbi::RustCall, _ => false };
                    let a: Vec<String> = args.iter().map(|o| self.operand(&body, &o.node)).collect();
                    let d = self.place(&body, destination);
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), d, target.map_or("null".into(), |t| t.as_usize().to_string()), rust_call, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(&body, cond);
                    let mk = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op), o => format!("{:?}", std::mem::discriminant(o)) };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(&mk), target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
            };
            bbs.push(format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), tj));
        }
        format!("{{{},\"bbs\":[{}]}}", h, bbs.join(",\n"))
    }
}

trait IntoUnnorm<'tcx> { fn into_unnorm(self) -> ty::Unnormalized<'tcx, Ty<'tcx>>; }
impl<'tcx> IntoUnnorm<'tcx> for Ty<'tcx> {
    fn into_unnorm(self) -> ty::Unnormalized<'tcx, Ty<'tcx>> { ty::Unnormalized::new_wip(self) }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("VERIF_MIR_CRATE").unwrap_or_default();
        let out = match std::env::var("VERIF_MIR_OUT") { Ok(o) => o, _ => return Compilation::Continue };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if krate != want { return Compilation::Continue; }
        let mut d = Dump { tcx, env: TypingEnv::fully_monomorphized(), rules: Rules::load(), tys: HashMap::new(), ty_q: VecDeque::new(), ty_out: BTreeMap::new(),
            fns: HashMap::new(), fn_q: VecDeque::new(), fn_out: BTreeMap::new(), prelude: HashMap::new() };
        let mut roots = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|l| path_of(tcx, l.to_def_id()));
        for l in &keys {
            let p = path_of(tcx, l.to_def_id());
            let pre = format!("{}::prelude::", krate);
            if let Some(r) = p.strip_prefix(&pre) { d.prelude.insert(r.to_string(), l.to_def_id()); }
        }
        for l in &keys {
            let p = path_of(tcx, l.to_def_id());
            let rp = format!("{}::roots::", krate);
            if let Some(r) = p.strip_prefix(&rp) {
                if r.contains('{') || r.contains('<') { continue; }
                if !matches!(tcx.def_kind(l.to_def_id()), DefKind::Fn) { continue; }
                if tcx.generics_of(l.to_def_id()).requires_monomorphization(tcx) { continue; }
                let inst = Instance::mono(tcx, l.to_def_id());
                let f = d.func(inst);
                roots.push(format!("{}:{}", esc(r), f));
            }
        }
        loop {
            d.flush_types();
            if let Some(i) = d.fn_q.pop_front() {
                let id = d.fns[&i];
                // a body the dumper cannot handle becomes a function without a body: the analysis reports
                // every path through it as undecided
                let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.emit_fn(i))).unwrap_or_else(|_| {
                    let p = path_of(tcx, i.def_id());
                    format!("{{\"path\":{},\"name\":{},\"crate\":\"?\",\"args\":[],\"span\":\"\",\"kind\":\"undumped\"}}", esc(&p), esc(&p))
                });
                d.fn_out.insert(id, s);
            } else if d.ty_q.is_empty() { break; }
        }
        let mut o = String::new();
        o.push_str("{\"roots\":{");
        o.push_str(&roots.join(",\n"));
        o.push_str("},\n\"types\":[\n");
        let v: Vec<&str> = d.ty_out.values().map(|s| s.as_str()).collect();
        o.push_str(&v.join(",\n"));
        o.push_str("],\n\"fns\":[\n");
        let v: Vec<&str> = d.fn_out.values().map(|s| s.as_str()).collect();
        o.push_str(&v.join(",\n"));
        o.push_str("]}\n");
        std::fs::write(&out, o).expect("write mir json");
        Compilation::Continue
    }
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
