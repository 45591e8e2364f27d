//! Dumps the MIR of every local function (polymorphic identity instance) and of everything it
//! can call, resolved in the root's own typing environment, as JSON.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Item<'tcx> {
    Inst(Instance<'tcx>),
    Const(DefId, GenericArgsRef<'tcx>, Option<Promoted>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> {
    item: Item<'tcx>,
    root: Option<DefId>, // typing environment owner, only when the item still mentions its parameters
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_seen: HashMap<DefId, ()>,
    items: Vec<Key<'tcx>>,
    item_ix: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<usize>,
    bodies: Vec<(usize, String)>,
}

pub fn name<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), loc.line)
    }

    fn env(&self, root: Option<DefId>) -> TypingEnv<'tcx> {
        match root {
            Some(r) => TypingEnv::post_analysis(self.tcx, r),
            None => TypingEnv::fully_monomorphized(),
        }
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let tcx = self.tcx;
        let n = name(tcx, def.did());
        if self.adt_seen.insert(def.did(), ()).is_none() {
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let mut vs = Vec::new();
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() { format!("{}", def.discriminant_for_variant(tcx, vi).val as i128) } else { "0".into() };
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(fty);
                    fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
                }
                vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), discr, list(fs)));
            }
            let repr = def.repr();
            let gens: Vec<String> = {
                let g = tcx.generics_of(def.did());
                (0..g.count()).map(|i| esc(g.param_at(i, tcx).name.as_str())).collect()
            };
            let s = format!("{{\"kind\":{},\"variants\":{},\"repr_c\":{},\"generics\":{}}}", esc(kind), list(vs), repr.c(), list(gens));
            self.adts.insert(n.clone(), s);
        }
        n
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => Some(esc(&format!("{c}"))),
                _ => None,
            })
            .collect();
        list(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ix.insert(t, i);
        let tcx = self.tcx;
        let s = match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(x) => format!("{{\"k\":\"int\",\"n\":{}}}", esc(x.name_str())),
            ty::Uint(x) => format!("{{\"k\":\"int\",\"n\":{}}}", esc(x.name_str())),
            ty::Float(x) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(x.name_str())),
            ty::Adt(d, a) => {
                let n = self.adt(d);
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":{}}}", esc(&n), self.args(a))
            }
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Array(e, c) => {
                let n = c.try_to_target_usize(tcx).map_or("null".to_string(), |n| n.to_string());
                format!("{{\"k\":\"array\",\"e\":{},\"len\":{}}}", self.ty(e), n)
            }
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            ty::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"mut\":{}}}", self.ty(e), m.is_mut()),
            ty::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", self.ty(e), m.is_mut()),
            ty::FnDef(d, a) => format!("{{\"k\":\"fndef\",\"n\":{},\"a\":{}}}", esc(&name(tcx, d)), self.args(a.skip_binder())),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&format!("{t}"))),
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|u| self.ty(u).to_string()).collect();
                format!("{{\"k\":\"closure\",\"n\":{},\"up\":{}}}", esc(&name(tcx, d)), list(ups))
            }
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|u| self.ty(u).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", list(v))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{t}"))),
        };
        self.types[i] = s;
        i
    }

    fn enqueue(&mut self, item: Item<'tcx>, root: Option<DefId>) -> usize {
        let has_param = match item {
            Item::Inst(i) => i.args.has_param(),
            Item::Const(_, a, _) => a.has_param(),
        };
        let key = Key { item, root: if has_param { root } else { None } };
        if let Some(i) = self.item_ix.get(&key) {
            return *i;
        }
        let i = self.items.len();
        self.items.push(key);
        self.item_ix.insert(key, i);
        self.queue.push_back(i);
        i
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }

    fn scalar(&self, s: mir::interpret::Scalar, t: Ty<'tcx>) -> Option<String> {
        let int = s.try_to_scalar_int().ok()?;
        let bits = int.to_bits(int.size());
        let out = match t.kind() {
            ty::Int(_) => {
                let sz = int.size().bits();
                let v = if sz == 128 { bits as i128 } else { ((bits << (128 - sz)) as i128) >> (128 - sz) };
                format!("{v}")
            }
            ty::Bool => format!("{}", bits != 0),
            ty::Float(f) => match f.bit_width() {
                32 => esc(&format!("{:?}", f32::from_bits(bits as u32))),
                64 => esc(&format!("{:?}", f64::from_bits(bits as u64))),
                _ => return None,
            },
            ty::Uint(_) | ty::Char => format!("{bits}"),
            _ => return None,
        };
        Some(out)
    }

    fn constant(&mut self, c: &Const<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let env = self.env(root);
        let t = c.ty();
        let tix = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.skip_binder();
            let r = self.resolve(d, a, root);
            let sig = tcx.erase_and_anonymize_regions(t.fn_sig(tcx).skip_binder());
            let ins: Vec<String> = sig.inputs().iter().map(|i| self.ty(*i).to_string()).collect();
            return format!("{{\"c\":\"fn\",\"ty\":{},\"sig\":[{}],\"fn\":{}}}", tix, ins.join(","), r);
        }
        if t.is_scalar() && !c.has_param() {
            if let Some(s) = c.try_eval_scalar(tcx, env) {
                if let Some(v) = self.scalar(s, t) {
                    return format!("{{\"c\":\"s\",\"ty\":{},\"v\":{}}}", tix, v);
                }
            }
        }
        match *c {
            Const::Unevaluated(u, _) => {
                {
                    let (d, a) = match u.promoted {
                        Some(_) => (u.def, u.args),
                        None if tcx.trait_of_assoc(u.def).is_some() => match Instance::try_resolve(tcx, env, u.def, u.args) {
                            Ok(Some(i)) => (i.def_id(), i.args),
                            _ => return format!("{{\"c\":\"assoc\",\"ty\":{},\"n\":{},\"a\":{}}}", tix, esc(&name(tcx, u.def)), self.args(u.args)),
                        },
                        None => (u.def, u.args),
                    };
                    // constants of other crates whose value needs no evaluation come without a body
                    if u.promoted.is_none() && !d.is_local() && !tcx.def_kind(d).is_fn_like() {
                        if let Some((v, vt)) = tcx.trivial_const(d) {
                            if let Some(x) = v.try_to_scalar().and_then(|s| self.scalar(s, vt)) {
                                return format!("{{\"c\":\"s\",\"ty\":{},\"v\":{}}}", tix, x);
                            }
                            return format!("{{\"c\":\"u\",\"ty\":{},\"n\":{}}}", tix, esc(&name(tcx, d)));
                        }
                    }
                    if u.promoted.is_some() || !tcx.def_kind(d).is_fn_like() {
                        let i = self.enqueue(Item::Const(d, a, u.promoted), root);
                        return format!("{{\"c\":\"body\",\"ty\":{},\"b\":{},\"n\":{}}}", tix, i, esc(&name(tcx, d)));
                    }
                }
                format!("{{\"c\":\"u\",\"ty\":{},\"n\":{}}}", tix, esc(&name(tcx, u.def)))
            }
            Const::Val(ConstValue::ZeroSized, _) => format!("{{\"c\":\"z\",\"ty\":{}}}", tix),
            Const::Val(_, _) => {
                let d = with_no_trimmed_paths!(format!("{c}"));
                format!("{{\"c\":\"v\",\"ty\":{},\"d\":{}}}", tix, esc(&d))
            }
            Const::Ty(_, k) => {
                if let Some(n) = k.try_to_target_usize(tcx) {
                    return format!("{{\"c\":\"s\",\"ty\":{},\"v\":{}}}", tix, n);
                }
                format!("{{\"c\":\"t\",\"ty\":{},\"d\":{}}}", tix, esc(&format!("{k}")))
            }
        }
    }

    fn resolve(&mut self, d: DefId, a: GenericArgsRef<'tcx>, root: Option<DefId>) -> String {
        let tcx = self.tcx;
        let env = self.env(root);
        let mut inst = "null".to_string();
        let mut kind = "generic".to_string();
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) {
            kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(s) => match s {
                    ShimKind::ClosureOnce { .. } => "shim_once",
                    ShimKind::DropGlue(..) => "drop",
                    ShimKind::Clone(..) => "shim_clone",
                    ShimKind::FnPtr(..) => "shim_fnptr",
                    _ => "shim",
                },
            }
            .to_string();
            let has_body = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d) && self.want(d),
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
                _ => false,
            };
            let ix = if has_body { self.enqueue(Item::Inst(i), root).to_string() } else { "null".into() };
            inst = format!("{{\"b\":{},\"n\":{},\"a\":{}}}", ix, esc(&name(tcx, i.def_id())), self.args(i.args));
        }
        let (tr, st) = match tcx.trait_of_assoc(d) {
            Some(t) => (esc(&name(tcx, t)), if a.is_empty() { "null".into() } else { match a[0].as_type() { Some(t) => self.ty(t).to_string(), None => "null".into() } }),
            None => ("null".into(), "null".into()),
        };
        format!("{{\"n\":{},\"a\":{},\"kind\":{},\"inst\":{},\"trait\":{},\"self\":{}}}", esc(&name(tcx, d)), self.args(a), esc(&kind), inst, tr, st)
    }

    fn want(&self, d: DefId) -> bool {
        let k = self.tcx.crate_name(d.krate).to_string();
        if d.krate == LOCAL_CRATE || k.starts_with("i_") {
            return true;
        }
        if k == "core" || k == "alloc" {
            let p = name(self.tcx, d);
            if p.contains("::fmt::") || p.contains("panicking") || p.contains("sort") || p.contains("Debug") || p.contains("raw_vec") || p.contains("::str::") || p.contains("num::flt2dec") {
                return false;
            }
            return self.tcx.is_mir_available(d) && self.tcx.instance_mir(InstanceKind::Item(d)).basic_blocks.len() <= 24;
        }
        false
    }

    fn operand(&mut self, o: &Operand<'tcx>, root: Option<DefId>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, root)),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, root: Option<DefId>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, root)),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(self.tcx).map_or("null".to_string(), |n| n.to_string());
                format!("[\"repeat\",{},{}]", self.operand(o, root), n)
            }
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", esc(if matches!(b, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", esc(&format!("raw{k:?}")), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", esc(if m.is_mut() { "mut" } else { "shared" }), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    k => format!("{k:?}"),
                };
                let o = self.operand(o, root);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{op:?}")), self.operand(&b.0, root), self.operand(&b.1, root)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(o, root)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, root)).collect();
                let k = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, uf) => {
                        let def = self.tcx.adt_def(d);
                        let n = self.adt(def);
                        format!("[\"adt\",{},{},{},{}]", esc(&n), vi.as_usize(), self.args(a), uf.map_or("null".into(), |f| f.as_usize().to_string()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, d, a);
                        let tix = self.ty(t);
                        let i = self.enqueue(Item::Inst(Instance::new_raw(d, a)), root);
                        format!("[\"closure\",{},{},{}]", esc(&name(self.tcx, d)), i, tix)
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, list(v))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn body(&mut self, ix: usize) {
        let tcx = self.tcx;
        let key = self.items[ix];
        let env = self.env(key.root);
        let root = key.root;
        let (body, nm, args, kind): (Body<'tcx>, String, GenericArgsRef<'tcx>, &str) = match key.item {
            Item::Inst(i) => {
                let b = tcx.instance_mir(i.def);
                let b = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())) {
                    Ok(b) => b,
                    Err(_) => b.clone(),
                };
                (b, name(tcx, i.def_id()), i.args, match i.def { InstanceKind::Item(_) => "item", InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "shim_once", _ => "shim" })
            }
            Item::Const(d, a, p) => {
                let b = match p {
                    Some(p) => &tcx.promoted_mir(d)[p],
                    None => tcx.mir_for_ctfe(d),
                };
                let i = Instance::new_raw(d, a);
                let b = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())) {
                    Ok(b) => b,
                    Err(_) => b.clone(),
                };
                (b, name(tcx, d), a, if p.is_some() { "promoted" } else { "const" })
            }
        };
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(format!("[{},{},{}]", esc(v.name.as_str()), p, v.argument_index.map_or("null".into(), |a| a.to_string())));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut sts = Vec::new();
            for s in &bb.statements {
                let sp = s.source_info.span;
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let l = self.line(sp);
                        sts.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, root), l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        sts.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            sts.push("[\"copynonoverlapping\"]".into());
                        }
                    }
                    StatementKind::StorageDead(l) => sts.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let line = self.line(sp);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dty = discr.ty(&body.local_decls, tcx);
                    let o = self.operand(discr, root);
                    format!("[\"switch\",{},{},{},{}]", o, list(vals), targets.otherwise().as_usize(), self.ty(dty))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, root);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, root)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, list(a), d, target.map_or("null".into(), |t| t.as_usize().to_string()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, root), self.operand(index, root)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![self.operand(a, root), self.operand(b, root)]),
                        AssertKind::OverflowNeg(a) => ("overflow_neg".into(), vec![self.operand(a, root)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.operand(a, root)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a, root)]),
                        _ => ("other".into(), vec![]),
                    };
                    let c = self.operand(cond, root);
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(&m), list(ops), target.as_usize())
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"u\":{}}}", list(sts), ts, line, bb.is_cleanup));
        }
        let parent_generic = root.is_some();
        let args = self.args(args);
        let out = format!(
            "{{\"id\":{},\"n\":{},\"a\":{},\"kind\":{},\"poly\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"span\":{},\"blocks\":{}}}",
            ix, esc(&nm), args, esc(kind), parent_generic, body.arg_count, body.spread_arg.map_or("null".into(), |l| l.as_usize().to_string()), list(locals), list(names), self.span(body.span), list(blocks)
        );
        self.bodies.push((ix, out));
    }

    fn line(&self, s: Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, path: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ix: HashMap::new(),
        adts: BTreeMap::new(),
        adt_seen: HashMap::new(),
        items: vec![],
        item_ix: HashMap::new(),
        queue: VecDeque::new(),
        bodies: vec![],
    };
    let mut roots = Vec::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let k = tcx.def_kind(d);
        let is_fn = matches!(k, DefKind::Fn | DefKind::AssocFn);
        let is_const = matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
        if !is_fn && !is_const {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let item = if is_fn { Item::Inst(Instance::new_raw(d, args)) } else { Item::Const(d, args, None) };
        let ix = cx.enqueue(item, Some(d));
        let gens: Vec<String> = {
            let g = tcx.generics_of(d);
            (0..g.count()).filter(|i| !matches!(g.param_at(*i, tcx).kind, ty::GenericParamDefKind::Lifetime)).map(|i| esc(g.param_at(i, tcx).name.as_str())).collect()
        };
        let vis = tcx.visibility(d).is_public();
        let reach = tcx.effective_visibilities(()).is_exported(ld);
        let (tr, st) = match tcx.opt_parent(d) {
            Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(p).map(|t| t.instantiate_identity().skip_norm_wip());
                (tr.map_or("null".into(), |t| esc(&name(tcx, t.def_id))), cx.ty(st).to_string())
            }
            Some(p) if matches!(tcx.def_kind(p), DefKind::Trait) => (esc(&name(tcx, p)), "null".into()),
            _ => ("null".into(), "null".into()),
        };
        let item_name = tcx.opt_item_name(d).map_or(String::new(), |s| s.to_string());
        roots.push(format!(
            "{{\"id\":{},\"n\":{},\"m\":{},\"fn\":{},\"gen\":{},\"pub\":{},\"exported\":{},\"trait\":{},\"self\":{},\"unsafe\":{},\"span\":{}}}",
            ix, esc(&name(tcx, d)), esc(&item_name), is_fn, list(gens), vis, reach, tr, st,
            is_fn && tcx.fn_sig(d).skip_binder().safety().is_unsafe(), cx.span(tcx.def_span(d))
        ));
    }
    while let Some(ix) = cx.queue.pop_front() {
        cx.body(ix);
    }
    // layouts of local, parameter-free structs
    let mut layouts = Vec::new();
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && tcx.generics_of(d).count() == 0 {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            cx.ty(t);
            if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                let offs: Vec<String> = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                layouts.push(format!("{}:{{\"size\":{},\"align\":{},\"offsets\":{}}}", esc(&name(tcx, d)), l.size.bytes(), l.align.abi.bytes(), list(offs)));
            }
        }
    }
    let mut impls = Vec::new();
    for (tr, ids) in tcx.all_local_trait_impls(()) {
        for ld in ids {
            let st = tcx.type_of(ld.to_def_id()).instantiate_identity().skip_norm_wip();
            let t = cx.ty(st);
            let trr = tcx.impl_trait_ref(ld.to_def_id()).instantiate_identity().skip_norm_wip();
            let a = cx.args(trr.args);
            let derived = tcx.is_automatically_derived(ld.to_def_id());
            let mut ms = Vec::new();
            for it in tcx.associated_items(ld.to_def_id()).in_definition_order() {
                ms.push(format!("[{},{}]", esc(it.name().as_str()), esc(&name(tcx, it.def_id))));
            }
            impls.push(format!("{{\"trait\":{},\"self\":{},\"args\":{},\"derived\":{},\"items\":{}}}", esc(&name(tcx, *tr)), t, a, derived, list(ms)));
        }
    }
    impls.sort();
    cx.bodies.sort();
    let mut o = String::new();
    o.push_str("{\"crate\":");
    o.push_str(&esc(tcx.crate_name(LOCAL_CRATE).as_str()));
    o.push_str(",\"types\":[");
    o.push_str(&cx.types.join(",\n"));
    o.push_str("],\"adts\":{");
    o.push_str(&cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\"layouts\":{");
    o.push_str(&layouts.join(",\n"));
    o.push_str("},\"impls\":[");
    o.push_str(&impls.join(",\n"));
    o.push_str("],\"roots\":[");
    o.push_str(&roots.join(",\n"));
    o.push_str("],\"bodies\":[");
    o.push_str(&cx.bodies.into_iter().map(|b| b.1).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}");
    std::fs::write(path, o).unwrap();
}
