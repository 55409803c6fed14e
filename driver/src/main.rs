//! Dumps the monomorphic MIR of the crate being compiled (plus the small std
//! combinators it calls) as JSON facts.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use rustc_public::*;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Cx {
    tys: Vec<String>,
    ty_ix: HashMap<Ty, usize>,
    adts: BTreeMap<String, Option<String>>,
    inst_ix: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    bodies: Vec<String>,
    callees: Vec<Instance>,
    iter_next: Option<FnDef>,
}

fn dname(d: &impl CrateDef) -> String {
    let n = d.name().to_string();
    n
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ix.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, i);
        let s = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.to_string(),
                RigidTy::Char => r#"{"k":"char"}"#.to_string(),
                RigidTy::Str => r#"{"k":"str"}"#.to_string(),
                RigidTy::Never => r#"{"k":"never"}"#.to_string(),
                RigidTy::Int(x) => format!(r#"{{"k":"int","n":{},"s":true,"b":{}}}"#, esc(&format!("{x:?}")), x.num_bytes()),
                RigidTy::Uint(x) => format!(r#"{{"k":"int","n":{},"s":false,"b":{}}}"#, esc(&format!("{x:?}")), x.num_bytes()),
                RigidTy::Float(x) => format!(r#"{{"k":"float","n":{}}}"#, esc(&format!("{x:?}"))),
                RigidTy::Adt(d, a) => {
                    let n = self.adt(d);
                    let a = self.args(&a);
                    format!(r#"{{"k":"adt","n":{},"a":{}}}"#, esc(&n), a)
                }
                RigidTy::Array(t, n) => { let t = self.ty(t); format!(r#"{{"k":"array","t":{t},"len":{}}}"#, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)) }
                RigidTy::Slice(t) => { let t = self.ty(t); format!(r#"{{"k":"slice","t":{t}}}"#) }
                RigidTy::RawPtr(t, m) => { let t = self.ty(t); format!(r#"{{"k":"ptr","t":{t},"m":{}}}"#, m == Mutability::Mut) }
                RigidTy::Ref(_, t, m) => { let t = self.ty(t); format!(r#"{{"k":"ref","t":{t},"m":{}}}"#, m == Mutability::Mut) }
                RigidTy::FnDef(d, a) => {
                    let n = dname(&d); let aa = self.args(&a);
                    let inst = self.resolve(d, &a);
                    format!(r#"{{"k":"fn","n":{},"a":{},"i":{}}}"#, esc(&n), aa, inst)
                }
                RigidTy::Closure(d, a) => {
                    let n = dname(&d);
                    let inst = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { Ok(_) => {
                        // prefer the by-ref body: resolve with Fn, falling back
                        let k = Instance::resolve_closure(d, &a, ClosureKind::Fn).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnMut)).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnOnce));
                        match k { Ok(i) => self.inst(i) as i64, Err(_) => -1 } } Err(_) => -1 };
                    let ups: Vec<String> = closure_upvar_tys(&a).into_iter().map(|t| self.ty(t).to_string()).collect();
                    format!(r#"{{"k":"closure","n":{},"i":{},"up":{}}}"#, esc(&n), inst, arr(ups))
                }
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!(r#"{{"k":"tuple","ts":{}}}"#, arr(v)) }
                RigidTy::Dynamic(p, _) => format!(r#"{{"k":"dyn","n":{}}}"#, esc(&format!("{:?}", p.first().map(|b| match &b.value { ExistentialPredicate::Trait(t) => t.def_id.name().to_string(), _ => String::new() }).unwrap_or_default()))),
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.to_string(),
                other => format!(r#"{{"k":"other","n":{}}}"#, esc(&format!("{other:?}").chars().take(80).collect::<String>())),
            },
            other => format!(r#"{{"k":"param","n":{}}}"#, esc(&format!("{other:?}").chars().take(80).collect::<String>())),
        };
        self.tys[i] = s;
        i
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().filter_map(|g| g.ty().map(|t| self.ty(*t).to_string())).collect();
        arr(v)
    }
    fn adt(&mut self, d: AdtDef) -> String {
        let n = dname(&d);
        if self.adts.contains_key(&n) { return n; }
        self.adts.insert(n.clone(), None);
        let mut vs = Vec::new();
        for v in d.variants_iter() {
            let mut fs = Vec::new();
            for f in v.fields() {
                let t = self.ty(f.ty());
                fs.push(format!(r#"{{"n":{},"t":{}}}"#, esc(&f.name.to_string()), t));
            }
            let disc = if d.kind().is_enum() { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
            vs.push(format!(r#"{{"n":{},"d":{},"f":{}}}"#, esc(&v.name().to_string()), disc, arr(fs)));
        }
        let s = format!(r#"{{"n":{},"kind":{},"local":{},"v":{}}}"#, esc(&n), esc(&d.kind().to_string()), d.krate().is_local, arr(vs));
        self.adts.insert(n.clone(), Some(s));
        n
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ix.get(&i) { return *x; }
        let x = self.callees.len();
        self.inst_ix.insert(i, x);
        self.callees.push(i);
        self.bodies.push(String::new());
        self.queue.push_back(i);
        x
    }
    /// What an iterator yields, for a call of one of `Iterator`'s methods.
    fn item(&mut self, name: &str, a: &GenericArgs) -> i64 {
        if !name.contains("iter::Iterator::") { return -1; }
        let (Some(n), Some(g)) = (self.iter_next, a.0.first()) else { return -1 };
        let Ok(i) = Instance::resolve(n, &GenericArgs(vec![g.clone()])) else { return -1 };
        match i.fn_abi() { Ok(abi) => self.ty(abi.ret.ty) as i64, Err(_) => -1 }
    }
    fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> i64 {
        match Instance::resolve(d, a) { Ok(i) => self.inst(i) as i64, Err(_) => -1 }
    }

    /// A value becomes a trait object: its methods can be called from here on.
    fn unsize(&mut self, from: Ty, to: Ty) {
        let (mut f, mut t) = (from, to);
        for _ in 0..8 {
            match (f.kind(), t.kind()) {
                (TyKind::RigidTy(RigidTy::Ref(_, a, _) | RigidTy::RawPtr(a, _)), TyKind::RigidTy(RigidTy::Ref(_, b, _) | RigidTy::RawPtr(b, _))) => { f = a; t = b; }
                (TyKind::RigidTy(RigidTy::Adt(d, _)), TyKind::RigidTy(RigidTy::Dynamic(ps, _))) => {
                    if !d.krate().is_local && d.krate().name != "avdl" { return; }
                    for p in ps.iter() {
                        if !p.bound_vars.is_empty() { continue; }
                        if let ExistentialPredicate::Trait(tr) = &p.value {
                            for e in tr.with_self_ty(f).vtable_entries() { if let VtblEntry::Method(i) = e { if i.def.krate().is_local { self.inst(i); } } }
                        }
                    }
                    return;
                }
                (TyKind::RigidTy(RigidTy::Adt(_, a)), TyKind::RigidTy(RigidTy::Adt(_, b))) => {
                    let (Some(x), Some(y)) = (a.0.iter().find_map(|g| g.ty()), b.0.iter().find_map(|g| g.ty())) else { return };
                    f = *x; t = *y;
                }
                _ => return,
            }
        }
    }

    // ---- constants -------------------------------------------------------
    fn read_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }
    fn follow(a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let (_, p) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        let add = Self::read_uint(a, off, 8)? as usize;
        Some((GlobalAlloc::from(p.0), add))
    }
    fn mem(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 8 { return r#"{"k":"deep"}"#.into(); }
        let k = match t.kind() { TyKind::RigidTy(r) => r, _ => return r#"{"k":"?"}"#.into() };
        match k {
            RigidTy::Bool => format!(r#"{{"k":"bool","v":{}}}"#, Self::read_uint(a, off, 1).unwrap_or(0) != 0),
            RigidTy::Char => format!(r#"{{"k":"char","v":{}}}"#, Self::read_uint(a, off, 4).unwrap_or(0)),
            RigidTy::Int(i) => { let n = i.num_bytes(); let u = Self::read_uint(a, off, n).unwrap_or(0); let sh = 128 - 8 * n as u32; let v = ((u << sh) as i128) >> sh; format!(r#"{{"k":"int","v":{v}}}"#) }
            RigidTy::Uint(i) => format!(r#"{{"k":"int","v":{}}}"#, Self::read_uint(a, off, i.num_bytes()).unwrap_or(0)),
            RigidTy::Float(_) => { let n = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(8); let u = Self::read_uint(a, off, n).unwrap_or(0); let f = if n == 8 { f64::from_bits(u as u64) } else { f32::from_bits(u as u32) as f64 }; format!(r#"{{"k":"float","v":{}}}"#, esc(&f.to_string())) }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let Some((g, add)) = Self::follow(a, off) else { return r#"{"k":"?ptr"}"#.into() };
                let GlobalAlloc::Memory(m) = g else {
                    if let GlobalAlloc::Static(s) = g { return format!(r#"{{"k":"static","n":{}}}"#, esc(&dname(&s))); }
                    return r#"{"k":"?galloc"}"#.into() };
                match p.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let b: Vec<u8> = m.bytes[add..add + len].iter().map(|x| x.unwrap_or(0)).collect();
                        format!(r#"{{"k":"str","v":{}}}"#, esc(&String::from_utf8_lossy(&b)))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                        self.seq(&m, add, e, len, depth)
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => r#"{"k":"dyn"}"#.into(),
                    _ => format!(r#"{{"k":"ref","v":{}}}"#, self.mem(&m, add, p, depth + 1)),
                }
            }
            RigidTy::Array(e, n) => { let n = n.eval_target_usize().unwrap_or(0) as usize; self.seq(a, off, e, n, depth) }
            RigidTy::Tuple(ts) => {
                let offs = match t.layout().map(|l| l.shape().fields) { Ok(FieldsShape::Arbitrary { offsets }) => offsets, _ => return r#"{"k":"?tuple"}"#.into() };
                let v: Vec<String> = ts.iter().enumerate().map(|(i, t)| self.mem(a, off + offs[i].bytes(), *t, depth + 1)).collect();
                format!(r#"{{"k":"tuple","v":{}}}"#, arr(v))
            }
            RigidTy::Adt(d, args) => {
                let n = self.adt(d);
                let Ok(l) = t.layout() else { return r#"{"k":"?layout"}"#.into() };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsz = scalar_size(tag);
                        if a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff) {
                            if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                                (untagged_variant.to_index(), variants[untagged_variant.to_index()].offsets.iter().map(|x| x.bytes()).collect())
                            } else { return r#"{"k":"?tag"}"#.into(); }
                        } else {
                        let Some(tv) = Self::read_uint(a, off + toff, tsz) else { return r#"{"k":"?tag"}"#.into() };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => { let mut r = None; for v in d.variants_iter() { if d.discriminant_for_variant(v.idx()).val == tv { r = Some(v.idx().to_index()); } } match r { Some(x) => x, None => return r#"{"k":"?tag"}"#.into() } }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                let span = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                if rel <= span { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect()) }
                    }
                    VariantsShape::Empty => return r#"{"k":"never"}"#.into(),
                };
                let vs = d.variants();
                let v = &vs[vi];
                let mut fs = Vec::new();
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let val = if i < offs.len() { self.mem(a, off + offs[i], ft, depth + 1) } else { r#"{"k":"?"}"#.into() };
                    fs.push(format!(r#"{{"n":{},"v":{}}}"#, esc(&f.name.to_string()), val));
                }
                format!(r#"{{"k":"adt","n":{},"v":{},"f":{}}}"#, esc(&n), esc(&v.name().to_string()), arr(fs))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => { let t = self.ty(t); format!(r#"{{"k":"zst","t":{t}}}"#) }
            _ => r#"{"k":"?"}"#.into(),
        }
    }
    fn seq(&mut self, m: &Allocation, add: usize, e: Ty, len: usize, depth: usize) -> String {
        let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            let b: Vec<u8> = m.bytes[add..add + len].iter().map(|x| x.unwrap_or(0)).collect();
            return format!(r#"{{"k":"bytes","v":{}}}"#, esc(&String::from_utf8_lossy(&b)));
        }
        let v: Vec<String> = (0..len.min(4000)).map(|i| self.mem(m, add + i * st, e, depth + 1)).collect();
        format!(r#"{{"k":"seq","v":{}}}"#, arr(v))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.mem(&a.clone(), 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::Adt(d, _)) if d.num_variants() == 1 && d.variants()[0].fields().is_empty() => { let n = self.adt(d); format!(r#"{{"k":"adt","n":{},"v":{},"f":[]}}"#, esc(&n), esc(&d.variants()[0].name().to_string())) }
                _ => r#"{"k":"zst"}"#.to_string() },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.mem(&a.clone(), 0, *t, 0),
                _ => r#"{"k":"zst"}"#.to_string(),
            },
            ConstantKind::Unevaluated(_) => r#"{"k":"uneval"}"#.to_string(),
            ConstantKind::Param(_) => r#"{"k":"param"}"#.to_string(),
        };
        format!(r#"{{"o":"const","t":{ti},"v":{v}}}"#)
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> String {
        let mut ty = locals[p.local].ty;
        let mut variant: Option<VariantIdx> = None;
        let mut out = Vec::new();
        for e in &p.projection {
            let kind = ty.kind();
            let next = if variant.is_some() { match e { ProjectionElem::Field(_, t) => Some(*t), _ => None } } else { None };
            match e {
                ProjectionElem::Deref => out.push(r#"{"p":"deref"}"#.to_string()),
                ProjectionElem::Field(i, ft) => {
                    let (nm, owner, vn) = match &kind {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                            let vs = d.variants();
                            let v = match variant { Some(v) => &vs[v.to_index()], None => &vs[0] };
                            let f = v.fields();
                            (f.get(*i).map(|f| f.name.to_string()).unwrap_or(i.to_string()), self.adt(*d), v.name().to_string())
                        }
                        _ => (i.to_string(), String::new(), String::new()),
                    };
                    let t = self.ty(*ft);
                    out.push(format!(r#"{{"p":"field","i":{},"n":{},"o":{},"v":{},"t":{}}}"#, i, esc(&nm), esc(&owner), esc(&vn), t));
                }
                ProjectionElem::Index(l) => out.push(format!(r#"{{"p":"index","l":{l}}}"#)),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => out.push(format!(r#"{{"p":"cindex","i":{offset},"e":{from_end}}}"#)),
                ProjectionElem::Subslice { from, to, from_end } => out.push(format!(r#"{{"p":"subslice","f":{from},"to":{to},"e":{from_end}}}"#)),
                ProjectionElem::Downcast(v) => {
                    let nm = match &kind { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants()[v.to_index()].name().to_string(), _ => v.to_index().to_string() };
                    out.push(format!(r#"{{"p":"down","v":{},"i":{}}}"#, esc(&nm), v.to_index()));
                    variant = Some(*v);
                    continue;
                }
                ProjectionElem::OpaqueCast(_) => out.push(r#"{"p":"opaque"}"#.to_string()),
            }
            variant = None;
            ty = match next { Some(t) => t, None => e.ty(ty).unwrap_or(ty) };
        }
        if out.is_empty() { format!(r#"{{"l":{}}}"#, p.local) } else { format!(r#"{{"l":{},"p":{}}}"#, p.local, arr(out)) }
    }
    fn op(&mut self, o: &Operand, l: &[LocalDecl]) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"o":"copy","p":{}}}"#, self.place(p, l)),
            Operand::Move(p) => format!(r#"{{"o":"move","p":{}}}"#, self.place(p, l)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => r#"{"o":"rtcheck"}"#.to_string(),
        }
    }
    fn rv(&mut self, r: &Rvalue, l: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"{{"r":"use","a":{}}}"#, self.op(o, l)),
            Rvalue::CopyForDeref(p) => format!(r#"{{"r":"use","a":{{"o":"copy","p":{}}}}}"#, self.place(p, l)),
            Rvalue::Ref(_, b, p) => format!(r#"{{"r":"ref","m":{},"p":{}}}"#, matches!(b, BorrowKind::Mut { .. }), self.place(p, l)),
            Rvalue::Reborrow(_, m, p) => format!(r#"{{"r":"reborrow","m":{},"p":{}}}"#, *m == Mutability::Mut, self.place(p, l)),
            Rvalue::AddressOf(m, p) => format!(r#"{{"r":"ref","raw":true,"m":{},"p":{}}}"#, matches!(m, RawPtrKind::Mut), self.place(p, l)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o, l)).collect();
                let h = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!(r#""ak":"array","t":{t}"#) }
                    AggregateKind::Tuple => r#""ak":"tuple""#.to_string(),
                    AggregateKind::Adt(d, v, _, _, fi) => {
                        let n = self.adt(*d);
                        let vs = d.variants();
                        let vd = &vs[v.to_index()];
                        let fns: Vec<String> = match fi { Some(f) => vec![esc(&vd.fields()[*f].name.to_string())], None => vd.fields().iter().map(|f| esc(&f.name.to_string())).collect() };
                        format!(r#""ak":"adt","n":{},"v":{},"vi":{},"fn":{}"#, esc(&n), esc(&vd.name().to_string()), v.to_index(), arr(fns))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!(r#""ak":"closure","n":{},"t":{t}"#, esc(&dname(d)))
                    }
                    _ => r#""ak":"other""#.to_string(),
                };
                format!(r#"{{"r":"agg",{h},"ops":{}}}"#, arr(os))
            }
            Rvalue::BinaryOp(b, x, y) => format!(r#"{{"r":"bin","op":{},"a":{},"b":{}}}"#, esc(&format!("{b:?}")), self.op(x, l), self.op(y, l)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(r#"{{"r":"cbin","op":{},"a":{},"b":{}}}"#, esc(&format!("{b:?}")), self.op(x, l), self.op(y, l)),
            Rvalue::UnaryOp(u, x) => format!(r#"{{"r":"un","op":{},"a":{}}}"#, esc(&format!("{u:?}")), self.op(x, l)),
            Rvalue::Cast(k, o, t) => { if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Ok(st)) = (k, o.ty(l)) { self.unsize(st, *t); } let ft = o.ty(l).ok().map(|t| self.ty(t) as i64).unwrap_or(-1); let ti = self.ty(*t); format!(r#"{{"r":"cast","c":{},"a":{},"ft":{ft},"t":{ti}}}"#, esc(&format!("{k:?}")), self.op(o, l)) }
            Rvalue::Discriminant(p) => { let t = p.ty(l).ok().map(|t| self.ty(t) as i64).unwrap_or(-1); format!(r#"{{"r":"discr","p":{},"t":{t}}}"#, self.place(p, l)) }
            Rvalue::Len(p) => format!(r#"{{"r":"len","p":{}}}"#, self.place(p, l)),
            Rvalue::Repeat(o, n) => format!(r#"{{"r":"repeat","a":{},"n":{}}}"#, self.op(o, l), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(_) => r#"{"r":"tls"}"#.to_string(),
        }
    }
    fn body(&mut self, inst: Instance, id: usize) -> String {
        let name = inst_name(&inst);
        let is_local = CrateDef::krate(&inst.def).is_local;
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let args: String = { let a = inst.args(); self.args(&a) };
        let self_ty = inst.ty();
        let sigty = match self_ty.kind().fn_sig() { Some(s) => { let s = s.skip_binder(); let o = self.ty(s.output()); let i: Vec<String> = s.inputs().iter().map(|t| self.ty(*t).to_string()).collect(); format!(r#""out":{o},"in":{},"#, arr(i)) } None => String::new() };
        let sp = inst.def.span();
        let fl = sp.get_filename().to_string();
        let li = sp.get_lines();
        let isclosure = matches!(self_ty.kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let parent = inst.def.def_id().parent().map(|p| p.name().to_string()).unwrap_or_default();
        let trimmed = inst.trimmed_name().to_string();
        let mut head = format!(r#""id":{id},"n":{},"dn":{},"full":{},"local":{is_local},"kind":{},"args":{args},{sigty}"file":{},"line":{},"closure":{isclosure},"parent":{}"#,
            esc(&name), esc(&dname(&inst.def)), esc(&trimmed), esc(kind), esc(&fl), li.start_line, esc(&parent));
        let want = want_body(&inst, &name, is_local, &fl);
        if !want || matches!(inst.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) || !inst.has_body() { return format!("{{{head}}}"); }
        let Some(b) = inst.body() else { return format!("{{{head}}}"); };
        let locals = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut dbg = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { dbg.push(format!(r#"{{"n":{},"p":{}}}"#, esc(&v.name.to_string()), self.place(p, &locals))); }
        }
        let _ = write!(head, r#","argc":{},"spread":{},"lt":{},"dbg":{}"#, b.arg_locals().len(), b.spread_arg().map(|x| x as i64).unwrap_or(-1), arr(lt), arr(dbg));
        let mut bl = Vec::new();
        for bb in &b.blocks {
            let mut ss = Vec::new();
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => ss.push(format!(r#"{{"s":"a","p":{},"r":{},"ln":{line}}}"#, self.place(p, &locals), self.rv(r, &locals))),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(r#"{{"s":"sd","p":{},"v":{},"ln":{line}}}"#, self.place(place, &locals), variant_index.to_index())),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let tfile = bb.terminator.source_info.span.get_filename().to_string();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"{{"k":"goto","t":{target}"#),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!(r#"{{"k":"switch","d":{},"ty":{ty},"br":{},"o":{}"#, self.op(discr, &locals), arr(br), targets.otherwise())
                }
                TerminatorKind::Return => r#"{"k":"return""#.to_string(),
                TerminatorKind::Unreachable => r#"{"k":"unreachable""#.to_string(),
                TerminatorKind::Resume => r#"{"k":"resume""#.to_string(),
                TerminatorKind::Abort => r#"{"k":"abort""#.to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(r#"{{"k":"drop","p":{},"t":{target}"#, self.place(place, &locals)),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(|c: char| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
                    let full = match msg { AssertMessage::Overflow(b, _, _) => format!("Overflow:{b:?}"), _ => m };
                    let ops: Vec<String> = match msg {
                        AssertMessage::BoundsCheck { len, index } => vec![self.op(len, &locals), self.op(index, &locals)],
                        AssertMessage::Overflow(_, a, b) => vec![self.op(a, &locals), self.op(b, &locals)],
                        AssertMessage::OverflowNeg(a) | AssertMessage::DivisionByZero(a) | AssertMessage::RemainderByZero(a) => vec![self.op(a, &locals)],
                        _ => vec![],
                    };
                    format!(r#"{{"k":"assert","c":{},"e":{expected},"m":{},"ops":{},"t":{target}"#, self.op(cond, &locals), esc(&full), arr(ops))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let av: Vec<String> = args.iter().map(|a| self.op(a, &locals)).collect();
                    let fty = func.ty(&locals).ok();
                    let (cn, ci, ca, it) = match fty.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) => { let i = self.resolve(d, &a); let n = dname(&d); let it = self.item(&n, &a); (n, i, self.args(&a), it) }
                        _ => ("<indirect>".to_string(), -1, "[]".to_string(), -1),
                    };
                    let fo = if ci < 0 { self.op(func, &locals) } else { "null".into() };
                    format!(r#"{{"k":"call","f":{},"i":{ci},"ga":{ca},"it":{it},"fo":{fo},"a":{},"d":{},"t":{}"#, esc(&cn), arr(av), self.place(destination, &locals), target.map(|t| t as i64).unwrap_or(-1))
                }
                TerminatorKind::InlineAsm { .. } => r#"{"k":"asm""#.to_string(),
            };
            bl.push(format!(r#"{{"s":{},"t":{t},"ln":{line},"fl":{}}}}}"#, arr(ss), esc(&tfile)));
        }
        let _ = write!(head, r#","bb":{}"#, arr(bl));
        format!("{{{head}}}")
    }
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { length } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
    }
}
fn closure_upvar_tys(a: &GenericArgs) -> Vec<Ty> {
    // The last generic argument of a closure is the tuple of captured types.
    match a.0.last().and_then(|g| g.ty().copied()).map(|t| t.kind()) {
        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts,
        _ => vec![],
    }
}
fn inst_name(i: &Instance) -> String { i.name().to_string() }

/// Which instances get their body dumped: everything local except the ANTLR
/// generated code, plus the std control-flow combinators that closures and `?`
/// go through.
fn want_body(inst: &Instance, name: &str, is_local: bool, file: &str) -> bool {
    if is_local { return !file.contains("/generated/"); }
    // From the binary: the library's generic functions, which only exist here.
    if CrateDef::krate(&inst.def).name == "avdl" { return !file.contains("/generated/") && inst.args().0.iter().any(|g| g.ty().is_some()); }
    if matches!(inst.kind, InstanceKind::Shim) {
        return name.contains("call_once") || name.contains("call_mut") || name.contains("::call");
    }
    let d = dname(&inst.def);
    for p in ["option::Option", "result::Result", "ops::Try", "ops::try_trait", "FromResidual", "ops::ControlFlow", "bool::<impl bool>", "core::bool", "ops::function", "ops::FnOnce", "ops::FnMut", "ops::Fn"] {
        if d.contains(p) {
            // not the derived/format/iterator impls
            return !(d.contains("fmt::") || d.contains("hash::") || d.contains("IntoIterator") || d.contains("FromIterator"));
        }
    }
    false
}

/// `Iterator::next`
fn iter_next() -> Option<FnDef> {
    for k in external_crates() {
        if k.name != "core" { continue; }
        for t in k.trait_decls() {
            if !dname(&t).ends_with("iter::Iterator") { continue; }
            for i in t.associated_items() {
                if let AssocKind::Fn { name, .. } = &i.kind { if name.to_string() == "next" { return Some(FnDef(i.def_id.def_id())); } }
            }
        }
    }
    None
}

fn analyze() -> std::ops::ControlFlow<(), ()> {
    let Ok(dir) = std::env::var("AVDL_FACTS_DIR") else { return std::ops::ControlFlow::Continue(()) };
    let k = local_crate();
    let is_bin = entry_fn().is_some();
    let mut cx = Cx { tys: vec![], ty_ix: HashMap::new(), adts: BTreeMap::new(), inst_ix: HashMap::new(), queue: VecDeque::new(), bodies: vec![], callees: vec![], iter_next: iter_next() };
    for a in k.adts() { cx.adt(a); }
    let mut consts = Vec::new();
    let mut generic_items = Vec::new();
    let mut n_items = 0;
    for it in all_local_items() {
        n_items += 1;
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() { generic_items.push(esc(&dname(&it))); continue; }
                if let Ok(i) = Instance::try_from(it) { cx.inst(i); }
            }
            ItemKind::Const => {
                let file = it.span().get_filename().to_string();
                if it.requires_monomorphization() { continue; }
                if let Ok(i) = Instance::try_from(it) {
                    let t = it.ty();
                    if let Ok(a) = i.try_const_eval(t) { let v = cx.mem(&a, 0, t, 0); consts.push(format!(r#"{{"n":{},"v":{},"file":{}}}"#, esc(&dname(&it)), v, esc(&file))); }
                }
            }
            _ => {}
        }
    }
    let mut statics = Vec::new();
    for it in all_local_items() {
        if !matches!(it.kind(), ItemKind::Static) { continue; }
        let file = it.span().get_filename().to_string();
        if file.contains("/generated/") { continue; }
        let Ok(a) = rustc_public::mir::mono::StaticDef::try_from(it).and_then(|d| d.eval_initializer()) else { continue };
        let fs: Vec<String> = a.provenance.ptrs.iter().filter_map(|(_, p)| match GlobalAlloc::from(p.0) { GlobalAlloc::Function(i) => Some(cx.inst(i).to_string()), _ => None }).collect();
        statics.push(format!(r#"{{"n":{},"fns":{},"file":{}}}"#, esc(&dname(&it)), arr(fs), esc(&file)));
    }
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.inst_ix[&i];
        let b = cx.body(i, id);
        cx.bodies[id] = b;
    }
    let adts: Vec<String> = cx.adts.values().flatten().cloned().collect();
    let out = format!("{{\"crate\":{},\"bin\":{is_bin},\"items\":{n_items},\"generic\":{},\n\"types\":{},\n\"adts\":{},\n\"statics\":{},\n\"consts\":{},\n\"fns\":[\n{}\n]}}\n",
        esc(&k.name.to_string()), arr(generic_items), arr(cx.tys.clone()), arr(adts), arr(statics), arr(consts), cx.bodies.join(",\n"));
    let f = format!("{dir}/{}-{}.json", k.name, if is_bin { "bin" } else { "lib" });
    std::fs::write(&f, out).expect("write facts");
    std::ops::ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    // Ordinary MIR, without optimisation noise and with overflow checks kept.
    if args.iter().any(|a| a == "--crate-name") { args.push("-Zmir-opt-level=0".into()); args.push("-Zalways-encode-mir".into()); }
    let r: Result<(), CompilerError<()>> = rustc_public::run!(&args, || analyze());
    match r { Ok(()) => {} Err(CompilerError::Skipped) => {} Err(e) => { let _ = e; std::process::exit(1) } }
}
