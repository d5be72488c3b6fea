// mirserve: a rustc driver that, after analysis of the crate under test, answers requests
// about its monomorphised MIR over a unix socket (path in PODO_MIR_SOCK).  One JSON line per
// reply.  The Python symbolic executor is the only client.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    AggregateKind, AssertKind, BinOp, Body, BorrowKind, CastKind, Const, ConstValue, Operand,
    Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp,
};
use rustc_middle::ty::{
    self, AdtKind, EarlyBinder, GenericArg, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty,
    TyCtxt, TypingEnv,
};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Srv<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<Ty<'tcx>>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Instance<'tcx>>,
    instmap: HashMap<Instance<'tcx>, usize>,
    fns: Vec<(DefId, GenericArgsRef<'tcx>)>,
    fnmap: HashMap<(DefId, GenericArgsRef<'tcx>), usize>,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

impl<'tcx> Srv<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(t);
        self.tymap.insert(t, i);
        i
    }
    fn inst(&mut self, t: Instance<'tcx>) -> usize {
        if let Some(&i) = self.instmap.get(&t) {
            return i;
        }
        let i = self.insts.len();
        self.insts.push(t);
        self.instmap.insert(t, i);
        i
    }
    fn fnid(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> usize {
        let a = self.tcx.erase_and_anonymize_regions(a);
        if let Some(&i) = self.fnmap.get(&(d, a)) {
            return i;
        }
        let i = self.fns.len();
        self.fns.push((d, a));
        self.fnmap.insert((d, a), i);
        i
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                let n = c.try_to_target_usize(self.tcx);
                v.push(match n {
                    Some(n) => format!("{{\"const\":{}}}", n),
                    None => format!("{{\"const\":{}}}", esc(&format!("{:?}", c))),
                });
            }
        }
        format!("[{}]", v.join(","))
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn ty_json(&mut self, id: usize) -> String {
        let t = self.tys[id];
        let tcx = self.tcx;
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Pat(b, _) => {
                let i = self.ty(b);
                let j = self.ty_json(i);
                return j;
            }
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let kind = match def.adt_kind() {
                    AdtKind::Struct => "struct",
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).to_string()
                    } else {
                        "0".to_string()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = self.norm(ft);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                    }
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                        esc(v.name.as_str()),
                        discr,
                        fs.join(",")
                    ));
                }
                format!(
                    "\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"local\":{},\"box\":{},\"args\":{},\"variants\":[{}]",
                    kind,
                    esc(&self.path(def.did())),
                    def.did().is_local(),
                    def.is_box(),
                    self.args(args),
                    vs.join(",")
                )
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", self.ty(e), n)
            }
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
            ty::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"elem\":{},\"mut\":{}", self.ty(e), m.is_mut())
            }
            ty::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"elem\":{},\"mut\":{}", self.ty(e), m.is_mut())
            }
            ty::FnDef(d, args) => {
                let args = tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap());
                format!("\"k\":\"fndef\",\"fn\":{}", self.fnid(d, args))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Closure(d, args) => {
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let ups: Vec<String> = ups.iter().map(|t| self.ty(*t).to_string()).collect();
                format!(
                    "\"k\":\"closure\",\"path\":{},\"upvars\":[{}],\"kind\":\"{:?}\"",
                    esc(&self.path(d)),
                    ups.join(","),
                    args.as_closure().kind()
                )
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{\"name\":{},{}}}", esc(&name), body)
    }

    fn fn_json(&mut self, id: usize) -> String {
        let (d, a) = self.fns[id];
        let tcx = self.tcx;
        let mut s = format!("{{\"path\":{},\"args\":{}", esc(&self.path(d)), self.args(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let selfty = a.type_at(0);
            let _ = write!(
                s,
                ",\"trait\":{},\"method\":{},\"self\":{}",
                esc(&self.path(tr)),
                esc(tcx.item_name(d).as_str()),
                self.ty(selfty)
            );
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip();
            let out = tcx.erase_and_anonymize_regions(sig.skip_binder().output());
            let vi = match *out.kind() {
                ty::Adt(def, _) => {
                    let mut r = 0;
                    for (vi, v) in def.variants().iter_enumerated() {
                        if v.ctor_def_id() == Some(d) {
                            r = vi.as_usize();
                        }
                    }
                    r
                }
                _ => 0,
            };
            let _ = write!(s, ",\"ctor\":[{},{}]", self.ty(out), vi);
        }
        if let Some(i) = tcx.intrinsic(d) {
            let _ = write!(s, ",\"intrinsic\":{}", esc(i.name.as_str()));
        }
        match Instance::try_resolve(tcx, env(), d, a) {
            Ok(Some(i)) => {
                let n = self.inst(i);
                let _ = write!(s, ",\"inst\":{}", n);
            }
            _ => {
                let _ = write!(s, ",\"inst\":null");
            }
        }
        s.push('}');
        s
    }

    fn inst_json(&mut self, id: usize) -> String {
        let i = self.insts[id];
        let tcx = self.tcx;
        let d = i.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "llvm",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(sh) => match sh {
                ShimKind::ClosureOnce { .. } => "closure_once",
                ShimKind::FnPtr(..) => "fnptr_shim",
                ShimKind::DropGlue(..) => "drop",
                ShimKind::Reify(..) => "reify",
                ShimKind::VTable(..) => "vtable_shim",
                _ => "shim",
            },
        };
        let mut s = format!(
            "{{\"kind\":\"{}\",\"path\":{},\"args\":{},\"local\":{},\"crate\":{}",
            kind,
            esc(&self.path(d)),
            self.args(i.args),
            d.is_local(),
            esc(tcx.crate_name(d.krate).as_str())
        );
        let impl_id = tcx.impl_of_assoc(d);
        if let Some(imp) = impl_id {
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let st = tr.self_ty();
                let head = match *st.kind() {
                    ty::Adt(def, _) => self.path(def.did()),
                    ty::Ref(_, e, _) => match *e.kind() {
                        ty::Adt(def, _) => format!("&{}", self.path(def.did())),
                        _ => format!("{}", st),
                    },
                    _ => format!("{}", st),
                };
                let _ = write!(
                    s,
                    ",\"impl_trait\":{},\"impl_self\":{},\"method\":{},\"derived\":{}",
                    esc(&self.path(tr.def_id)),
                    esc(&head),
                    esc(tcx.item_name(d).as_str()),
                    tcx.is_automatically_derived(imp)
                );
            }
        }
        let is_closure = tcx.is_closure_like(d);
        let mir = match i.def {
            InstanceKind::Item(d) => {
                !matches!(tcx.def_kind(d), DefKind::Ctor(..)) && tcx.is_mir_available(d)
            }
            InstanceKind::Shim(..) => true,
            _ => false,
        };
        let _ = write!(s, ",\"closure\":{},\"mir\":{}}}", is_closure, mir);
        s
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\".\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                format!("[\"const\",{},{}]", self.ty(t), self.mconst(&c.const_))
            }
            Operand::RuntimeChecks(_) => "[\"rtcheck\"]".to_string(),
        }
    }

    fn mconst(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = self.tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap());
            return format!("{{\"fn\":{}}}", self.fnid(d, args));
        }
        if let ty::Closure(..) = *t.kind() {
            return format!("{{\"agg\":[0,[]],\"ty\":{}}}", self.ty(t));
        }
        match c.eval(self.tcx, env(), DUMMY_SP) {
            Ok(v) => self.cval(v, t),
            Err(_) => "{\"err\":\"const eval\"}".to_string(),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => self.dec(&Mem { bytes: vec![], ptrs: vec![] }, 0, t, 0),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size().bytes() as usize;
                let b = i.to_bits(i.size()).to_le_bytes()[..size].to_vec();
                self.dec(&Mem { bytes: b, ptrs: vec![] }, 0, t, 0)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let m = Mem {
                    bytes: off.bytes().to_le_bytes().to_vec(),
                    ptrs: vec![(0, prov.alloc_id())],
                };
                self.dec(&m, 0, t, 0)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let mut b = 0u64.to_le_bytes().to_vec();
                b.extend_from_slice(&meta.to_le_bytes());
                let m = Mem { bytes: b, ptrs: vec![(0, alloc_id)] };
                self.dec(&m, 0, t, 0)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                match tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(a) => {
                        let m = Mem::of(a.inner());
                        self.dec(&m, offset.bytes() as usize, t, 0)
                    }
                    _ => "{\"err\":\"indirect\"}".to_string(),
                }
            }
        }
    }

    fn dec(&mut self, m: &Mem, off: usize, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 40 {
            return "{\"err\":\"deep\"}".into();
        }
        match *t.kind() {
            ty::Bool => format!("{}", if m.int(off, 1) != 0 { "true" } else { "false" }),
            ty::Char => format!("{}", m.int(off, 4)),
            ty::Int(i) => {
                let n = (i.bit_width().unwrap_or(64) / 8) as usize;
                let v = m.int(off, n);
                let sh = 128 - 8 * n as u32;
                format!("{}", ((v << sh) as i128) >> sh)
            }
            ty::Uint(i) => {
                let n = (i.bit_width().unwrap_or(64) / 8) as usize;
                format!("{}", m.int(off, n))
            }
            ty::Float(f) => {
                let n = (f.bit_width() / 8) as usize;
                format!("{{\"float\":{}}}", m.int(off, n))
            }
            ty::FnDef(d, args) => {
                let args = tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap());
                format!("{{\"fn\":{}}}", self.fnid(d, args))
            }
            ty::FnPtr(..) => match m.ptr(off) {
                Some(a) => match tcx.global_alloc(a) {
                    GlobalAlloc::Function { instance, .. } => {
                        format!("{{\"fnptr\":{}}}", self.inst(instance))
                    }
                    _ => "{\"err\":\"fnptr\"}".into(),
                },
                None => "{\"err\":\"fnptr\"}".into(),
            },
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => self.dec_ptr(m, off, e, depth),
            ty::Tuple(ts) => {
                let lay = match tcx.layout_of(env().as_query_input(t)) {
                    Ok(l) => l,
                    Err(_) => return "{\"err\":\"layout\"}".into(),
                };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes() as usize;
                    v.push(self.dec(m, off + o, ft, depth + 1));
                }
                format!("{{\"agg\":[0,[{}]],\"ty\":{}}}", v.join(","), self.ty(t))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                let es = match tcx.layout_of(env().as_query_input(e)) {
                    Ok(l) => l.size.bytes() as usize,
                    Err(_) => return "{\"err\":\"layout\"}".into(),
                };
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.dec(m, off + i * es, e, depth + 1));
                }
                format!("{{\"arr\":[{}],\"ty\":{}}}", v.join(","), self.ty(t))
            }
            ty::Closure(..) => format!("{{\"agg\":[0,[]],\"ty\":{}}}", self.ty(t)),
            ty::Adt(def, args) => {
                let lay = match tcx.layout_of(env().as_query_input(t)) {
                    Ok(l) => l,
                    Err(_) => return "{\"err\":\"layout\"}".into(),
                };
                if def.is_union() {
                    let f = def.non_enum_variant().fields.iter().last().unwrap();
                    let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                    let v = self.dec(m, off, ft, depth + 1);
                    return format!("{{\"union\":{}}}", v);
                }
                let (vi, vlay) = match &lay.variants {
                    Variants::Empty => return "{\"err\":\"empty enum\"}".into(),
                    Variants::Single { index } => (*index, lay),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let ts = tag.size(&tcx).bytes() as usize;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = m.int(off + to, ts);
                                let mut r = None;
                                for (vi, d) in def.discriminants(tcx) {
                                    let mask =
                                        if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    if d.val & mask == tv {
                                        r = Some(vi);
                                    }
                                }
                                match r {
                                    Some(v) => v,
                                    None => return "{\"err\":\"discr\"}".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if m.ptr(off + to).is_some() {
                                    *untagged_variant
                                } else {
                                    let tv = m.int(off + to, ts);
                                    let mask =
                                        if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let n = niche_variants.last.as_u32() - niche_variants.start.as_u32();
                                    if rel <= n as u128 {
                                        VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        };
                        let cx = ty::layout::LayoutCx::new(tcx, env());
                        (vi, lay.for_variant(&cx, vi))
                    }
                };
                let vd = def.variant(vi);
                let mut v = vec![];
                for (i, f) in vd.fields.iter().enumerate() {
                    let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                    let o = vlay.fields.offset(i).bytes() as usize;
                    v.push(self.dec(m, off + o, ft, depth + 1));
                }
                format!(
                    "{{\"agg\":[{},[{}]],\"ty\":{}}}",
                    vi.as_usize(),
                    v.join(","),
                    self.ty(t)
                )
            }
            ty::Pat(b, _) => self.dec(m, off, b, depth),
            _ => "{\"err\":\"const kind\"}".into(),
        }
    }

    fn dec_ptr(&mut self, m: &Mem, off: usize, e: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let e = self.norm(e);
        let base = m.int(off, 8) as usize;
        match *e.kind() {
            ty::Str => {
                let len = m.int(off + 8, 8) as usize;
                match m.ptr(off) {
                    Some(a) => match tcx.global_alloc(a) {
                        GlobalAlloc::Memory(al) => {
                            let mm = Mem::of(al.inner());
                            let s = String::from_utf8_lossy(&mm.bytes[base..base + len]).to_string();
                            format!("{{\"str\":{}}}", esc(&s))
                        }
                        _ => "{\"err\":\"str\"}".into(),
                    },
                    None => "{\"str\":\"\"}".into(),
                }
            }
            ty::Slice(el) => {
                let len = m.int(off + 8, 8) as usize;
                match m.ptr(off) {
                    Some(a) => match tcx.global_alloc(a) {
                        GlobalAlloc::Memory(al) => {
                            let mm = Mem::of(al.inner());
                            let es = match tcx.layout_of(env().as_query_input(el)) {
                                Ok(l) => l.size.bytes() as usize,
                                Err(_) => return "{\"err\":\"layout\"}".into(),
                            };
                            let mut v = vec![];
                            for i in 0..len {
                                v.push(self.dec(&mm, base + i * es, el, depth + 1));
                            }
                            format!("{{\"slice\":[{}]}}", v.join(","))
                        }
                        _ => "{\"err\":\"slice\"}".into(),
                    },
                    None => "{\"slice\":[]}".into(),
                }
            }
            ty::Dynamic(..) => {
                let vt = match m.ptr(off + 8).map(|a| tcx.global_alloc(a)) {
                    Some(GlobalAlloc::VTable(t, _)) => t,
                    _ => return "{\"err\":\"dyn\"}".into(),
                };
                let inner = self.dec_ptr(m, off, vt, depth + 1);
                format!("{{\"dyn\":{},\"ty\":{}}}", inner, self.ty(vt))
            }
            _ => match m.ptr(off) {
                Some(a) => match tcx.global_alloc(a) {
                    GlobalAlloc::Memory(al) => {
                        let mm = Mem::of(al.inner());
                        let v = self.dec(&mm, base, e, depth + 1);
                        format!("{{\"ref\":{}}}", v)
                    }
                    GlobalAlloc::Static(d) => {
                        let t = self.norm(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        let ty = self.ty(t);
                        let own = d.is_local();
                        let ii = if own { self.inst(Instance::mono(tcx, d)) as i64 } else { -1 };
                        format!("{{\"static\":{},\"inst\":{},\"ty\":{}}}", esc(&self.path(d)), ii, ty)
                    }
                    _ => "{\"err\":\"ptr\"}".into(),
                },
                None => {
                    let z = match tcx.layout_of(env().as_query_input(e)) {
                        Ok(l) => l.size == Size::ZERO,
                        Err(_) => false,
                    };
                    if z {
                        let v = self.dec(&Mem { bytes: vec![], ptrs: vec![] }, 0, e, depth + 1);
                        format!("{{\"ref\":{}}}", v)
                    } else {
                        format!("{{\"addr\":{}}}", base)
                    }
                }
            },
        }
    }

    fn body_json(&mut self, id: usize) -> String {
        let tcx = self.tcx;
        let i = self.insts[id];
        let body: &Body<'tcx> = tcx.instance_mir(i.def);
        let body = i.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env(),
            EarlyBinder::bind(tcx, body.clone()),
        );
        let mut s = String::new();
        let loc: Vec<String> =
            body.local_decls.iter().map(|l| l.ty).map(|t| self.ty(t).to_string()).collect();
        let _ = write!(
            s,
            "{{\"argc\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[",
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            loc.join(",")
        );
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let t = p.ty(&body.local_decls, tcx).ty;
                        let ps = self.place(p);
                        let rs = self.rvalue(r, t, &body);
                        Some(format!("[\"=\",{},{},{}]", ps, rs, self.ty(t)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                        "[\"setd\",{},{}]",
                        self.place(place),
                        variant_index.as_usize()
                    )),
                    StatementKind::Intrinsic(_) => None,
                    _ => None,
                };
                if let Some(j) = j {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    s.push_str(&j);
                }
            }
            s.push_str("],\"t\":");
            let term = bb.terminator();
            let line = {
                let sp = term.source_info.span;
                let loc = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
                loc.line
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(discr),
                        v.join(","),
                        targets.otherwise().as_usize(),
                        self.ty(dt)
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), self.ty(pt))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| a.node.ty(&body.local_decls, tcx))
                        .map(|t| self.ty(t).to_string())
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{},{}]",
                        self.operand(func),
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        at.join(","),
                        self.ty(dt),
                        line
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"unsupported\",\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "index out of bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "arithmetic overflow",
                        AssertKind::DivisionByZero(..) => "division by zero",
                        AssertKind::RemainderByZero(..) => "remainder by zero",
                        AssertKind::NullPointerDereference
                        | AssertKind::NullReferenceConstructed => "null",
                        AssertKind::MisalignedPointerDereference { .. } => "misaligned",
                        _ => "assert",
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        esc(m),
                        target.as_usize(),
                        line
                    )
                }
                _ => "[\"unsupported\",\"terminator\"]".into(),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push_str("]}");
        s
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, _t: Ty<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.try_to_target_usize(tcx).unwrap_or(0)
            ),
            Rvalue::Ref(_, b, p) => {
                let m = matches!(b, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, tcx);
                let kn = match k {
                    CastKind::IntToInt => "int",
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => "ptr",
                    CastKind::Transmute => "transmute",
                    CastKind::BoxDerefTransmute => "transmute",
                    CastKind::Subtype => "ptr",
                    CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::Unsize => "unsize",
                        ty::adjustment::PointerCoercion::ReifyFnPointer(_) => "reify",
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => "closurefn",
                        _ => "ptr",
                    },
                    CastKind::FloatToInt => "f2i",
                    CastKind::IntToFloat => "i2f",
                    CastKind::FloatToFloat => "f2f",
                    _ => "addr",
                };
                let x = self.operand(o);
                format!("[\"cast\",\"{}\",{},{},{}]", kn, x, self.ty(ot), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let (l, rr) = &**b;
                let lt = l.ty(&body.local_decls, tcx);
                let name = match op {
                    BinOp::Add => "add",
                    BinOp::AddUnchecked => "add",
                    BinOp::AddWithOverflow => "addo",
                    BinOp::Sub => "sub",
                    BinOp::SubUnchecked => "sub",
                    BinOp::SubWithOverflow => "subo",
                    BinOp::Mul => "mul",
                    BinOp::MulUnchecked => "mul",
                    BinOp::MulWithOverflow => "mulo",
                    BinOp::Div => "div",
                    BinOp::Rem => "rem",
                    BinOp::BitXor => "xor",
                    BinOp::BitAnd => "and",
                    BinOp::BitOr => "or",
                    BinOp::Shl | BinOp::ShlUnchecked => "shl",
                    BinOp::Shr | BinOp::ShrUnchecked => "shr",
                    BinOp::Eq => "eq",
                    BinOp::Lt => "lt",
                    BinOp::Le => "le",
                    BinOp::Ne => "ne",
                    BinOp::Ge => "ge",
                    BinOp::Gt => "gt",
                    BinOp::Cmp => "cmp",
                    BinOp::Offset => "offset",
                };
                let a = self.operand(l);
                let c = self.operand(rr);
                format!("[\"bin\",\"{}\",{},{},{}]", name, a, c, self.ty(lt))
            }
            Rvalue::UnaryOp(op, o) => {
                let ot = o.ty(&body.local_decls, tcx);
                let n = match op {
                    UnOp::Not => "not",
                    UnOp::Neg => "neg",
                    UnOp::PtrMetadata => "meta",
                };
                let x = self.operand(o);
                format!("[\"un\",\"{}\",{},{}]", n, x, self.ty(ot))
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, tcx).ty;
                format!("[\"discr\",{},{}]", self.place(p), self.ty(pt))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kk, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, vi, _, _, f) => {
                        if f.is_some() {
                            ("union", vi.as_usize())
                        } else {
                            ("adt", vi.as_usize())
                        }
                    }
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("coroutine", 0),
                };
                format!("[\"agg\",\"{}\",{},[{}]]", kk, vi, v.join(","))
            }
            Rvalue::ThreadLocalRef(_) => "[\"unsupported\",\"tls\"]".into(),
            _ => "[\"unsupported\",\"rvalue\"]".into(),
        }
    }

    fn find_def(&self, path: &str, kinds: &[&str]) -> Vec<DefId> {
        // resolve a def path by walking module children; also impl items through def_path_str
        let tcx = self.tcx;
        let mut out = vec![];
        let segs: Vec<&str> = path.split("::").collect();
        let mut starts: Vec<DefId> = vec![];
        let mut rest: &[&str] = &segs[..];
        let first = segs[0];
        let mut ext = false;
        for &c in tcx.crates(()) {
            if tcx.crate_name(c).as_str() == first {
                starts.push(c.as_def_id());
                ext = true;
            }
        }
        if ext {
            rest = &segs[1..];
        } else {
            starts.push(LOCAL_CRATE.as_def_id());
        }
        fn walk<'t>(tcx: TyCtxt<'t>, m: DefId, rest: &[&str], out: &mut Vec<DefId>) {
            if rest.is_empty() {
                out.push(m);
                return;
            }
            if matches!(tcx.def_kind(m), DefKind::Mod) {
                if m.is_local() {
                    for c in tcx.module_children_local(m.expect_local()) {
                        if c.ident.name.as_str() == rest[0] {
                            if let Some(d) = c.res.opt_def_id() {
                                walk(tcx, d, &rest[1..], out);
                            }
                        }
                    }
                    for id in tcx.hir_crate_items(()).definitions() {
                        let d = id.to_def_id();
                        if tcx.opt_parent(d) == Some(m)
                            && tcx.opt_item_name(d).map(|n| n.as_str() == rest[0]).unwrap_or(false)
                            && !out.contains(&d)
                        {
                            walk(tcx, d, &rest[1..], out);
                        }
                    }
                } else {
                    for c in tcx.module_children(m) {
                        if c.ident.name.as_str() == rest[0] {
                            if let Some(d) = c.res.opt_def_id() {
                                walk(tcx, d, &rest[1..], out);
                            }
                        }
                    }
                    // private items of other crates: scan by definition tree
                    if out.is_empty() {
                        let k = m.krate;
                        let _ = k;
                    }
                }
            } else if matches!(tcx.def_kind(m), DefKind::Trait) {
                for d in tcx.associated_item_def_ids(m) {
                    if tcx.opt_item_name(*d).map(|n| n.as_str() == rest[0]).unwrap_or(false) {
                        walk(tcx, *d, &rest[1..], out);
                    }
                }
            } else if matches!(tcx.def_kind(m), DefKind::Struct | DefKind::Enum) {
                for imp in tcx.inherent_impls(m) {
                    for d in tcx.associated_item_def_ids(*imp) {
                        if tcx.opt_item_name(*d).map(|n| n.as_str() == rest[0]).unwrap_or(false) {
                            walk(tcx, *d, &rest[1..], out);
                        }
                    }
                }
            }
        }
        for s in starts {
            walk(tcx, s, rest, &mut out);
        }
        out.retain(|d| {
            let k = match tcx.def_kind(*d) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "fn",
                DefKind::Struct | DefKind::Enum | DefKind::Union => "adt",
                DefKind::TyAlias => "alias",
                DefKind::Trait => "trait",
                DefKind::Static { .. } | DefKind::Const { .. } => "val",
                _ => "other",
            };
            kinds.contains(&k)
        });
        out.dedup();
        out
    }

    fn parse_args(&self, toks: &[&str]) -> Vec<GenericArg<'tcx>> {
        toks.iter().map(|t| GenericArg::from(self.tys[t.parse::<usize>().unwrap()])).collect()
    }

    /// build args for a def from a list of types, filling lifetimes with 'erased
    fn mk_args(&self, d: DefId, tys: &[GenericArg<'tcx>]) -> GenericArgsRef<'tcx> {
        let tcx = self.tcx;
        let mut it = tys.iter();
        ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => {
                it.next().copied().unwrap_or_else(|| tcx.types.unit.into())
            }
            ty::GenericParamDefKind::Const { .. } => it.next().copied().unwrap(),
        })
    }

    fn handle(&mut self, line: &str) -> String {
        let toks: Vec<&str> = line.split(' ').collect();
        let tcx = self.tcx;
        match toks[0] {
            "ty" => self.ty_json(toks[1].parse().unwrap()),
            "fn" => self.fn_json(toks[1].parse().unwrap()),
            "inst" => self.inst_json(toks[1].parse().unwrap()),
            "body" => self.body_json(toks[1].parse().unwrap()),
            // root PATH tys.. -> instance of a function found by path
            "root" => {
                let ds = self.find_def(toks[1], &["fn"]);
                if ds.is_empty() {
                    return "{\"err\":\"notfound\"}".into();
                }
                let a = self.parse_args(&toks[2..]);
                let args = self.mk_args(ds[0], &a);
                let f = self.fnid(ds[0], args);
                format!("{{\"fn\":{}}}", f)
            }
            // adt PATH tys.. -> type id
            "adt" => {
                let ds = self.find_def(toks[1], &["adt"]);
                if ds.is_empty() {
                    return "{\"err\":\"notfound\"}".into();
                }
                let a = self.parse_args(&toks[2..]);
                let args = self.mk_args(ds[0], &a);
                let t = self.norm(tcx.type_of(ds[0]).instantiate(tcx, args).skip_norm_wip());
                format!("{}", self.ty(t))
            }
            "prim" => {
                let t = match toks[1] {
                    "bool" => tcx.types.bool,
                    "char" => tcx.types.char,
                    "u8" => tcx.types.u8,
                    "u16" => tcx.types.u16,
                    "u32" => tcx.types.u32,
                    "u64" => tcx.types.u64,
                    "usize" => tcx.types.usize,
                    "i8" => tcx.types.i8,
                    "i16" => tcx.types.i16,
                    "i32" => tcx.types.i32,
                    "i64" => tcx.types.i64,
                    "isize" => tcx.types.isize,
                    "f64" => tcx.types.f64,
                    "str" => tcx.types.str_,
                    "unit" => tcx.types.unit,
                    _ => return "{\"err\":\"prim\"}".into(),
                };
                format!("{}", self.ty(t))
            }
            "mkref" | "mkmut" => {
                let t = self.tys[toks[1].parse::<usize>().unwrap()];
                let r = if toks[0] == "mkref" {
                    Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, t)
                } else {
                    Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, t)
                };
                format!("{}", self.ty(r))
            }
            "mktuple" => {
                let v: Vec<Ty<'tcx>> =
                    toks[1..].iter().map(|t| self.tys[t.parse::<usize>().unwrap()]).collect();
                let r = Ty::new_tup(tcx, &v);
                format!("{}", self.ty(r))
            }
            "mkslice" => {
                let t = self.tys[toks[1].parse::<usize>().unwrap()];
                let r = Ty::new_slice(tcx, t);
                format!("{}", self.ty(r))
            }
            // method TRAIT::NAME selfty others.. -> fn id (resolved lazily via "fn")
            "method" => {
                let ds = self.find_def(toks[1], &["fn"]);
                if ds.is_empty() {
                    return "{\"err\":\"notfound\"}".into();
                }
                let a = self.parse_args(&toks[2..]);
                let args = self.mk_args(ds[0], &a);
                let f = self.fnid(ds[0], args);
                format!("{{\"fn\":{}}}", f)
            }
            // virt FN ty -> fn id with Self replaced
            "virt" => {
                let (d, a) = self.fns[toks[1].parse::<usize>().unwrap()];
                let t = self.tys[toks[2].parse::<usize>().unwrap()];
                let v: Vec<GenericArg<'tcx>> = std::iter::once(GenericArg::from(t))
                    .chain(a.iter().skip(1))
                    .collect();
                let args = tcx.mk_args(&v);
                format!("{{\"fn\":{}}}", self.fnid(d, args))
            }
            // closure ty kind(0 Fn,1 FnMut,2 FnOnce) -> inst of the closure body itself
            "closure" => {
                let t = self.tys[toks[1].parse::<usize>().unwrap()];
                match *t.kind() {
                    ty::Closure(d, args) => {
                        let k = args.as_closure().kind();
                        let i = Instance::resolve_closure(tcx, d, args, k);
                        let n = self.inst(i);
                        format!("{{\"inst\":{},\"kind\":\"{:?}\"}}", n, k)
                    }
                    _ => "{\"err\":\"not closure\"}".into(),
                }
            }
            "drop" => {
                let t = self.tys[toks[1].parse::<usize>().unwrap()];
                format!("{}", t.needs_drop(tcx, env()))
            }
            // implements TRAIT ty -> bool
            "impls" => {
                let ds = self.find_def(toks[1], &["trait"]);
                if ds.is_empty() {
                    return "{\"err\":\"notfound\"}".into();
                }
                let t = self.tys[toks[2].parse::<usize>().unwrap()];
                let mut found = false;
                if let ty::Adt(def, _) = *t.kind() {
                    for imp in tcx.all_impls(ds[0]) {
                        let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                        if let ty::Adt(d2, _) = *tr.self_ty().kind() {
                            if d2.did() == def.did() {
                                found = true;
                            }
                        }
                    }
                }
                format!("{}", found)
            }
            // fns: all local non-closure fns with paths
            "fns" => {
                let mut v = vec![];
                for id in tcx.mir_keys(()) {
                    let d = id.to_def_id();
                    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                        let sm = tcx.sess.source_map();
                        let sp = tcx.def_span(d);
                        let lo = sm.lookup_char_pos(sp.lo());
                        let g = tcx.generics_of(d).requires_monomorphization(tcx);
                        v.push(format!(
                            "[{},{},{},{}]",
                            esc(&self.path(d)),
                            esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
                            lo.line,
                            g
                        ));
                    }
                }
                format!("[{}]", v.join(","))
            }
            "fnty" => {
                // argument and return types of fn id
                let (d, a) = self.fns[toks[1].parse::<usize>().unwrap()];
                let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip().skip_binder();
                let ins: Vec<Ty<'tcx>> = sig.inputs().to_vec();
                let ins: Vec<String> =
                    ins.into_iter()
                        .map(|t| {
                            let t = self.norm(t);
                            self.ty(t).to_string()
                        })
                        .collect();
                let o = self.norm(sig.output());
                format!("{{\"in\":[{}],\"out\":{}}}", ins.join(","), self.ty(o))
            }
            "val" => {
                let ds = self.find_def(toks[1], &["val"]);
                if ds.is_empty() {
                    return "{\"err\":\"notfound\"}".into();
                }
                let d = ds[0];
                if tcx.is_static(d) {
                    let t = self.norm(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    match tcx.eval_static_initializer(d) {
                        Ok(a) => {
                            let m = Mem::of(a.inner());
                            let v = self.dec(&m, 0, t, 0);
                            format!("{{\"v\":{},\"ty\":{}}}", v, self.ty(t))
                        }
                        Err(_) => "{\"err\":\"static\"}".into(),
                    }
                } else {
                    "{\"err\":\"val\"}".into()
                }
            }
            _ => "{\"err\":\"bad request\"}".into(),
        }
    }
}

struct Mem {
    bytes: Vec<u8>,
    ptrs: Vec<(usize, AllocId)>,
}
impl Mem {
    fn of(a: &rustc_middle::mir::interpret::Allocation) -> Mem {
        let n = a.len();
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let ptrs = a
            .provenance()
            .ptrs()
            .iter()
            .map(|(o, p)| (o.bytes() as usize, p.alloc_id()))
            .collect();
        Mem { bytes: b, ptrs }
    }
    fn int(&self, off: usize, n: usize) -> u128 {
        let mut r = 0u128;
        for i in 0..n {
            if off + i < self.bytes.len() {
                r |= (self.bytes[off + i] as u128) << (8 * i);
            }
        }
        r
    }
    fn ptr(&self, off: usize) -> Option<AllocId> {
        self.ptrs.iter().find(|(o, _)| *o == off).map(|(_, a)| *a)
    }
}

fn serve<'tcx>(tcx: TyCtxt<'tcx>, sock: &str) {
    let _ = std::fs::remove_file(sock);
    let l = UnixListener::bind(sock).expect("bind");
    let mut srv = Srv {
        tcx,
        tys: vec![],
        tymap: HashMap::new(),
        insts: vec![],
        instmap: HashMap::new(),
        fns: vec![],
        fnmap: HashMap::new(),
    };
    // clients are served one request at a time through a single multiplexed stream list
    let (tx, rx) = std::sync::mpsc::channel::<(String, std::sync::mpsc::Sender<String>)>();
    std::thread::spawn(move || {
        for s in l.incoming() {
            if let Ok(s) = s {
                let tx = tx.clone();
                std::thread::spawn(move || client(s, tx));
            }
        }
    });
    while let Ok((req, reply)) = rx.recv() {
        if req == "quit" {
            let _ = reply.send("\"bye\"".into());
            return;
        }
        let r = srv.handle(&req);
        let _ = reply.send(r);
    }
}

fn client(s: UnixStream, tx: std::sync::mpsc::Sender<(String, std::sync::mpsc::Sender<String>)>) {
    let mut w = s.try_clone().unwrap();
    let r = BufReader::new(s);
    for line in r.lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => return,
        };
        let (a, b) = std::sync::mpsc::channel();
        if tx.send((line, a)).is_err() {
            return;
        }
        let rep = match b.recv() {
            Ok(r) => r,
            Err(_) => "{\"err\":\"driver\"}".into(),
        };
        if w.write_all(rep.as_bytes()).is_err() || w.write_all(b"\n").is_err() {
            return;
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let _ = FieldIdx::from_usize(0);
        if let Ok(s) = std::env::var("PODO_MIR_SOCK") {
            serve(tcx, &s);
        }
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
