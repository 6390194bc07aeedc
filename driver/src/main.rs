//! mirdump: a rustc driver that writes the (promoted, un-elaborated) MIR of every
//! function, closure and constant of the crate being compiled as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER.  When MIRDUMP_OUT is set and the crate
//! being compiled is the lib or bin of ruruby-parse, it writes
//! $MIRDUMP_OUT/<crate>.<type>.json; otherwise it behaves as rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

mod json {
    pub fn esc(s: &str) -> String {
        let mut o = String::with_capacity(s.len() + 2);
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
}
use json::esc;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_forced_impl_filename_line!(self.tcx.def_path_str(d))
        );
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.ty_ids.insert(t, id);
        self.types.push(String::new());
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let mut s = format!("{{\"name\":{}", esc(&name));
        match *t.kind() {
            ty::Bool => s += ",\"k\":\"bool\"",
            ty::Char => s += ",\"k\":\"char\"",
            ty::Int(i) => {
                let _ = write!(s, ",\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64));
            }
            ty::Uint(i) => {
                let _ = write!(s, ",\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64));
            }
            ty::Float(_) => s += ",\"k\":\"float\"",
            ty::Str => s += ",\"k\":\"str\"",
            ty::Never => s += ",\"k\":\"never\"",
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                let _ = write!(s, ",\"k\":\"ref\",\"inner\":{},\"mut\":{}", i, m.is_mut());
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                let _ = write!(s, ",\"k\":\"ptr\",\"inner\":{},\"mut\":{}", i, m.is_mut());
            }
            ty::Slice(inner) => {
                let i = self.ty(inner);
                let _ = write!(s, ",\"k\":\"slice\",\"inner\":{}", i);
            }
            ty::Array(inner, n) => {
                let i = self.ty(inner);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(s, ",\"k\":\"array\",\"inner\":{},\"len\":{}", i, n);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"fields\":[{}]", v.join(","));
            }
            ty::Closure(d, args) => {
                let caps: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(
                    s,
                    ",\"k\":\"closure\",\"def\":{},\"fields\":[{}]",
                    esc(&self.path(d)),
                    caps.join(",")
                );
            }
            ty::FnDef(d, _) => {
                let _ = write!(s, ",\"k\":\"fndef\",\"def\":{}", esc(&self.path(d.into())));
            }
            ty::FnPtr(..) => s += ",\"k\":\"fnptr\"",
            ty::Dynamic(..) => s += ",\"k\":\"dyn\"",
            ty::Param(_) => s += ",\"k\":\"param\"",
            ty::Adt(def, args) => {
                let local = def.did().is_local();
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(
                    s,
                    ",\"k\":\"adt\",\"adt\":\"{}\",\"def\":{},\"local\":{},\"targs\":[{}],\"box\":{}",
                    kind,
                    esc(&self.path(def.did())),
                    local,
                    targs.join(","),
                    def.is_box()
                );
                let has_drop = self.tcx.adt_destructor(def.did()).is_some();
                let _ = write!(s, ",\"dtor\":{}", has_drop);
                let dump_fields = local || def.is_enum();
                s += ",\"variants\":[";
                if dump_fields || def.variants().len() == 1 {
                    let mut first = true;
                    for (vi, v) in def.variants().iter_enumerated() {
                        if !first {
                            s.push(',');
                        }
                        first = false;
                        let discr = if def.is_enum() {
                            format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                        } else {
                            "0".to_string()
                        };
                        let _ = write!(
                            s,
                            "{{\"name\":{},\"discr\":\"{}\",\"fields\":[",
                            esc(v.name.as_str()),
                            discr
                        );
                        let mut f1 = true;
                        for f in v.fields.iter() {
                            if !f1 {
                                s.push(',');
                            }
                            f1 = false;
                            let fty = f.ty(self.tcx, args).skip_norm_wip();
                            let vis = if f.vis.is_public() { "pub" } else { "priv" };
                            let fid =
                                if dump_fields { self.ty(fty) as i64 } else { -1 };
                            let _ = write!(
                                s,
                                "{{\"n\":{},\"t\":{},\"vis\":\"{}\"}}",
                                esc(f.name.as_str()),
                                fid,
                                vis
                            );
                        }
                        s += "]}";
                    }
                }
                s.push(']');
            }
            _ => s += ",\"k\":\"other\"",
        }
        s.push('}');
        self.types[id] = s;
        id
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s += ",[\"D\"]",
                ProjectionElem::Field(f, _) => {
                    let _ = write!(s, ",[\"F\",{}]", f.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"I\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, ",[\"C\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"S\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        s,
                        ",[\"V\",{},{}]",
                        v.as_usize(),
                        esc(&n.map(|x| x.to_string()).unwrap_or_default())
                    );
                }
                _ => s += ",[\"O\"]",
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        let _ = pty;
        s.push(']');
        s
    }

    fn place_ty(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> usize {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        self.ty(t)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let env = TypingEnv::post_analysis(tcx, owner);
        if let ty::FnDef(d, args) = *t.kind() {
            return self.fnref(d.into(), args.no_bound_vars().unwrap(), owner, tid);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"k\":\"promoted\",\"owner\":{},\"idx\":{},\"t\":{}}}",
                    esc(&self.path(u.def)),
                    p.as_usize(),
                    tid
                );
            }
        }
        let name = if let Const::Unevaluated(u, _) = c.const_ {
            Some(self.path(u.def))
        } else {
            None
        };
        let nm = name.as_ref().map(|n| format!(",\"name\":{}", esc(n))).unwrap_or_default();
        let local_const = if let Const::Unevaluated(u, _) = c.const_ { u.def.is_local() } else { false };
        let evaluatable = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_));
        if evaluatable && !(local_const && !matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char)) {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
                let size = si.size();
                let v = match t.kind() {
                    ty::Int(_) => si.to_int(size).to_string(),
                    _ => si.to_bits(size).to_string(),
                };
                return format!("{{\"k\":\"lit\",\"v\":\"{}\",\"t\":{}{}}}", v, tid, nm);
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(cv) = c.const_.eval(tcx, env, c.span) {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        let st = String::from_utf8_lossy(b).to_string();
                        return format!("{{\"k\":\"str\",\"v\":{},\"t\":{}{}}}", esc(&st), tid, nm);
                    }
                }
            }
        }
        format!(
            "{{\"k\":\"other\",\"t\":{}{},\"dbg\":{}}}",
            tid,
            nm,
            esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_)))
        )
    }

    fn fnref(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        owner: DefId,
        tid: usize,
    ) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut resolved = String::new();
        let args_e = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
                let rd = inst.def_id();
                let _ = write!(
                    resolved,
                    ",\"res\":{},\"res_local\":{}",
                    esc(&self.path(rd)),
                    rd.is_local()
                );
                let ra: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(resolved, ",\"res_targs\":[{}]", ra.join(","));
            }
        }
        let ctor = match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(d);
                format!(",\"ctor\":{}", esc(&self.path(parent)))
            }
            _ => String::new(),
        };
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => format!(",\"trait\":{}", esc(&self.path(t))),
            None => String::new(),
        };
        let unsafe_ = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            !sig.safety().is_safe()
        } else {
            false
        };
        format!(
            "{{\"k\":\"fn\",\"fn\":{},\"local\":{},\"targs\":[{}],\"t\":{},\"unsafe\":{}{}{}{}}}",
            esc(&path),
            d.is_local(),
            targs.join(","),
            tid,
            unsafe_,
            resolved,
            ctor,
            tr
        )
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c, owner)),
            _ => "[\"rtcheck\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, owner)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(o, body, owner)),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let kk = format!("{:?}", k);
                let from = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(from);
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&kk), self.operand(o, body, owner), f, ti)
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    op,
                    self.operand(&b.0, body, owner),
                    self.operand(&b.1, body, owner),
                    ti
                )
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, body, owner))
            }
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(p, body);
                format!("[\"discr\",{},{}]", self.place(p, body), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, body, owner)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&self.path(*d)),
                            vi.as_usize(),
                            esc(v.name.as_str()),
                            ti
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, o.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, owner: DefId) -> String {
        let mut s = String::new();
        let locals: Vec<String> =
            body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let user: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .filter(|(_, l)| l.is_user_variable())
            .map(|(i, _)| i.as_usize().to_string())
            .collect();
        let _ = write!(
            s,
            "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"user\":[{}],\"blocks\":[",
            body.arg_count,
            locals.join(","),
            names.join(","),
            user.join(",")
        );
        let mut first = true;
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if !first {
                s.push(',');
            }
            first = false;
            let _ = write!(s, "{{\"c\":{},\"s\":[", data.is_cleanup);
            let mut f1 = true;
            for st in &data.statements {
                let x = match &st.kind {
                    StatementKind::Assign(b) => {
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(&b.0, body),
                            self.rvalue(&b.1, body, owner),
                            esc(&self.span(st.source_info.span))
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setdiscr\",{},{}]", self.place(place, body), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !f1 {
                    s.push(',');
                }
                f1 = false;
                s += &x;
            }
            s += "],\"t\":";
            let term = data.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},[{}],{},{}]",
                        self.operand(discr, body, owner),
                        ti,
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", sp),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.place_ty(place, body);
                    format!("[\"drop\",{},{},{},{}]", self.place(place, body), target.as_usize(), t, sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(&x.node, body, owner)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = self.place_ty(destination, body);
                    let d = self.place(destination, body);
                    let f = self.operand(func, body, owner);
                    format!(
                        "[\"call\",{},[{}],{},{},{},{},[{}]]",
                        f,
                        a.join(","),
                        d,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        dt,
                        sp,
                        at.join(",")
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow_{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow_Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[{},{}]",
                            self.operand(len, body, owner),
                            self.operand(index, body, owner)
                        ),
                        _ => "[]".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{},{}]",
                        self.operand(cond, body, owner),
                        expected,
                        m,
                        target.as_usize(),
                        sp,
                        extra
                    )
                }
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            s += &t;
            s.push('}');
        }
        s.push(']');
        s
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Some(dir) = self.out.clone() else {
            return rustc_driver::Compilation::Continue;
        };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let kind = tcx
            .crate_types()
            .iter()
            .map(|t| format!("{:?}", t).to_lowercase())
            .collect::<Vec<_>>()
            .join("_");
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut bodies = vec![];
        for d in &owners {
            let k = tcx.def_kind(*d);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
                _ => continue,
            }
            let (b, p) = tcx.mir_promoted(*d);
            let b = b.borrow().clone();
            let p = p.borrow().clone();
            bodies.push((*d, k, b, p));
        }
        let mut dump = Dump { tcx, types: vec![], ty_ids: HashMap::new() };
        let mut fns = vec![];
        for (d, k, b, ps) in &bodies {
            let did = d.to_def_id();
            let kind = match k {
                DefKind::Closure => "closure",
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Static { .. } => "static",
                _ => "const",
            };
            let auto = tcx.is_automatically_derived(tcx.parent(did));
            let vis = if matches!(k, DefKind::Closure) {
                "priv".to_string()
            } else {
                let v = tcx.visibility(did);
                if v.is_public() { "pub".to_string() } else { "priv".to_string() }
            };
            let test = false;
            let tr = if matches!(k, DefKind::AssocFn) {
                match tcx.trait_impl_of_assoc(did) {
                    Some(im) => {
                        let trf = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        esc(&dump.path(trf.def_id))
                    }
                    None => "null".to_string(),
                }
            } else {
                "null".to_string()
            };
            let selfty = if matches!(k, DefKind::AssocFn) {
                match tcx.impl_of_assoc(did) {
                    Some(im) => {
                        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        dump.ty(t) as i64
                    }
                    None => -1,
                }
            } else {
                -1
            };
            let env = TypingEnv::post_analysis(tcx, did);
            let _ = env;
            let bj = dump.body(b, did);
            let mut pj = vec![];
            for p in ps.iter() {
                pj.push(format!("{{{}}}", dump.body(p, did)));
            }
            fns.push(format!(
                "{{\"path\":{},\"kind\":\"{}\",\"span\":{},\"derived\":{},\"vis\":\"{}\",\"test\":{},\"trait\":{},\"selfty\":{},{},\"promoted\":[{}]}}",
                esc(&dump.path(did)),
                kind,
                esc(&dump.span(tcx.def_span(did))),
                auto,
                vis,
                test,
                tr,
                selfty,
                bj,
                pj.join(",")
            ));
        }
        // Statics and unsafe blocks are reported through the items above.
        let s = format!(
            "{{\"crate\":{},\"kind\":{},\"types\":[{}],\"fns\":[\n{}\n]}}\n",
            esc(&krate),
            esc(&kind),
            dump.types.join(",\n"),
            fns.join(",\n")
        );
        let tmp = format!("{}/{}.{}.json.tmp{}", dir, krate, kind, std::process::id());
        std::fs::write(&tmp, s).expect("mirdump: cannot write");
        std::fs::rename(&tmp, format!("{}/{}.{}.json", dir, krate, kind)).expect("rename");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| {
        w[0] == "--crate-name" && (w[1] == "ruruby_parse")
    }) || args.iter().any(|a| a == "--crate-name=ruruby_parse");
    let is_test = args.iter().any(|a| a == "--test");
    let out = if is_target && !is_test { std::env::var("MIRDUMP_OUT").ok() } else { None };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    })
}
