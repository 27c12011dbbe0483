// mirdump: a rustc driver that, for one named crate, writes the type-checked
// program (MIR after building/promotion, before drop elaboration, with overflow
// checks on) as JSON.  It never runs any of the program's code.
// Used as RUSTC_WORKSPACE_WRAPPER; every other crate is compiled normally.
#![feature(rustc_private)]
#![allow(internal_features)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
    adt_json: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        ))
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.display().to_string()).unwrap_or_default()
            }
            o => format!("{:?}", o),
        };
        format!("{}:{}:{}", f, lo.line, lo.col.0 + 1)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let idx = self.type_json.len();
        self.types.insert(t, idx);
        self.type_json.push(String::new());
        let s = js(&ty::print::with_no_trimmed_paths!(t.to_string()));
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Int(i) => format!(r#""k":"int","n":"{}""#, i.name_str()),
            ty::Uint(i) => format!(r#""k":"int","n":"{}""#, i.name_str()),
            ty::Float(_) => r#""k":"float""#.to_string(),
            ty::Adt(def, args) => {
                let did = def.did();
                if self.adts.insert(did, ()).is_none() {
                    self.adt_queue.push(did);
                }
                let a: Vec<String> =
                    args.types().map(|t| self.ty(t).to_string()).collect();
                format!(r#""k":"adt","p":{},"a":{}"#, js(&self.path(did)), arr(a))
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!(r#""k":"ref","m":{},"t":{}"#, m.is_mut(), i)
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!(r#""k":"ptr","m":{},"t":{}"#, m.is_mut(), i)
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!(r#""k":"slice","t":{}"#, i)
            }
            ty::Array(t, n) => {
                let i = self.ty(*t);
                format!(r#""k":"array","t":{},"n":{}"#, i, js(&n.to_string()))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!(r#""k":"tuple","a":{}"#, arr(a))
            }
            ty::FnDef(d, args) => {
                let f = self.fnref((*d).into(), args.skip_binder(), None);
                format!(r#""k":"fndef","f":{}"#, f)
            }
            ty::Closure(d, _) => {
                let d: DefId = (*d).into();
                format!(r#""k":"closure","p":{}"#, js(&self.path(d)))
            }
            ty::Dynamic(..) => r#""k":"dyn""#.to_string(),
            ty::Param(p) => format!(r#""k":"param","n":{},"i":{}"#, js(p.name.as_str()), p.index),
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::Alias(..) => r#""k":"alias""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        self.type_json[idx] = format!("{{{},\"s\":{}}}", body, s);
        idx
    }

    fn adt(&mut self, did: DefId) {
        let def = self.tcx.adt_def(did);
        let krate = self.tcx.crate_name(did.krate).to_string();
        let path = self.path(did);
        let local = did.is_local();
        let deep = local
            || krate == "source_map_mappings"
            || def.is_enum()
            || path.starts_with("core::ops::range::")
            || path.starts_with("std::ops::range::")
            || path.starts_with("core::ops::Range");
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            if deep {
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                    let t = self.ty(t);
                    let vis = if f.vis.is_public() { "pub" } else { "priv" };
                    fs.push(format!(
                        r#"{{"n":{},"t":{},"v":"{}"}}"#,
                        js(f.name.as_str()),
                        t,
                        vis
                    ));
                }
            }
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, vi).val.to_string()
            } else {
                "0".to_string()
            };
            fs = vec![arr(fs)];
            vs.push(format!(
                r#"{{"n":{},"d":"{}","f":{}}}"#,
                js(v.name.as_str()),
                discr,
                fs[0]
            ));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        self.adt_json.push(format!(
            r#"{{"p":{},"kind":"{}","local":{},"krate":{},"deep":{},"v":{}}}"#,
            js(&path),
            kind,
            local,
            js(&krate),
            deep,
            arr(vs)
        ));
    }

    // callee reference: declared path, generic types, and the resolved impl item if known
    fn fnref(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<ty::TypingEnv<'tcx>>,
    ) -> String {
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut extra = String::new();
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(extra, r#","tr":{}"#, js(&self.path(tr)));
        }
        if let Some(imp) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(imp).instantiate_identity().skip_normalization();
            let s = ty::print::with_no_trimmed_paths!(st.to_string());
            let _ = write!(extra, r#","impl":{}"#, js(&s));
        }
        if let Some(env) = env {
            let dk = self.tcx.def_kind(d);
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let a = self.tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                    let rd = inst.def_id();
                    if rd != d {
                        let _ = write!(
                            extra,
                            r#","res":{},"rl":{},"rk":{}"#,
                            js(&self.path(rd)),
                            rd.is_local(),
                            js(self.tcx.crate_name(rd.krate).as_str())
                        );
                    }
                }
            }
        }
        format!(
            r#"{{"p":{},"a":{},"l":{},"kr":{},"name":{}{}}}"#,
            js(&self.path(d)),
            arr(targs),
            d.is_local(),
            js(self.tcx.crate_name(d.krate).as_str()),
            js(self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            extra
        )
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => r#""*""#.to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!(r#"{{"f":{},"t":{}}}"#, f.index(), t)
                }
                ProjectionElem::Index(l) => format!(r#"{{"i":{}}}"#, l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"{{"ci":{},"ml":{},"fe":{}}}"#, offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"{{"ss":[{},{}],"fe":{}}}"#, from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    r#"{{"d":{},"n":{}}}"#,
                    v.index(),
                    js(n.map(|s| s.to_string()).unwrap_or_default().as_str())
                ),
                _ => r#"{"x":1}"#.to_string(),
            });
        }
        format!(r#"{{"l":{},"p":{}}}"#, p.local.index(), arr(pr))
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref((*d).into(), args.skip_binder(), Some(env));
            return format!(r#"{{"c":"fn","t":{},"f":{}}}"#, ti, f);
        }
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            named = format!(r#","def":{}"#, js(&self.path(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(named, r#","prom":{}"#, p.index());
            }
            let _ = write!(named, r#","dl":{}"#, u.def.is_local());
        }
        let scalar_ty = matches!(
            t.kind(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)
        );
        if scalar_ty {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                let v: i128 = match t.kind() {
                    ty::Int(it) => {
                        let w = it.bit_width().unwrap_or(64) as u32;
                        let sh = 128 - w;
                        ((b << sh) as i128) >> sh
                    }
                    _ => b as i128,
                };
                return format!(r#"{{"c":"int","t":{},"v":"{}"{}}}"#, ti, v, named);
            }
        }
        // &str / &[u8] / &[u8;N] literals
        let is_bytes_ref = match t.kind() {
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => true,
                ty::Slice(e) => *e == self.tcx.types.u8,
                ty::Array(e, _) => *e == self.tcx.types.u8,
                _ => false,
            },
            _ => false,
        };
        if is_bytes_ref {
            if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                let is_arr = matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Array(..)));
                let bytes: Option<Vec<u8>> = if is_arr {
                    match v {
                        ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                            let (prov, off) = p.prov_and_relative_offset();
                            match self.tcx.global_alloc(prov.alloc_id()) {
                                rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                                    let a = m.inner();
                                    Some(
                                        a.inspect_with_uninit_and_ptr_outside_interpreter(
                                            off.bytes_usize()..a.len(),
                                        )
                                        .to_vec(),
                                    )
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    }
                } else {
                    v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec())
                };
                if let Some(b) = bytes {
                    let is_str = matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Str));
                    if is_str {
                        if let Ok(s) = std::str::from_utf8(&b) {
                            return format!(r#"{{"c":"str","t":{},"v":{}{}}}"#, ti, js(s), named);
                        }
                    }
                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!(r#"{{"c":"bytes","t":{},"v":{}{}}}"#, ti, arr(v), named);
                }
            }
        }
        // reference to a static
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) =
            c.const_
        {
            let (prov, _) = p.prov_and_relative_offset();
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                self.tcx.global_alloc(prov.alloc_id())
            {
                return format!(
                    r#"{{"c":"static","t":{},"def":{},"dl":{}}}"#,
                    ti,
                    js(&self.path(d)),
                    d.is_local()
                );
            }
        }
        let zst = matches!(c.const_, Const::Val(ConstValue::ZeroSized, _));
        format!(r#"{{"c":"other","t":{},"z":{}{}}}"#, ti, zst, named)
    }

    fn op(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"cp":{}}}"#, self.place(p)),
            Operand::Move(p) => format!(r#"{{"mv":{}}}"#, self.place(p)),
            Operand::Constant(c) => format!(r#"{{"k":{}}}"#, self.konst(c, env)),
            _ => r#"{"rt":1}"#.to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"{{"r":"use","o":{}}}"#, self.op(o, env)),
            Rvalue::Repeat(o, n) => {
                format!(r#"{{"r":"repeat","o":{},"n":{}}}"#, self.op(o, env), js(&n.to_string()))
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                format!(r#"{{"r":"ref","b":"{}","p":{}}}"#, k, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!(r#"{{"r":"ref","b":"raw","p":{}}}"#, self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    r#"{{"r":"cast","k":{},"o":{},"t":{}}}"#,
                    js(&format!("{:?}", k)),
                    self.op(o, env),
                    ti
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                r#"{{"r":"bin","op":"{:?}","a":{},"b":{}}}"#,
                b,
                self.op(&ops.0, env),
                self.op(&ops.1, env)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!(r#"{{"r":"un","op":"{:?}","o":{}}}"#, u, self.op(o, env))
            }
            Rvalue::Discriminant(p) => format!(r#"{{"r":"discr","p":{}}}"#, self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.op(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!(r#""k":"array","t":{}"#, self.ty(*t)),
                    AggregateKind::Tuple => r#""k":"tuple""#.to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *args).skip_normalization();
                        let ti = self.ty(t);
                        format!(r#""k":"adt","p":{},"v":{},"t":{}"#, js(&self.path(*d)), v.index(), ti)
                    }
                    AggregateKind::Closure(d, _) => {
                        format!(r#""k":"closure","p":{}"#, js(&self.path(*d)))
                    }
                    _ => r#""k":"other""#.to_string(),
                };
                format!(r#"{{"r":"agg",{},"f":{}}}"#, kk, arr(f))
            }
            Rvalue::CopyForDeref(p) => {
                format!(r#"{{"r":"use","o":{{"cp":{}}}}}"#, self.place(p))
            }
            Rvalue::ThreadLocalRef(_) => r#"{"r":"tls"}"#.to_string(),
            Rvalue::Reborrow(_, m, p) => format!(
                r#"{{"r":"ref","b":"{}","p":{}}}"#,
                if m.is_mut() { "mut" } else { "shared" },
                self.place(p)
            ),
            _ => r#"{"r":"other"}"#.to_string(),
        }
    }

    fn body(&mut self, id: &str, kind: &str, def: LocalDefId, b: &Body<'tcx>, meta: &str) -> String {
        let env = ty::TypingEnv::post_analysis(self.tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let n = names.get(&i.index()).cloned().unwrap_or_default();
            locals.push(format!(r#"{{"t":{},"n":{}}}"#, t, js(&n)));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = js(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        if matches!(r, Rvalue::Ref(_, BorrowKind::Fake(_), _)) {
                            continue;
                        }
                        st.push(format!(
                            r#"{{"s":"=","p":{},"r":{},"sp":{}}}"#,
                            self.place(p),
                            self.rvalue(r, env),
                            sp
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            r#"{{"s":"sd","p":{},"v":{}}}"#,
                            self.place(place),
                            variant_index.index()
                        ));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!(r#"{{"s":"dead","l":{}}}"#, l.index()));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(format!(r#"{{"s":"live","l":{}}}"#, l.index()));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = js(&self.span(term.source_info.span));
            let exp = term.source_info.span.from_expansion();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!(r#""t":"goto","to":{}"#, target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!(r#""t":"goto","to":{}"#, real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!(r#""t":"goto","to":{}"#, real_target.index())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(b, self.tcx);
                    let ti = self.ty(ty);
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!(r#"["{}",{}]"#, v, t.index()))
                        .collect();
                    format!(
                        r#""t":"switch","o":{},"ty":{},"v":{},"else":{}"#,
                        self.op(discr, env),
                        ti,
                        arr(vs),
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    r#""t":"resume""#.to_string()
                }
                TerminatorKind::Return => r#""t":"ret""#.to_string(),
                TerminatorKind::Unreachable => r#""t":"unreachable""#.to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b, self.tcx).ty;
                    let ti = self.ty(ty);
                    format!(
                        r#""t":"drop","p":{},"to":{},"ty":{}"#,
                        self.place(place),
                        target.index(),
                        ti
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    format!(
                        r#""t":"call","f":{},"a":{},"d":{},"to":{}"#,
                        self.op(func, env),
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            r#""m":"bounds","len":{},"idx":{}"#,
                            self.op(len, env),
                            self.op(index, env)
                        ),
                        AssertKind::Overflow(o, x, y) => format!(
                            r#""m":"overflow","op":"{:?}","x":{},"y":{}"#,
                            o,
                            self.op(x, env),
                            self.op(y, env)
                        ),
                        AssertKind::OverflowNeg(x) => {
                            format!(r#""m":"overflow","op":"Neg","x":{}"#, self.op(x, env))
                        }
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => {
                            r#""m":"divzero""#.to_string()
                        }
                        _ => r#""m":"other""#.to_string(),
                    };
                    format!(
                        r#""t":"assert","c":{},"e":{},{},"to":{}"#,
                        self.op(cond, env),
                        expected,
                        m,
                        target.index()
                    )
                }
                _ => r#""t":"other""#.to_string(),
            };
            blocks.push(format!(
                r#"{{"st":{},"te":{{{},"sp":{},"ex":{}}},"cl":{}}}"#,
                arr(st),
                t,
                sp,
                exp,
                bb.is_cleanup
            ));
        }
        format!(
            r#"{{"id":{},"kind":"{}","argc":{},"span":{},"locals":{},"blocks":{}{}}}"#,
            js(id),
            kind,
            b.arg_count,
            js(&self.span(b.span)),
            arr(locals),
            arr(blocks),
            meta
        )
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                self.found.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        // clone all bodies first: evaluating constants later may steal them
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)> = vec![];
        for def in tcx.hir_body_owners() {
            let (b, p) = tcx.mir_promoted(def);
            bodies.push((def, b.borrow().clone(), p.borrow().clone()));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut d = Dump {
            tcx,
            types: HashMap::new(),
            type_json: vec![],
            adts: HashMap::new(),
            adt_queue: vec![],
            adt_json: vec![],
        };
        let ev = tcx.effective_visibilities(());
        let mut out = vec![];
        for (def, b, proms) in &bodies {
            let did = def.to_def_id();
            let kind = match tcx.def_kind(did) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => "closure",
                DefKind::Static { .. } => "static",
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                _ => "other",
            };
            let mut meta = String::new();
            let _ = write!(meta, r#","pub":{}"#, ev.is_reachable(*def));
            if matches!(tcx.def_kind(did), DefKind::AssocFn) {
                let parent = tcx.parent(did);
                if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                    let st = tcx.type_of(parent).instantiate_identity().skip_normalization();
                    let ti = d.ty(st);
                    let _ = write!(meta, r#","self":{}"#, ti);
                    let derived = tcx.is_automatically_derived(parent);
                    let _ = write!(meta, r#","derived":{}"#, derived);
                    if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                        let tr = tr.instantiate_identity().skip_normalization();
                        let _ = write!(meta, r#","trait":{}"#, js(&d.path(tr.def_id)));
                    }
                }
                let _ = write!(meta, r#","name":{}"#, js(tcx.item_name(did).as_str()));
            } else if let Some(n) = tcx.opt_item_name(did) {
                let _ = write!(meta, r#","name":{}"#, js(n.as_str()));
            }
            if matches!(tcx.def_kind(did), DefKind::Closure) {
                let parent = tcx.typeck_root_def_id(did);
                let _ = write!(meta, r#","root":{}"#, js(&d.path(parent)));
                if let ty::Closure(_, args) =
                    tcx.type_of(did).instantiate_identity().skip_normalization().kind()
                {
                    let ups: Vec<String> = args
                        .as_closure()
                        .upvar_tys()
                        .iter()
                        .map(|t| d.ty(t).to_string())
                        .collect();
                    let _ = write!(meta, r#","up":{}"#, arr(ups));
                }
            }
            let id = d.path(did);
            out.push(d.body(&id, kind, *def, b, &meta));
            for (i, p) in proms.iter_enumerated() {
                let pid = format!("{}#prom{}", id, i.index());
                out.push(d.body(&pid, "promoted", *def, p, ""));
            }
        }
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut uf);
        let mut unsafes = vec![];
        for sp in uf.found.clone() {
            unsafes.push(js(&d.span(sp)));
        }
        while let Some(a) = d.adt_queue.pop() {
            d.adt(a);
        }
        let mut s = String::new();
        s.push_str("{\"types\":[\n");
        s.push_str(&d.type_json.join(",\n"));
        s.push_str("\n],\"adts\":[\n");
        s.push_str(&d.adt_json.join(",\n"));
        s.push_str("\n],\"unsafe\":[");
        s.push_str(&unsafes.join(","));
        s.push_str("],\"bodies\":[\n");
        s.push_str(&out.join(",\n"));
        s.push_str("\n]}\n");
        std::fs::write(&self.out, s).expect("mirdump: cannot write");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let is_test = args.iter().any(|a| a == "--test");
    if !out.is_empty() && name == want && is_lib && !is_test {
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
