use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::{Span, DUMMY_SP};

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ws: Vec<String>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    order: Vec<Instance<'tcx>>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let ws: Vec<String> =
        std::env::var("FACTS_WS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        ws,
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        queue: VecDeque::new(),
        order: vec![],
    };
    with_no_trimmed_paths!(d.run(out));
}

impl<'tcx> D<'tcx> {
    fn is_ws(&self, def: DefId) -> bool {
        let n = self.tcx.crate_name(def.krate);
        def.is_local() || self.ws.iter().any(|w| w == n.as_str())
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        (f, l.line)
    }

    fn run(&mut self, out: &str) {
        let tcx = self.tcx;
        let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{out}.tmp")).unwrap());
        let mut statics = String::new();
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(def).requires_monomorphization(tcx) {
                        continue;
                    }
                    let inst = Instance::mono(tcx, def);
                    roots.push(self.inst(inst));
                }
                DefKind::Static { .. } => {
                    let name = tcx.item_name(def);
                    let path = tcx.def_path_str(def);
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let tid = self.ty(t);
                    let (f, l) = self.loc(tcx.def_span(def));
                    let mut bytes = String::new();
                    if name.as_str().starts_with("__pgrx") {
                        if let Ok(a) = tcx.eval_static_initializer(def) {
                            let a = a.inner();
                            bytes = hex(a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()));
                        }
                    }
                    // functions a lazily initialised static runs
                    let mut init = vec![];
                    if !name.as_str().starts_with("__pgrx") && !tcx.is_thread_local_static(def) {
                        if let Ok(a) = tcx.eval_static_initializer(def) {
                            for (_, p) in a.inner().provenance().ptrs().iter() {
                                if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(p.alloc_id()) {
                                    init.push(self.inst(instance));
                                }
                            }
                        }
                    }
                    if !statics.is_empty() {
                        statics.push_str(",\n");
                    }
                    let _ = write!(
                        statics,
                        "{{\"path\":{},\"ty\":{},\"file\":{},\"line\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"bytes\":\"{}\",\"init\":{:?}}}",
                        js(&path), tid, js(&f), l,
                        tcx.is_mutable_static(def),
                        t.is_freeze(tcx, self.env),
                        tcx.is_thread_local_static(def),
                        bytes, init
                    );
                }
                _ => {}
            }
        }
        // foreign items declared in this crate
        let mut foreign = String::new();
        for id in tcx.hir_crate_items(()).foreign_items() {
            let def = id.owner_id.to_def_id();
            if tcx.def_kind(def) == DefKind::Fn {
                let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                let (f, l) = self.loc(tcx.def_span(def));
                if !foreign.is_empty() {
                    foreign.push_str(",\n");
                }
                let _ = write!(
                    foreign,
                    "{{\"path\":{},\"abi\":{},\"file\":{},\"line\":{}}}",
                    js(&tcx.def_path_str(def)), js(&format!("{:?}", sig.abi())), js(&f), l
                );
            }
        }
        let _ = write!(w, "{{\"crate\":{},\n\"roots\":{:?},\n\"fns\":[\n", js(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()), roots);
        let mut first = true;
        while let Some(i) = self.queue.pop_front() {
            let rec = self.func(i);
            if !first {
                w.write_all(b",\n").unwrap();
            }
            first = false;
            w.write_all(rec.as_bytes()).unwrap();
        }
        // adts of this crate (so that layout queries see all of them)
        w.write_all(b"],\n\"tys\":[\n").unwrap();
        // types may be appended while printing, they are printed when interned
        for (i, t) in self.ty_out.iter().enumerate() {
            if i > 0 {
                w.write_all(b",\n").unwrap();
            }
            w.write_all(t.as_ref().unwrap().as_bytes()).unwrap();
        }
        let _ = write!(w, "],\n\"statics\":[\n{}],\n\"foreign\":[{}]}}\n", statics, foreign);
        w.flush().unwrap();
        drop(w);
        std::fs::rename(format!("{out}.tmp"), out).unwrap();
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.order.len();
        self.insts.insert(i, k);
        self.order.push(i);
        self.queue.push_back(i);
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&k) = self.tys.get(&t) {
            return k;
        }
        let k = self.ty_out.len();
        self.tys.insert(t, k);
        self.ty_out.push(None);
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"s\":{}", js(&t.to_string()));
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                let _ = write!(o, ",\"k\":\"prim\"");
            }
            ty::Adt(def, args) => {
                let _ = write!(o, ",\"k\":\"adt\",\"path\":{}", js(&tcx.def_path_str(def.did())));
                let a: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
                let nlt = args.regions().count();
                let _ = write!(o, ",\"args\":{:?},\"nlt\":{},\"ws\":{},\"ak\":\"{}\"", a, nlt, self.is_ws(def.did()),
                    if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" });
                let ws = self.is_ws(def.did());
                let cname = tcx.crate_name(def.did().krate);
                if ws || matches!(cname.as_str(), "core" | "alloc" | "pgrx" | "pgrx_pg_sys" | "std") {
                    let lay = if ws { tcx.layout_of(self.env.as_query_input(t)).ok() } else { None };
                    if let Some(l) = &lay {
                        let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
                    }
                    if ws {
                        let (f, l) = self.loc(tcx.def_span(def.did()));
                        let _ = write!(o, ",\"file\":{},\"line\":{}", js(&f), l);
                    }
                    o.push_str(",\"vars\":[");
                    for (vi, v) in def.variants().iter_enumerated() {
                        if vi.as_usize() > 0 {
                            o.push(',');
                        }
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                        let _ = write!(o, "{{\"n\":{},\"d\":\"{}\",\"f\":[", js(v.name.as_str()), discr);
                        for (fi, f) in v.fields.iter_enumerated() {
                            if fi.as_usize() > 0 {
                                o.push(',');
                            }
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ft)
                                .unwrap_or(ft.skip_norm_wip());
                            let fid = self.ty(ft);
                            let mut off = -1i64;
                            if let (Some(l), false) = (&lay, def.is_enum()) {
                                off = l.fields.offset(fi.as_usize()).bytes() as i64;
                            }
                            let _ = write!(o, "[{},{},{}]", js(f.name.as_str()), fid, off);
                        }
                        o.push_str("]}");
                    }
                    o.push(']');
                }
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ref\",\"to\":{},\"m\":{}", i, m.is_mut());
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ptr\",\"to\":{},\"m\":{}", i, m.is_mut());
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"slice\",\"to\":{}", i);
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"array\",\"to\":{},\"n\":{}", i, n);
            }
            ty::Tuple(ts) => {
                let a: Vec<usize> = ts.iter().map(|t| self.ty(t)).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"args\":{:?}", a);
            }
            ty::Closure(def, args) => {
                let a: Vec<usize> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"args\":{:?}", js(&tcx.def_path_str(*def)), a);
            }
            ty::FnDef(def, args) => {
                let fid = self.resolve(*def, args.no_bound_vars().unwrap());
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{},\"fn\":{}", js(&tcx.def_path_str(*def)), fid.map(|x| x as i64).unwrap_or(-1));
            }
            ty::FnPtr(..) => {
                let _ = write!(o, ",\"k\":\"fnptr\",\"abi\":{}", js(&format!("{:?}", t.fn_sig(tcx).abi())));
            }
            ty::Dynamic(..) => {
                let _ = write!(o, ",\"k\":\"dyn\"");
            }
            _ => {
                let _ = write!(o, ",\"k\":\"other\"");
            }
        }
        o.push('}');
        self.ty_out[k] = Some(o);
        k
    }

    fn resolve(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> Option<usize> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, self.env, def, args) {
            Ok(Some(i)) => Some(self.inst(i)),
            _ => None,
        }
    }

    fn mono<T>(&self, i: Instance<'tcx>, t: T) -> T
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>>,
    {
        i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, t))
    }

    fn func(&mut self, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let id = self.insts[&i];
        let def = i.def_id();
        let ws = self.is_ws(def);
        let mut o = String::new();
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(s) => {
                let s = format!("{:?}", s);
                s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("shim").to_string()
            }
            _ => "other".to_string(),
        };
        let has_args = !i.args.is_empty();
        let _ = write!(
            o,
            "{{\"id\":{},\"path\":{},\"name\":{},\"crate\":{},\"ws\":{},\"kind\":{}",
            id,
            js(&tcx.def_path_str(def)),
            js(&if has_args { i.to_string() } else { tcx.def_path_str(def) }),
            js(tcx.crate_name(def.krate).as_str()),
            ws,
            js(&kind)
        );
        let dk = tcx.def_kind(def);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"abi\":{},\"foreign\":{}", js(&format!("{:?}", sig.abi())), tcx.is_foreign_item(def));
            if let Some(tr) = tcx.trait_of_assoc(def) {
                let _ = write!(o, ",\"trait\":{}", js(&tcx.def_path_str(tr)));
            } else if let Some(imp) = tcx.trait_impl_of_assoc(def) {
                let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"itrait\":{},\"iself\":{},\"derived\":{}", js(&tcx.def_path_str(tr.def_id)), js(&tr.self_ty().to_string()), tcx.is_automatically_derived(imp));
            }
            let _ = write!(o, ",\"item\":{}", js(tcx.item_name(def).as_str()));
        }
        if dk == DefKind::Closure {
            let p = tcx.typeck_root_def_id(def);
            let _ = write!(o, ",\"closure_of\":{}", js(&tcx.def_path_str(p)));
        }
        let (f, l) = self.loc(tcx.def_span(def));
        let _ = write!(o, ",\"file\":{},\"line\":{}", js(&f), l);
        let targs: Vec<usize> = i.args.types().filter(|t| !matches!(dk, DefKind::Closure) || !t.is_fn_ptr()).map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"targs\":{:?}", targs);
        // body?
        let has_body = match i.def {
            InstanceKind::Item(d) => {
                !tcx.is_foreign_item(d)
                    && matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))
                    && !matches!(dk, DefKind::Ctor(..))
                    && tcx.is_mir_available(d)
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if has_body {
            let body = tcx.instance_mir(i.def);
            self.body(i, body, &mut o);
        }
        o.push('}');
        o
    }

    fn body(&mut self, i: Instance<'tcx>, body: &'tcx Body<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        let _ = write!(o, ",\"argc\":{},\"locals\":[", body.arg_count);
        for (k, ld) in body.local_decls.iter_enumerated() {
            let t = self.mono(i, ld.ty);
            let tid = self.ty(t);
            if k.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}", tid);
        }
        o.push(']');
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        o.push_str(",\"vars\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "{}:{}", js(&format!("{}#{}", v.name, p.local.as_usize())), self.place(i, body, p));
            }
        }
        o.push_str("},\"blocks\":[");
        for (bb, b) in body.basic_blocks.iter_enumerated() {
            if bb.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"c\":{},\"s\":[", b.is_cleanup as u8);
            let mut first = true;
            for s in &b.statements {
                let r = match &s.kind {
                    StatementKind::Assign(ba) => {
                        let (p, rv) = &**ba;
                        Some(format!("[\"=\",{},{}", self.place(i, body, *p), self.rvalue(i, body, rv)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}", self.place(i, body, **place), variant_index.as_usize()))
                    }
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}", l.as_usize())),
                    StatementKind::Intrinsic(ii) => match &**ii {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(format!(
                            "[\"cno\",{},{},{}",
                            self.operand(i, body, &c.src),
                            self.operand(i, body, &c.dst),
                            self.operand(i, body, &c.count)
                        )),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(r) = r {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let (_, l) = self.loc(s.source_info.span);
                    let _ = write!(o, "{},{}]", r, l);
                }
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let (_, l) = self.loc(t.source_info.span);
            let un = |u: &UnwindAction| match u {
                UnwindAction::Continue => "\"c\"".to_string(),
                UnwindAction::Unreachable => "\"u\"".to_string(),
                UnwindAction::Terminate(r) => match r {
                    UnwindTerminateReason::Abi => "\"abi\"".to_string(),
                    UnwindTerminateReason::InCleanup => "\"cl\"".to_string(),
                },
                UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            };
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut s = format!("[\"sw\",{},[", self.operand(i, body, discr));
                    for (n, (v, t)) in targets.iter().enumerate() {
                        if n > 0 {
                            s.push(',');
                        }
                        let _ = write!(s, "[\"{}\",{}]", v, t.as_usize());
                    }
                    let _ = write!(s, "],{}", targets.otherwise().as_usize());
                    s
                }
                TerminatorKind::UnwindResume => "[\"resume\"".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"term\"".to_string(),
                TerminatorKind::Return => "[\"ret\"".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.mono(i, pt);
                    let di = Instance::resolve_drop_glue(tcx, pt);
                    let trivial = matches!(di.def, InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)));
                    let fid = if trivial { -1 } else { self.inst(di) as i64 };
                    format!("[\"drop\",{},{},{},{}", self.place(i, body, *place), target.as_usize(), un(unwind), fid)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let ft = self.mono(i, ft);
                    let callee = match ft.kind() {
                        ty::FnDef(d, a) => match self.resolve(*d, a.no_bound_vars().unwrap()) {
                            Some(k) => format!("{}", k),
                            None => js(&tcx.def_path_str(*d)),
                        },
                        _ => format!("{{\"ptr\":{}}}", self.operand(i, body, func)),
                    };
                    let mut s = format!("[\"call\",{},[", callee);
                    for (n, a) in args.iter().enumerate() {
                        if n > 0 {
                            s.push(',');
                        }
                        s.push_str(&self.operand(i, body, &a.node));
                    }
                    let _ = write!(
                        s,
                        "],{},{},{}",
                        self.place(i, body, *destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        un(unwind)
                    );
                    s
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "divzero",
                        AssertKind::RemainderByZero(..) => "remzero",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}", self.operand(i, body, cond), expected, m, target.as_usize(), un(unwind))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}", real_target.as_usize()),
                o => format!("[\"other\",{}", js(&format!("{:?}", o))),
            };
            let _ = write!(o, "{},{}]}}", s, l);
        }
        o.push(']');
    }

    fn place(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return format!("{}", p.local.as_usize());
        }
        let mut s = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(self.mono(i, body.local_decls[p.local].ty));
        for e in p.projection {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, ft) => {
                    let ft = self.mono(i, ft);
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() && pt.variant_index.is_none() {
                                String::new()
                            } else {
                                d.variant(v).fields[f].name.to_string()
                            }
                        }
                        _ => String::new(),
                    };
                    let tid = self.ty(ft);
                    let _ = write!(s, ",[\"f\",{},{},{}]", f.as_usize(), js(&name), tid);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(s, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(s, ",[\"d\",{},{}]", v.as_usize(), js(n.map(|x| x.to_string()).unwrap_or_default().as_str()));
                }
                _ => s.push_str(",\"?\""),
            }
            let e2 = self.mono(i, e);
            pt = pt.projection_ty(tcx, e2);
        }
        s.push(']');
        s
    }

    fn operand(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(i, body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(i, body, *p)),
            Operand::Constant(c) => self.constant(i, &c.const_),
            Operand::RuntimeChecks(_) => "[\"k\",-1,{\"bits\":\"0\"}]".to_string(),
        }
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<(Vec<u8>, bool)> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let total = a.size().bytes();
                let len = len.unwrap_or(total.checked_sub(off)?);
                if off + len > total || len > 65536 {
                    return None;
                }
                let r = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                let prov = !a.provenance().ptrs().is_empty();
                Some((r.to_vec(), prov))
            }
            _ => None,
        }
    }

    // strings reachable one level down a constant allocation (`&[&str]`, fmt pieces)
    fn alloc_ptr_strs(&self, id: rustc_middle::mir::interpret::AllocId) -> Vec<String> {
        let mut v = vec![];
        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) {
            let a = a.inner();
            for (off, p) in a.provenance().ptrs().iter() {
                let aid = p.alloc_id();
                if let Some((b, _)) = self.alloc_bytes(aid, 0, None) {
                    let _ = off;
                    if let Ok(s) = std::str::from_utf8(&b) {
                        v.push(s.to_string());
                    }
                }
            }
        }
        v
    }

    fn constant(&mut self, i: Instance<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let c = self.mono(i, *c);
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let k = self.resolve(*d, a.no_bound_vars().unwrap());
            return match k {
                Some(k) => format!("[\"k\",{},{{\"fn\":{}}}]", tid, k),
                None => format!("[\"k\",{},{{\"fnp\":{}}}]", tid, js(&tcx.def_path_str(*d))),
            };
        }
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                named = format!(",\"named\":{}", js(&tcx.def_path_str(u.def)));
            }
        }
        let v = match c.eval(tcx, self.env, DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return format!("[\"k\",{},{{}}]", tid),
        };
        let d = match v {
            ConstValue::ZeroSized => "\"zst\":1".to_string(),
            ConstValue::Scalar(Scalar::Int(s)) => format!("\"bits\":\"{}\",\"sz\":{}", s.to_bits_unchecked(), s.size().bytes()),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Static(d)) => format!("\"static\":{}", js(&tcx.def_path_str(d))),
                    Some(GlobalAlloc::Function { instance }) => {
                        let k = self.inst(instance);
                        format!("\"fnptr\":{}", k)
                    }
                    Some(GlobalAlloc::Memory(_)) => {
                        let strs = self.alloc_ptr_strs(aid);
                        let strs: Vec<String> = strs.iter().map(|s| js(s)).collect();
                        match self.alloc_bytes(aid, off.bytes(), None) {
                            Some((b, false)) if b.len() <= 4096 => format!("\"mem\":\"{}\"", hex(&b)),
                            Some((_, true)) => format!("\"ptrs\":[{}]", strs.join(",")),
                            _ => "\"mem\":null".to_string(),
                        }
                    }
                    _ => "\"ptr\":1".to_string(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match self.alloc_bytes(alloc_id, 0, Some(meta)) {
                Some((b, _)) => match std::str::from_utf8(&b) {
                    Ok(s) if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) => format!("\"str\":{}", js(s)),
                    _ => format!("\"slice\":\"{}\"", hex(&b)),
                },
                None => {
                    let strs = self.alloc_ptr_strs(alloc_id);
                    let strs: Vec<String> = strs.iter().map(|s| js(s)).collect();
                    format!("\"ptrs\":[{}]", strs.join(","))
                }
            },
            ConstValue::Indirect { alloc_id, offset } => {
                let size = tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bytes()).unwrap_or(0);
                match self.alloc_bytes(alloc_id, offset.bytes(), Some(size)) {
                    Some((b, false)) if b.len() <= 4096 => format!("\"ind\":\"{}\"", hex(&b)),
                    Some((_, true)) => {
                        let strs = self.alloc_ptr_strs(alloc_id);
                        let strs: Vec<String> = strs.iter().map(|s| js(s)).collect();
                        format!("\"ptrs\":[{}]", strs.join(","))
                    }
                    _ => "\"ind\":null".to_string(),
                }
            }
        };
        let _ = AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::ZERO };
        // the variant of an enum constant, or of the one a constant reference (to a reference) points to
        let mut refs = 0;
        let mut pointee = match (v, t.kind()) {
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, x, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                refs = 1;
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(_)) => Some((prov.alloc_id(), off, *x)),
                    _ => None,
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, _) => Some((alloc_id, offset, t)),
            _ => None,
        };
        while let Some((id, off, x)) = pointee {
            let ty::Ref(_, y, _) = x.kind() else { break };
            pointee = match tcx.try_get_global_alloc(id) {
                Some(GlobalAlloc::Memory(a)) if y.is_sized(tcx, self.env) => {
                    let a = a.inner();
                    let to = a.provenance().ptrs().iter().find(|(o, _)| *o == off).map(|(_, p)| p.alloc_id());
                    let at = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..off.bytes() as usize + 8);
                    let at = u64::from_le_bytes(at.try_into().unwrap());
                    refs += 1;
                    to.map(|to| (to, rustc_abi::Size::from_bytes(at), *y))
                }
                _ => None,
            };
        }
        let mut var = String::new();
        if let Some((alloc_id, offset, x)) = pointee {
            let mem = matches!(tcx.try_get_global_alloc(alloc_id), Some(GlobalAlloc::Memory(_)));
            if mem && matches!(x.kind(), ty::Adt(a, _) if a.is_enum()) {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(ConstValue::Indirect { alloc_id, offset }, x) {
                    if let Some(k) = dc.variant {
                        var = format!(",\"var\":{},\"refs\":{}", k.as_u32(), refs);
                    }
                }
            }
        }
        format!("[\"k\",{},{{{}{}{}}}]", tid, d, named, var)
    }

    fn rvalue(&mut self, i: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(i, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(i, body, o)),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(i, body, *p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&tcx.def_path_str(*d))),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(i, body, *p)),
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(&body.local_decls, tcx);
                let src = self.mono(i, src);
                let t = self.mono(i, *t);
                let tid = self.ty(t);
                let sid = self.ty(src);
                let mut extra = String::new();
                if let CastKind::PointerCoercion(pc, _) = k {
                    match pc {
                        ty::adjustment::PointerCoercion::ReifyFnPointer(..) => {
                            if let ty::FnDef(d, a) = src.kind() {
                                let a = tcx.erase_and_anonymize_regions(a.no_bound_vars().unwrap());
                                if let Some(inst) = Instance::resolve_for_fn_ptr(tcx, self.env, *d, a) {
                                    extra = format!(",{}", self.inst(inst));
                                }
                            }
                        }
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => {
                            if let ty::Closure(d, a) = src.kind() {
                                let inst = Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce);
                                extra = format!(",{}", self.inst(inst));
                            }
                        }
                        ty::adjustment::PointerCoercion::Unsize => {
                            // vtable methods of the source type
                            let (s, d) = (src.builtin_deref(true), t.builtin_deref(true));
                            if let (Some(s), Some(d)) = (s, d) {
                                if let ty::Dynamic(preds, ..) = d.kind() {
                                    if !matches!(s.kind(), ty::Dynamic(..)) {
                                        let mut ms = vec![];
                                        if let Some(p) = preds.principal() {
                                            let tr = p.with_self_ty(tcx, s);
                                            let tr = tcx.instantiate_bound_regions_with_erased(tr);
                                            let tr = tcx.erase_and_anonymize_regions(tr);
                                            for e in tcx.vtable_entries(tr) {
                                                if let ty::VtblEntry::Method(inst) = e {
                                                    ms.push(self.inst(*inst));
                                                }
                                            }
                                        }
                                        extra = format!(",{:?}", ms);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                let kn = match k {
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc).split('(').next().unwrap().to_string(),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{},{}{}]", js(&kn), self.operand(i, body, o), sid, tid, extra)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(i, body, &ops.0), self.operand(i, body, &ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(i, body, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(i, body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let a = self.mono(i, *a);
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), a);
                        let tid = self.ty(t);
                        let names: Vec<String> =
                            tcx.adt_def(*d).variant(*v).fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],{}]",
                            tid,
                            v.as_usize(),
                            js(tcx.adt_def(*d).variant(*v).name.as_str()),
                            names.join(","),
                            af.map(|x| x.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let a = self.mono(i, *a);
                        let t = Ty::new_closure(tcx, *d, a);
                        let tid = self.ty(t);
                        let inst = Instance::new_raw(*d, a);
                        let k = self.inst(inst);
                        format!("[\"closure\",{},{}]", tid, k)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                let mut s = format!("[\"agg\",{},[", kk);
                for (n, x) in ops.iter().enumerate() {
                    if n > 0 {
                        s.push(',');
                    }
                    s.push_str(&self.operand(i, body, x));
                }
                s.push_str("]]");
                s
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(i, body, *p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(i, body, *p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(i, body, o)),
        }
    }
}
