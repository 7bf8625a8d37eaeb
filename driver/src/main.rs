// Dumps the type-checked program (MIR before borrowck-time drop elaboration,
// fully resolved and monomorphised from every non-generic local function) of
// one crate as JSON. Usage: mirdump OUT.json <rustc arguments..>
#![feature(rustc_private)]
#![allow(unused_extern_crates)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let mut d = Dump::new(tcx);
        d.run();
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver_impl::Compilation::Stop;
        }
        std::fs::write(&self.out, d.finish()).unwrap();
        rustc_driver_impl::Compilation::Stop
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, (Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_json: Vec<String>,
    fns: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    fn_json: Vec<(usize, String)>,
    roots: Vec<usize>,
    impls: Vec<String>,
    statics: Vec<String>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            bodies: HashMap::new(),
            tys: HashMap::new(),
            ty_json: vec![],
            adts: HashMap::new(),
            adt_json: vec![],
            fns: HashMap::new(),
            queue: VecDeque::new(),
            fn_json: vec![],
            roots: vec![],
            impls: vec![],
            statics: vec![],
            env: TypingEnv::fully_monomorphized(),
        }
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        // Clone every body before anything can steal it.
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for &d in &owners {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let (b, p) = tcx.mir_promoted(d);
            let v = (b.borrow().clone(), p.borrow().clone());
            self.bodies.insert(d, v);
        }
        // Full analysis so that type and borrow errors are reported.
        for &d in &owners {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    if g.requires_monomorphization(tcx) {
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, d.to_def_id(), |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let inst = Instance::new_raw(d.to_def_id(), args);
                    let id = self.fn_id(inst);
                    self.roots.push(id);
                }
                _ => {}
            }
        }
        // Trait impls of local types.
        let mut impl_rows: Vec<(String, String)> = vec![];
        for (tr, impls) in tcx.all_local_trait_impls(()) {
            for i in impls {
                let items: Vec<String> = tcx
                    .associated_items(i.to_def_id())
                    .in_definition_order()
                    .filter_map(|it| it.opt_name().map(|n| esc(n.as_str())))
                    .collect();
                let self_ty = with_no_trimmed_paths!(format!(
                    "{}",
                    tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip()
                ));
                let t = self.path(*tr);
                impl_rows.push((
                    format!("{t} for {self_ty}"),
                    format!(
                        "{{\"trait\":{},\"self\":{},\"items\":[{}]}}",
                        esc(&t),
                        esc(&self_ty),
                        items.join(",")
                    ),
                ));
            }
        }
        impl_rows.sort();
        for &d in &owners {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let m = mutability.is_mut() || !t.is_freeze(tcx, self.env);
                self.statics.push(format!(
                    "{{\"p\":{},\"mut\":{m},\"ty\":{},\"file\":{}}}",
                    esc(&self.path(d.to_def_id())),
                    esc(&format!("{t}")),
                    esc(&format!("{:?}", tcx.def_span(d)))
                ));
            }
        }
        self.impls = impl_rows.into_iter().map(|x| x.1).collect();
        while let Some((inst, id)) = self.queue.pop_front() {
            let j = self.dump_fn(inst, id);
            self.fn_json.push((id, j));
        }
    }

    fn finish(&mut self) -> String {
        self.fn_json.sort_by_key(|x| x.0);
        let mut s = String::new();
        s.push_str("{\"types\":[\n");
        s.push_str(&self.ty_json.join(",\n"));
        s.push_str("],\n\"adts\":{\n");
        s.push_str(&self.adt_json.join(",\n"));
        s.push_str("},\n\"fns\":[\n");
        let v: Vec<&str> = self.fn_json.iter().map(|x| x.1.as_str()).collect();
        s.push_str(&v.join(",\n"));
        let _ = write!(
            s,
            "],\n\"roots\":[{}],\n\"impls\":[{}],\n\"statics\":[{}]}}\n",
            self.roots.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            self.impls.join(",\n"),
            self.statics.join(",\n")
        );
        s
    }

    fn fn_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.fns.get(&i) {
            return x;
        }
        let id = self.fns.len();
        self.fns.insert(i, id);
        self.queue.push_back((i, id));
        id
    }

    // ---------------------------------------------------------------- types

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&x) = self.tys.get(&t) {
            return x;
        }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let disp = with_no_trimmed_paths!(format!("{t}"));
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":[{}]}}", esc(&self.path(def.did())), a)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(t);
                format!("{{\"k\":\"ref\",\"t\":{i},\"m\":{}}}", m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(t);
                format!("{{\"k\":\"ptr\",\"t\":{i},\"m\":{}}}", m.is_mut())
            }
            ty::Slice(t) => {
                let i = self.ty(t);
                format!("{{\"k\":\"slice\",\"t\":{i}}}")
            }
            ty::Array(t, n) => {
                let i = self.ty(t);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"k\":\"array\",\"t\":{i},\"n\":{n}}}")
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"ts\":[{}]}}", v.join(","))
            }
            ty::Closure(d, args) => {
                let f = if d.is_local() {
                    self.fn_id(Instance::new_raw(d, args)) as i64
                } else {
                    -1
                };
                let names: Vec<String> = if let Some(l) = d.as_local() {
                    self.tcx
                        .closure_captures(l)
                        .iter()
                        .map(|c| esc(c.to_symbol().as_str()))
                        .collect()
                } else {
                    vec![]
                };
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!(
                    "{{\"k\":\"closure\",\"fn\":{f},\"names\":[{}],\"up\":[{}]}}",
                    names.join(","),
                    up.join(",")
                )
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.no_bound_vars().expect("bound fndef"));
                format!("{{\"k\":\"fndef\",\"f\":{c}}}")
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"p\":{}}}", esc(&disp)),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                format!("{{\"k\":\"prim\",\"p\":{}}}", esc(&disp))
            }
            _ => format!("{{\"k\":\"other\",\"p\":{}}}", esc(&disp)),
        };
        let mut j = j;
        j.pop();
        let _ = write!(j, ",\"s\":{}}}", esc(&disp));
        self.ty_json[id] = j;
        id
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        v.join(",")
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let krate = tcx.crate_name(d.krate);
        let deep = d.is_local() || matches!(krate.as_str(), "syn" | "derive_utils");
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec!["0".into()]
        };
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &v.fields {
                let mut text = String::new();
                let t = if deep {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    if d.is_local() {
                        text = format!("{ft}");
                    }
                    if ft.has_param() { -1 } else { self.ty(ft) as i64 }
                } else {
                    -1
                };
                fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, esc(&text)));
            }
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                esc(v.name.as_str()),
                discrs[i.index()],
                fs.join(",")
            ));
        }
        self.adt_json.push(format!(
            "{}:{{\"kind\":\"{kind}\",\"local\":{},\"crate\":{},\"vs\":[{}]}}",
            esc(&self.path(d)),
            d.is_local(),
            esc(krate.as_str()),
            vs.join(",")
        ));
    }

    // -------------------------------------------------------------- callees

    fn want_external(&self, d: DefId) -> bool {
        let k = self.tcx.crate_name(d.krate);
        if k.as_str() != "core" {
            return false;
        }
        let p = self.path(d);
        (p.starts_with("std::option::Option::<")
            || p.starts_with("std::result::Result::<")
            || p.starts_with("core::bool::")
            || p.starts_with("core::option::Option::<")
            || p.starts_with("core::result::Result::<"))
            && self.tcx.is_mir_available(d)
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(s, "{{\"p\":{}", esc(&self.path(d)));
        let _ = write!(
            s,
            ",\"n\":{}",
            esc(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str())
        );
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", esc(&self.path(t)));
        }
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
        {
            let p = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(p) {
                DefKind::Variant => (tcx.parent(p), tcx.item_name(p).to_string()),
                _ => (p, tcx.item_name(p).to_string()),
            };
            self.adt(adt);
            let _ = write!(s, ",\"ctor\":[{},{}]", esc(&self.path(adt)), esc(&var));
        }
        let a = self.args(args);
        let _ = write!(s, ",\"a\":[{a}]");
        let _ = write!(s, ",\"c\":{}", esc(tcx.crate_name(d.krate).as_str()));
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if is_fn {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                match i.def {
                    ty::InstanceKind::Item(rd) => {
                        if rd.is_local() {
                            let id = self.fn_id(i);
                            let _ = write!(s, ",\"l\":{id}");
                        } else if self.want_external(rd) {
                            let id = self.fn_id(i);
                            let _ = write!(s, ",\"x\":{id}");
                        }
                        if rd != d {
                            let _ = write!(s, ",\"r\":{}", esc(&self.path(rd)));
                        }
                    }
                    ty::InstanceKind::Virtual(..) => {
                        let _ = write!(s, ",\"virt\":true");
                    }
                    _ => {}
                }
            }
        }
        s.push('}');
        s
    }

    // --------------------------------------------------------------- bodies

    fn dump_fn(&mut self, inst: Instance<'tcx>, id: usize) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut s = String::new();
        let _ = write!(s, "{{\"id\":{id},\"p\":{}", esc(&self.path(d)));
        let sp = tcx.def_span(d);
        let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let _ = write!(s, ",\"file\":{},\"line\":{}", esc(&file), loc.line);
        let _ = write!(s, ",\"local\":{}", d.is_local());
        let a = self.args(inst.args);
        if tcx.def_kind(d) != DefKind::Closure {
            let _ = write!(s, ",\"a\":[{a}]");
        }
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(s, ",\"n\":{}", esc(n.as_str()));
        }
        let _ = write!(s, ",\"kind\":{}", esc(&format!("{:?}", tcx.def_kind(d))));
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(t) = tcx.impl_opt_trait_id(im) {
                let _ = write!(s, ",\"impl_trait\":{}", esc(&self.path(t)));
            }
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = with_no_trimmed_paths!(format!("{st}"));
            let _ = write!(s, ",\"impl_self\":{}", esc(&st));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait_default\":{}", esc(&self.path(t)));
        }
        let (body, promoted) = if let Some(l) = d.as_local() {
            match self.bodies.get(&l) {
                Some(x) => x.clone(),
                None => {
                    s.push_str(",\"nobody\":true}");
                    return s;
                }
            }
        } else {
            (tcx.instance_mir(inst.def).clone(), IndexVec::new())
        };
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body),
        );
        let b = self.dump_body(&body);
        let _ = write!(s, ",\"body\":{b},\"promoted\":[");
        for (i, p) in promoted.into_iter().enumerate() {
            let p = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, p),
            );
            if i > 0 {
                s.push(',');
            }
            let b = self.dump_body(&p);
            s.push_str(&b);
        }
        s.push_str("]}");
        s
    }

    fn dump_body(&mut self, body: &Body<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{\"args\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let t = self.ty(l.ty);
            let _ = write!(s, "{t}");
        }
        s.push_str("],\"names\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    let _ = write!(s, "\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()));
                }
            }
        }
        s.push_str("},\"bb\":[\n");
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                s.push_str(",\n");
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                if let Some(j) = self.stmt(body, st) {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    s.push_str(&j);
                }
            }
            s.push_str("],\"t\":");
            let t = self.term(body, bb.terminator());
            s.push_str(&t);
            let loc = self
                .tcx
                .sess
                .source_map()
                .lookup_char_pos(bb.terminator().source_info.span.source_callsite().lo());
            let _ = write!(s, ",\"ln\":{}", loc.line);
            if bb.is_cleanup {
                s.push_str(",\"cl\":true");
            }
            s.push('}');
        }
        s.push_str("]}");
        s
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection {
            s.push(',');
            match e {
                ProjectionElem::Deref => {
                    let is_box = pt.ty.is_box();
                    s.push_str(if is_box { "[\"b\"]" } else { "[\"*\"]" });
                }
                ProjectionElem::Field(f, _) => {
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    match *pt.ty.kind() {
                        ty::Adt(def, _) if def.did().is_local() => {
                            let _ = write!(s, "[\"f\",{},{}]", esc(&name), esc(&self.path(def.did())));
                        }
                        _ => {
                            let _ = write!(s, "[\"f\",{}]", esc(&name));
                        }
                    }
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(s, "[\"ci\",{offset},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"ss\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(_, v) => {
                    let (name, adt) = match *pt.ty.kind() {
                        ty::Adt(def, _) => (def.variant(v).name.to_string(), self.path(def.did())),
                        _ => (v.as_usize().to_string(), String::new()),
                    };
                    let _ = write!(s, "[\"d\",{},{}]", esc(&name), esc(&adt));
                }
                _ => s.push_str("[\"o\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        s.push(']');
        s
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"rt\"}".into(),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().expect("bound fndef");
            let f = self.callee(d, args);
            return format!("{{\"k\":\"fn\",\"f\":{f}}}");
        }
        let ti = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"i\":{},\"t\":{ti}}}", p.as_usize());
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => self.path(u.def),
            _ => String::new(),
        };
        match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => {
                let j = self.const_value(v, t);
                format!("{{\"k\":\"const\",\"t\":{ti},\"n\":{},\"v\":{j}}}", esc(&name))
            }
            Err(_) => format!("{{\"k\":\"const\",\"t\":{ti},\"n\":{},\"v\":{{\"o\":1}}}}", esc(&name)),
        }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => {
                if let ty::Adt(..) = t.kind() {
                    return "{\"z\":1}".into();
                }
                "{\"z\":1}".into()
            }
            ConstValue::Scalar(Scalar::Int(i)) => self.int(i, t),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off.bytes() as usize, None, t)
            }
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, 0, Some(meta as usize), t),
            ConstValue::Indirect { alloc_id, offset } => {
                self.read(alloc_id, offset.bytes() as usize, t)
            }
        }
    }

    fn int(&mut self, i: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let sz = i.size();
        match t.kind() {
            ty::Bool => format!("{{\"b\":{}}}", i.to_bits(sz) != 0),
            ty::Char => {
                let c = char::from_u32(i.to_bits(sz) as u32).unwrap_or('?');
                format!("{{\"ch\":{}}}", esc(&c.to_string()))
            }
            ty::Int(_) => format!("{{\"i\":{}}}", i.to_int(sz)),
            ty::Uint(_) => format!("{{\"i\":{}}}", i.to_bits(sz)),
            ty::Adt(def, _) if def.is_enum() => {
                let bits = i.to_bits(sz);
                for (vi, d) in def.discriminants(self.tcx) {
                    if d.val == bits && def.variant(vi).fields.is_empty() {
                        return format!("{{\"var\":{}}}", esc(def.variant(vi).name.as_str()));
                    }
                }
                "{\"o\":1}".into()
            }
            _ => "{\"o\":1}".into(),
        }
    }

    fn pointee(&mut self, a: AllocId, off: usize, meta: Option<usize>, t: Ty<'tcx>) -> String {
        let inner = match t.kind() {
            ty::Ref(_, i, _) => *i,
            _ => return "{\"o\":1}".into(),
        };
        let j = match *inner.kind() {
            ty::Str => self.bytes(a, off, meta.unwrap_or(0)),
            ty::Slice(e) => self.seq(a, off, meta.unwrap_or(0), e),
            _ => self.read(a, off, inner),
        };
        format!("{{\"r\":{j}}}")
    }

    fn alloc_bytes(&self, a: AllocId) -> Option<rustc_middle::mir::interpret::ConstAllocation<'tcx>> {
        match self.tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Memory(m)) => Some(m),
            // an immutable static is as good as a constant
            Some(GlobalAlloc::Static(d)) => {
                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if self.tcx.is_mutable_static(d) || !t.is_freeze(self.tcx, self.env) {
                    return None;
                }
                self.tcx.eval_static_initializer(d).ok()
            }
            _ => None,
        }
    }

    fn bytes(&mut self, a: AllocId, off: usize, n: usize) -> String {
        let Some(m) = self.alloc_bytes(a) else { return "{\"o\":1}".into() };
        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
        format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b)))
    }

    fn seq(&mut self, a: AllocId, off: usize, n: usize, e: Ty<'tcx>) -> String {
        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(e)) else { return "{\"o\":1}".into() };
        let sz = l.size.bytes() as usize;
        let v: Vec<String> = (0..n).map(|i| self.read(a, off + i * sz, e)).collect();
        format!("{{\"a\":[{}]}}", v.join(","))
    }

    fn read(&mut self, a: AllocId, off: usize, t: Ty<'tcx>) -> String {
        let Some(m) = self.alloc_bytes(a) else { return "{\"o\":1}".into() };
        let m = m.inner();
        let le = |o: usize, n: usize| -> u128 {
            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
            let mut x = 0u128;
            for (i, v) in b.iter().enumerate() {
                x |= (*v as u128) << (8 * i);
            }
            x
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sz = self.tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                let x = le(off, sz.bytes() as usize);
                let i = ty::ScalarInt::try_from_uint(x, sz).unwrap();
                self.int(i, t)
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                self.seq(a, off, n, e)
            }
            ty::Ref(_, inner, _) => {
                let ps = 8;
                let prov = m
                    .provenance()
                    .ptrs()
                    .iter()
                    .find(|(o, _)| o.bytes() as usize == off)
                    .map(|x| x.1.alloc_id());
                let Some(p) = prov else { return "{\"o\":1}".into() };
                let base = le(off, ps) as usize;
                let meta = match inner.kind() {
                    ty::Str | ty::Slice(_) => Some(le(off + ps, ps) as usize),
                    _ => None,
                };
                self.pointee(p, base, meta, t)
            }
            _ => "{\"o\":1}".into(),
        }
    }

    fn stmt(&mut self, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<String> {
        match &st.kind {
            // borrows that only keep match guards from changing the scrutinee
            StatementKind::Assign(x) if matches!(x.1, Rvalue::Ref(_, BorrowKind::Fake(_), _)) => None,
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                let pj = self.place(body, p);
                let rj = self.rvalue(body, r);
                Some(format!("[\"=\",{pj},{rj}]"))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(body, place);
                Some(format!("[\"sd\",{pj},{}]", variant_index.as_usize()))
            }
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
            _ => None,
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                format!("[\"rep\",{},{n}]", self.operand(body, o))
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{m}]", self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => {
                let s = self.place(body, p);
                format!("[\"use\",{{\"c\":{s}}}]")
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("ptr:{c:?}"),
                    k => format!("{k:?}"),
                };
                let ks = ks.split('(').next().unwrap_or("").to_string();
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{ti}]", esc(&ks), self.operand(body, o))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{op:?}")),
                self.operand(body, &ab.0),
                self.operand(body, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(body, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"disc\",{},{ti}]", self.place(body, p))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let fs: Vec<String> =
                            vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "[\"adt\",{},{},[{}]]",
                            esc(&self.path(*d)),
                            esc(vd.name.as_str()),
                            fs.join(",")
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        format!("[\"closure\",{ti}]")
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{kj},[{}]]", v.join(","))
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_usize())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_usize())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> =
                    targets.iter().map(|(v, b)| format!("[{v},{}]", b.as_usize())).collect();
                let dt = discr.ty(&body.local_decls, self.tcx);
                let ti = self.ty(dt);
                format!(
                    "[\"sw\",{},[{}],{},{ti}]",
                    self.operand(body, discr),
                    v.join(","),
                    targets.otherwise().as_usize()
                )
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                let mut glue = String::new();
                if let ty::Adt(def, args) = *t.kind() {
                    if def.did().is_local() {
                        if let Some(dtor) = self.tcx.adt_destructor(def.did()) {
                            if !args.types().next().is_some() {
                                let dargs = ty::GenericArgs::for_item(self.tcx, dtor.did, |_, _| {
                                    self.tcx.lifetimes.re_erased.into()
                                });
                                let id = self.fn_id(Instance::new_raw(dtor.did, dargs));
                                glue = format!(",{id}");
                            }
                        }
                    }
                }
                format!("[\"drop\",{},{},{ti}{glue}]", self.place(body, place), target.as_usize())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let v: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                let f = self.operand(body, func);
                let dst = self.place(body, destination);
                let tg = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                format!("[\"call\",{f},[{}],{dst},{tg}]", v.join(","))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = format!("{msg:?}");
                let k = k.split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                format!(
                    "[\"assert\",{},{expected},{},{}]",
                    self.operand(body, cond),
                    esc(&k),
                    target.as_usize()
                )
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
            _ => "[\"other\"]".into(),
        }
    }
}

use rustc_middle::ty::TypeVisitableExt as _;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    let mut cb = Cb { out };
    let code = rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
