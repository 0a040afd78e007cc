//! rustc driver that dumps the type-checked program (MIR, types, impls) of the analysed crates as JSON.
//! Used as RUSTC_WRAPPER: `driver <rustc> <args...>`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};

const CRATES: &[&str] = &["dess", "dess_examples", "dess_pyo3", "dess_probe", "dess_proc_macros"];

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    fns: Map<String, Value>,
    consts: Map<String, Value>,
    adts: Map<String, Value>,
    adt_queue: VecDeque<Ty<'tcx>>,
    types: HashMap<String, ()>,
    type_table: Map<String, Value>,
}

fn crate_is_user(tcx: TyCtxt<'_>, d: DefId) -> bool {
    CRATES.contains(&tcx.crate_name(d.krate).as_str())
}

impl<'tcx> Dumper<'tcx> {
    fn path_args(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let p = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str_with_args(d, a)
        )));
        let mut p = p.replace("crate::", &format!("{}::", self.tcx.crate_name(LOCAL_CRATE)));
        // functions of the same name in different blocks of one body
        let mut cur = d;
        loop {
            if matches!(self.tcx.def_kind(cur), DefKind::Fn) {
                let n = self.tcx.def_key(cur).disambiguated_data.disambiguator;
                if n > 0 {
                    p.push_str(&format!("#{}", n));
                }
            }
            if let DefKind::Impl { .. } = self.tcx.def_kind(cur) {
                let st = self.tcx.type_of(cur).instantiate_identity().skip_norm_wip();
                if let ty::Adt(def, _) = st.kind() {
                    let n = self.tcx.def_key(def.did()).disambiguated_data.disambiguator;
                    if n > 0 {
                        p.push_str(&format!("#{}", n));
                    }
                }
            }
            match self.tcx.opt_parent(cur) {
                Some(x) => cur = x,
                None => break,
            }
        }
        p
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let p = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            format!("{}", t)
        )));
        let mut p = p.replace("crate::", &format!("{}::", self.tcx.crate_name(LOCAL_CRATE)));
        if let ty::Adt(def, _) = t.kind() {
            // types of the same name in different blocks of one body
            let n = self.tcx.def_key(def.did()).disambiguated_data.disambiguator;
            if n > 0 {
                p.push_str(&format!("#{}", n));
            }
        }
        p
    }
    fn defpath(&self, d: DefId) -> String {
        let p = ty::print::with_crate_prefix!(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        )));
        p.replace("crate::", &format!("{}::", self.tcx.crate_name(LOCAL_CRATE)))
    }
    /// registers the type in the type table and returns its key
    fn ty(&mut self, t: Ty<'tcx>) -> Value {
        let key = self.tystr(t);
        if self.types.insert(key.clone(), ()).is_none() {
            let v = self.ty_desc(t);
            self.type_table.insert(key.clone(), v);
        }
        json!(key)
    }
    fn ty_desc(&mut self, t: Ty<'tcx>) -> Value {
        match t.kind() {
            ty::Bool => json!({"k":"bool"}),
            ty::Char => json!({"k":"char"}),
            ty::Int(i) => json!({"k":"int","n":i.name_str()}),
            ty::Uint(i) => json!({"k":"uint","n":i.name_str()}),
            ty::Float(f) => json!({"k":"float","n":f.name_str()}),
            ty::Str => json!({"k":"str"}),
            ty::Never => json!({"k":"never"}),
            ty::Adt(def, args) => {
                let a: Vec<Value> = args.types().map(|x| self.ty(x)).collect();
                let p = self.defpath(def.did());
                self.adt_queue.push_back(t);
                json!({"k":"adt","path":p,"args":a,"box":def.is_box()})
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                json!({"k":"array","elem":e,"len": n.try_to_target_usize(self.tcx)})
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                json!({"k":"slice","elem":e})
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                json!({"k":"rawptr","to":e,"mut":m.is_mut()})
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                json!({"k":"ref","to":e,"mut":m.is_mut()})
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let args: Vec<Value> = a.types().map(|x| self.ty(x)).collect();
                json!({"k":"fndef","path":self.defpath(*d),"args":args})
            }
            ty::FnPtr(..) => json!({"k":"fnptr"}),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.defpath(d));
                json!({"k":"dyn","trait":p})
            }
            ty::Closure(d, a) => {
                let up: Vec<Value> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                json!({"k":"closure","path":self.defpath(*d),"upvars":up})
            }
            ty::Tuple(ts) => {
                let v: Vec<Value> = ts.iter().map(|x| self.ty(x)).collect();
                json!({"k":"tuple","elems":v})
            }
            ty::Param(p) => json!({"k":"param","n":p.name.as_str()}),
            ty::Alias(..) => json!({"k":"alias","s":self.tystr(t)}),
            _ => json!({"k":"other","s":self.tystr(t)}),
        }
    }
    fn process_adts(&mut self) {
        while let Some(t) = self.adt_queue.pop_front() {
            let ty::Adt(def, args) = t.kind() else { continue };
            let key = self.tystr(t);
            if self.adts.contains_key(&key) {
                continue;
            }
            let did = def.did();
            let cname = self.tcx.crate_name(did.krate);
            let user = crate_is_user(self.tcx, did);
            self.adts.insert(key.clone(), Value::Null);
            let mut vars = vec![];
            for v in def.variants() {
                let mut fs = vec![];
                for f in &v.fields {
                    let fty = f.ty(self.tcx, args).skip_norm_wip();
                    let fty = self
                        .tcx
                        .try_normalize_erasing_regions(
                            TypingEnv::fully_monomorphized(),
                            ty::Unnormalized::new_wip(fty),
                        )
                        .unwrap_or(fty);
                    let k = self.ty(fty);
                    let mut attrs: Vec<String> = vec![];
                    if let Some(ld) = f.did.as_local() {
                        let h = self.tcx.local_def_id_to_hir_id(ld);
                        for a in self.tcx.hir_attrs(h) {
                            if let rustc_attr_ir::Attribute::DeriveHelper(it) | rustc_attr_ir::Attribute::Tool(it) = a {
                                attrs.push(it.path.segments.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("::"));
                            }
                        }
                    }
                    fs.push(json!({"name":f.name.as_str(),"ty":k,"pub":f.vis.is_public(),"attrs":attrs}));
                }
                vars.push(json!({"name":v.name.as_str(),"fields":fs}));
            }
            let kind = if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" };
            let a: Vec<Value> = args.types().map(|x| self.ty(x)).collect();
            self.adts.insert(
                key,
                json!({"path":self.defpath(did),"crate":cname.as_str(),"user":user,"kind":kind,"args":a,
                       "variants":vars,"span":self.span(self.tcx.def_span(did))}),
            );
        }
    }
    fn span(&self, s: Span) -> Value {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let loc = sm.lookup_char_pos(s.lo());
        json!(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        match i.def {
            ty::InstanceKind::Item(d) => self.path_args(d, i.args),
            _ => format!("{:?}", i),
        }
    }

    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.inst_key(i);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((i, env));
        }
        k
    }

    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            ty::InstanceKind::Item(d) => {
                crate_is_user(self.tcx, d)
                    && self.tcx.is_mir_available(d)
                    && !self.tcx.is_foreign_item(d)
                    && !self.tcx.intrinsic(d).is_some()
            }
            _ => false,
        }
    }

    fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Value {
        // callee description: declared path, trait, self type, resolved instance
        let mut o = Map::new();
        o.insert("path".into(), json!(self.defpath(d)));
        let args: Vec<Value> = a.types().map(|x| self.ty(x)).collect();
        o.insert("args".into(), json!(args));
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.insert("trait".into(), json!(self.defpath(t)));
            o.insert("name".into(), json!(self.tcx.item_name(d).as_str()));
        } else if let Some(n) = self.tcx.opt_item_name(d) {
            o.insert("name".into(), json!(n.as_str()));
        }
        let kind = self.tcx.def_kind(d);
        if let DefKind::Ctor(..) = kind {
            let parent = self.tcx.parent(d);
            let (adt_did, vidx) = match self.tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = self.tcx.parent(parent);
                    let ad = self.tcx.adt_def(adt);
                    (adt, ad.variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            o.insert("ctor".into(), json!([self.defpath(adt_did), vidx]));
            return Value::Object(o);
        }
        o.insert("foreign".into(), json!(self.tcx.is_foreign_item(d)));
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, a) {
            o.insert("rpath".into(), json!(self.defpath(i.def_id())));
            if self.has_body(i) {
                let k = self.enqueue(i, env);
                o.insert("inst".into(), json!(k));
            } else {
                // closures called through FnOnce/FnMut/Fn on user types are handled by the analyser
                o.insert("rcrate".into(), json!(self.tcx.crate_name(i.def_id().krate).as_str()));
            }
        }
        Value::Object(o)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let t = c.const_.ty();
        let tk = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            return json!({"k":"fn","f":self.fnref(*d, a, env)});
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let key = format!("{}::promoted[{}]", self.path_args(u.def, u.args), p.as_usize());
                if !self.consts.contains_key(&key) {
                    self.consts.insert(key.clone(), Value::Null);
                    let bodies = self.tcx.promoted_mir(u.def);
                    if let Some(b) = bodies.get(p) {
                        let b = b.clone();
                        let v = self.inst_body(b, u.def, u.args, env);
                        self.consts.insert(key.clone(), v);
                    }
                }
                return json!({"k":"const","key":key,"ty":tk});
            }
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                let mut r = self.constval(v, t, env);
                if r.is_null() {
                    if let mir::Const::Unevaluated(u, _) = c.const_ {
                        if crate_is_user(self.tcx, u.def) {
                            let key = self.path_args(u.def, u.args);
                            if !self.consts.contains_key(&key) {
                                self.consts.insert(key.clone(), Value::Null);
                                if u.def.is_local() {
                                    let b = self.tcx.mir_for_ctfe(u.def).clone();
                                    let v = self.inst_body(b, u.def, u.args, env);
                                    self.consts.insert(key.clone(), v);
                                }
                            }
                            return json!({"k":"const","key":key,"ty":tk});
                        }
                    }
                    r = json!({"k":"opaque","s":format!("{}", c.const_),"ty":tk});
                }
                r
            }
            Err(_) => {
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    let key = self.path_args(u.def, u.args);
                    if crate_is_user(self.tcx, u.def) && !self.consts.contains_key(&key) && u.def.is_local() {
                        self.consts.insert(key.clone(), Value::Null);
                        let b = self.tcx.mir_for_ctfe(u.def).clone();
                        let v = self.inst_body(b, u.def, u.args, env);
                        self.consts.insert(key.clone(), v);
                    }
                    return json!({"k":"const","key":key,"ty":tk});
                }
                json!({"k":"opaque","s":format!("{}", c.const_),"ty":tk})
            }
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let tk = self.ty(t);
        match v {
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = t.kind() {
                    let a = a.skip_binder();
                    return json!({"k":"fn","f":self.fnref(*d, a, env)});
                }
                json!({"k":"zst","ty":tk})
            }
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                json!({"k":"scalar","bits":format!("{}", i.to_bits_unchecked()),"size":i.size().bytes(),"ty":tk})
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                // reference to something in memory
                let (prov, off) = p.into_raw_parts();
                self.decode_ptr(prov.alloc_id(), off.bytes(), t, None, env)
            }
            ConstValue::Slice { alloc_id, meta } => self.decode_ptr(alloc_id, 0, t, Some(meta), env),
            ConstValue::Indirect { alloc_id, offset } => {
                let r = self.decode_mem(alloc_id, offset.bytes(), t, env);
                if r.is_null() { Value::Null } else { r }
            }
        }
    }

    fn decode_ptr(
        &mut self,
        id: interpret::AllocId,
        off: u64,
        t: Ty<'tcx>,
        meta: Option<u64>,
        env: TypingEnv<'tcx>,
    ) -> Value {
        let tk = self.ty(t);
        let to = match t.kind() {
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => *e,
            ty::FnPtr(..) => {
                if let interpret::GlobalAlloc::Function { instance } = self.tcx.global_alloc(id) {
                    return json!({"k":"fn","f":self.fnref(instance.def_id(), instance.args, env)});
                }
                return Value::Null;
            }
            _ => return Value::Null,
        };
        match self.tcx.global_alloc(id) {
            interpret::GlobalAlloc::Static(d) => return json!({"k":"static","path":self.defpath(d),"ty":tk}),
            interpret::GlobalAlloc::Function { instance } => {
                return json!({"k":"fn","f":self.fnref(instance.def_id(), instance.args, env)})
            }
            interpret::GlobalAlloc::Memory(_) => {}
            _ => return Value::Null,
        }
        match to.kind() {
            ty::Str => {
                let interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return Value::Null };
                let a = a.inner();
                let n = meta.unwrap_or(0) as usize;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + n);
                json!({"k":"str","s":String::from_utf8_lossy(b)})
            }
            ty::Slice(e) => {
                let e = *e;
                let n = meta.unwrap_or(0);
                let Ok(l) = self.tcx.layout_of(env.as_query_input(e)) else { return Value::Null };
                let sz = l.size.bytes();
                let mut items = vec![];
                if n > 4096 {
                    return Value::Null;
                }
                for i in 0..n {
                    items.push(self.decode_mem(id, off + i * sz, e, env));
                }
                json!({"k":"refto","v":{"k":"list","items":items},"ty":tk})
            }
            _ => {
                let v = self.decode_mem(id, off, to, env);
                if v.is_null() {
                    return Value::Null;
                }
                json!({"k":"refto","v":v,"ty":tk})
            }
        }
    }

    fn decode_mem(&mut self, id: interpret::AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let interpret::GlobalAlloc::Memory(alloc) = self.tcx.global_alloc(id) else { return Value::Null };
        let a = alloc.inner();
        let tk = self.ty(t);
        let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return Value::Null };
        let sz = l.size.bytes();
        if off + sz > a.size().bytes() {
            return Value::Null;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + sz) as usize);
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                json!({"k":"scalar","bits":format!("{}", v),"size":sz,"ty":tk})
            }
            ty::Ref(_, to, _) => {
                let ptr_sz = self.tcx.data_layout.pointer_size().bytes();
                let Some(prov) = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)) else {
                    return Value::Null;
                };
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + ptr_sz) as usize);
                let mut o: u64 = 0;
                for (i, x) in b.iter().enumerate() {
                    o |= (*x as u64) << (8 * i);
                }
                let meta = if matches!(to.kind(), ty::Str | ty::Slice(_)) {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                        (off + ptr_sz) as usize..(off + 2 * ptr_sz) as usize,
                    );
                    let mut m: u64 = 0;
                    for (i, x) in b.iter().enumerate() {
                        m |= (*x as u64) << (8 * i);
                    }
                    Some(m)
                } else {
                    None
                };
                self.decode_ptr(prov.alloc_id(), o, t, meta, env)
            }
            ty::Array(e, n) => {
                let e = *e;
                let Some(n) = n.try_to_target_usize(self.tcx) else { return Value::Null };
                let Ok(el) = self.tcx.layout_of(env.as_query_input(e)) else { return Value::Null };
                let mut items = vec![];
                for i in 0..n.min(4096) {
                    items.push(self.decode_mem(id, off + i * el.size.bytes(), e, env));
                }
                json!({"k":"list","items":items})
            }
            ty::Tuple(ts) => {
                let mut items = vec![];
                for (i, e) in ts.iter().enumerate() {
                    let o = l.fields.offset(i).bytes();
                    items.push(self.decode_mem(id, off + o, e, env));
                }
                json!({"k":"tuple","items":items})
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut items = vec![];
                let fs: Vec<_> = def.non_enum_variant().fields.iter().map(|f| f.ty(self.tcx, args).skip_norm_wip()).collect();
                for (i, e) in fs.into_iter().enumerate() {
                    let e = self
                        .tcx
                        .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(e))
                        .unwrap_or(e);
                    let o = l.fields.offset(i).bytes();
                    items.push(self.decode_mem(id, off + o, e, env));
                }
                json!({"k":"struct","items":items,"ty":tk})
            }
            ty::FnPtr(..) => {
                let Some(prov) = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)) else {
                    return Value::Null;
                };
                if let interpret::GlobalAlloc::Function { instance } = self.tcx.global_alloc(prov.alloc_id()) {
                    return json!({"k":"fn","f":self.fnref(instance.def_id(), instance.args, env)});
                }
                Value::Null
            }
            _ => json!({"k":"opaque","s":"mem","ty":tk}),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!({"k":"copy","p":self.place(p)}),
            Operand::Move(p) => json!({"k":"move","p":self.place(p)}),
            Operand::Constant(c) => self.konst(c, env),
            Operand::RuntimeChecks(r) => json!({"k":"rtcheck","s":format!("{:?}", r)}),
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> Value {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => json!(["*"]),
                ProjectionElem::Field(f, _) => json!(["f", f.as_usize()]),
                ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => json!(["ci", offset, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(_, v) => json!(["d", v.as_usize()]),
                _ => json!(["?"]),
            });
        }
        json!([p.local.as_usize(), pr])
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!({"k":"use","o":self.operand(o, env)}),
            Rvalue::Repeat(o, n) => {
                json!({"k":"repeat","o":self.operand(o, env),"n":n.try_to_target_usize(self.tcx)})
            }
            Rvalue::Ref(_, bk, p) => {
                json!({"k":"ref","mut":matches!(bk, BorrowKind::Mut{..}),"p":self.place(p)})
            }
            Rvalue::RawPtr(_, p) => json!({"k":"ref","mut":true,"raw":true,"p":self.place(p)}),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, env);
                json!({"k":"cast","ck":format!("{:?}", k),"o":o,"ty":self.ty(*t)})
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                json!({"k":"bin","op":format!("{:?}", op),"a":self.operand(x, env),"b":self.operand(y, env)})
            }
            Rvalue::UnaryOp(op, x) => json!({"k":"un","op":format!("{:?}", op),"a":self.operand(x, env)}),
            Rvalue::Discriminant(p) => json!({"k":"discr","p":self.place(p)}),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kd = match &**k {
                    AggregateKind::Array(_) => json!({"k":"array"}),
                    AggregateKind::Tuple => json!({"k":"tuple"}),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, a);
                        json!({"k":"adt","path":self.defpath(*d),"v":v.as_usize(),"ty":self.ty(t),
                               "enum":def.is_enum(),"af":af.map(|x| x.as_usize())})
                    }
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, a);
                        let key = if crate_is_user(self.tcx, *d) { Some(self.enqueue(inst, env)) } else { None };
                        json!({"k":"closure","inst":key})
                    }
                    AggregateKind::RawPtr(..) => json!({"k":"rawptr"}),
                    _ => json!({"k":"other"}),
                };
                json!({"k":"agg","ak":kd,"ops":ops})
            }
            Rvalue::CopyForDeref(p) => json!({"k":"use","o":{"k":"copy","p":self.place(p)}}),
            Rvalue::ThreadLocalRef(d) => json!({"k":"tls","path":self.defpath(*d)}),
            Rvalue::Reborrow(_, m, p) => json!({"k":"ref","mut":m.is_mut(),"p":self.place(p)}),
            Rvalue::WrapUnsafeBinder(o, _) => json!({"k":"use","o":self.operand(o, env)}),
        }
    }

    fn inst_body(&mut self, b: Body<'tcx>, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let inst = Instance::new_raw(d, a);
        let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            env,
            ty::EarlyBinder::bind(self.tcx, b.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return Value::Null,
        };
        self.body(&b, env)
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> Value {
        let locals: Vec<Value> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Map::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), json!(v.name.as_str()));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let r = self.rvalue(r, env);
                        st.push(json!(["=", self.place(p), r, self.span(s.source_info.span)]));
                    }
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l.as_usize()])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!(["sd", self.place(place), variant_index.as_usize()]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => json!(b.as_usize()),
                _ => Value::Null,
            };
            let tv = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!({"k":"goto","t":target.as_usize()}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<Value> =
                        targets.iter().map(|(v, t)| json!([v.to_string(), t.as_usize()])).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    json!({"k":"switch","o":self.operand(discr, env),"ty":self.ty(dt),"ts":ts,"else":targets.otherwise().as_usize(),"sp":sp})
                }
                TerminatorKind::Return => json!({"k":"ret"}),
                TerminatorKind::Unreachable => json!({"k":"unreachable"}),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let dt = place.ty(&b.local_decls, self.tcx).ty;
                    json!({"k":"drop","p":self.place(place),"t":target.as_usize(),"ty":self.ty(dt),"u":unw(unwind)})
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let av: Vec<Value> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let at: Vec<Value> =
                        args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); self.ty(t) }).collect();
                    let rt = destination.ty(&b.local_decls, self.tcx).ty;
                    json!({"k":"call","f":f,"args":av,"aty":at,"rty":self.ty(rt),"dest":self.place(destination),
                           "t":target.map(|t| t.as_usize()),"sp":sp,"u":unw(unwind)})
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, env);
                    let av: Vec<Value> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    json!({"k":"tailcall","f":f,"args":av,"sp":sp})
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference | AssertKind::InvalidEnumConstruction(_) => "pointer",
                        AssertKind::ResumedAfterReturn(..) | AssertKind::ResumedAfterPanic(..) | AssertKind::ResumedAfterDrop(..) => "other",
                        AssertKind::NullReferenceConstructed => "pointer",
                    };
                    json!({"k":"assert","c":self.operand(cond, env),"e":expected,"m":m,"t":target.as_usize(),"sp":sp})
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => json!({"k":"resume"}),
                TerminatorKind::FalseEdge { real_target, .. } => json!({"k":"goto","t":real_target.as_usize()}),
                TerminatorKind::FalseUnwind { real_target, .. } => json!({"k":"goto","t":real_target.as_usize()}),
                _ => json!({"k":"other","s":format!("{:?}", t.kind)}),
            };
            blocks.push(json!({"s":st,"t":tv,"c":bb.is_cleanup}));
        }
        json!({"argc":b.arg_count,"locals":locals,"names":names,"blocks":blocks,"span":self.span(b.span)})
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        // roots: every local function, closure
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                if matches!(k, DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::Static { .. }) {
                    self.const_item(d);
                }
                continue;
            }
            if tcx.is_constructor(d) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let i = Instance::new_raw(d, args);
            if k == DefKind::Closure {
                // reached through their parents
                continue;
            }
            self.enqueue(i, env);
        }
        // the provided methods of user traits, for every type that implements the trait without overriding them
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Impl { of_trait: true }) || tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            let tr = tcx.erase_and_anonymize_regions(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip());
            if !crate_is_user(tcx, tr.def_id) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            for m in tcx.associated_item_def_ids(tr.def_id) {
                if tcx.def_kind(*m) != DefKind::AssocFn || !tcx.is_mir_available(*m) {
                    continue;
                }
                let n = tr.args.len();
                let own = tcx.generics_of(*m);
                if own.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let args = ty::GenericArgs::for_item(tcx, *m, |p, _| {
                    if (p.index as usize) < n { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                });
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *m, args) {
                    if self.has_body(i) {
                        self.enqueue(i, env);
                    }
                }
            }
        }
        while let Some((i, env)) = self.queue.pop_front() {
            let d = i.def_id();
            if !tcx.is_mir_available(d) {
                continue;
            }
            let b = tcx.instance_mir(i.def).clone();
            let key = self.inst_key(i);
            let mut v = self.inst_body(b, d, i.args, env);
            if let Value::Object(o) = &mut v {
                o.insert("path".into(), json!(self.defpath(d)));
                o.insert("local".into(), json!(d.is_local()));
                o.insert("crate".into(), json!(tcx.crate_name(d.krate).as_str()));
                if let Some(n) = tcx.opt_item_name(d) {
                    o.insert("name".into(), json!(n.as_str()));
                }
                let ga: Vec<Value> = i.args.types().map(|x| self.ty(x)).collect();
                o.insert("gargs".into(), json!(ga));
                let kd = tcx.def_kind(d);
                o.insert("kind".into(), json!(format!("{:?}", kd)));
                if kd == DefKind::AssocFn {
                    let parent = tcx.parent(d);
                    match tcx.def_kind(parent) {
                        DefKind::Trait => {
                            o.insert("trait_default".into(), json!(self.defpath(parent)));
                        }
                        DefKind::Impl { of_trait } => {
                            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                            o.insert("impl_self".into(), self.ty(st));
                            if of_trait {
                                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                                o.insert("impl_trait".into(), json!(self.defpath(tr.def_id)));
                            }
                        }
                        _ => {}
                    }
                }
                if matches!(kd, DefKind::Fn | DefKind::AssocFn) {
                    let g = tcx.generics_of(d);
                    o.insert("generic".into(), json!(g.requires_monomorphization(tcx)));
                    o.insert("pub".into(), json!(tcx.visibility(d).is_public()));
                    let names: Vec<Value> = tcx
                        .fn_arg_idents(d)
                        .iter()
                        .map(|n| n.map(|i| json!(i.name.as_str())).unwrap_or(Value::Null))
                        .collect();
                    o.insert("argnames".into(), json!(names));
                }
                o.insert("defspan".into(), self.span(tcx.def_span(d)));
            }
            self.fns.insert(key, v);
        }
        self.process_adts();
    }

    fn const_item(&mut self, d: DefId) {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
        if !d.is_local() {
            return;
        }
        let _ = g;
        let b = tcx.mir_for_ctfe(d).clone();
        let key = self.path_args(d, args);
        if self.consts.get(&key).map(|v| !v.is_null()).unwrap_or(false) {
            return;
        }
        self.consts.insert(key.clone(), Value::Null);
        let mut v = self.inst_body(b, d, args, env);
        if let Value::Object(o) = &mut v {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            o.insert("cty".into(), self.ty(t));
            o.insert("kind".into(), json!(format!("{:?}", tcx.def_kind(d))));
            o.insert("defspan".into(), self.span(tcx.def_span(d)));
        }
        self.consts.insert(key, v);
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Some(dir) = &self.out else { return rustc_driver::Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dumper {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fns: Map::new(),
            consts: Map::new(),
            adts: Map::new(),
            adt_queue: VecDeque::new(),
            types: HashMap::new(),
            type_table: Map::new(),
        };
        // all local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                d.ty(t);
            }
        }
        d.run();
        d.process_adts();
        // trait impls of local types
        let mut impls = vec![];
        let mut statics = vec![];
        let mut unsafes = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let methods: Vec<Value> = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|m| json!([tcx.opt_item_name(*m).map(|n| n.to_string()), d.defpath(*m)]))
                        .collect();
                    let targs: Vec<Value> = tr.args.types().map(|x| d.ty(x)).collect();
                    impls.push(json!({"trait":d.defpath(tr.def_id),"self":d.ty(st),"targs":targs,"items":methods,
                                      "unsafe":tcx.impl_trait_header(did).safety.is_unsafe(),
                                      "span":d.span(tcx.def_span(did))}));
                }
                DefKind::Static { mutability, .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    statics.push(json!({"path":d.defpath(did),"mut":mutability.is_mut(),"ty":d.ty(st),
                                        "freeze":st.is_freeze(tcx, TypingEnv::post_analysis(tcx, did)),
                                        "span":d.span(tcx.def_span(did))}));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    if sig.safety().is_unsafe() {
                        unsafes.push(json!({"path":d.defpath(did),"span":d.span(tcx.def_span(did))}));
                    }
                }
                _ => {}
            }
        }
        // unsafe blocks in HIR
        struct V<'a, 'tcx> { d: &'a Dumper<'tcx>, out: Vec<Value>, owner: String, tcx: TyCtxt<'tcx> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(s) = b.rules {
                    let mac = b.span.ctxt().outer_expn_data().macro_def_id.map(|m| self.tcx.crate_name(m.krate).to_string());
                    self.out.push(json!({"owner":self.owner,"user":format!("{:?}", s),"span":self.d.span(b.span),
                                         "expn":b.span.from_expansion(),"macro":mac}));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut ublocks = vec![];
        for ld in tcx.hir_body_owners() {
            let Some(body) = tcx.hir_maybe_body_owned_by(ld) else { continue };
            let mut v = V { d: &d, out: vec![], owner: d.defpath(ld.to_def_id()), tcx };
            rustc_hir::intravisit::Visitor::visit_expr(&mut v, body.value);
            ublocks.extend(v.out);
        }
        // traits: methods, provided or required
        let mut traits = Map::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if tcx.def_kind(did) == DefKind::Trait {
                let ms: Vec<Value> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|m| json!([m.name().as_str(), m.defaultness(tcx).has_value()]))
                    .collect();
                traits.insert(d.defpath(did), json!(ms));
            }
        }
        let feats: Vec<String> = tcx
            .sess
            .config
            .iter()
            .filter(|(k, _)| k.as_str() == "feature")
            .filter_map(|(_, v)| v.map(|x| x.to_string()))
            .collect();
        let test = tcx.sess.is_test_crate();
        let ctypes = format!("{:?}", tcx.crate_types());
        let fns = std::mem::take(&mut d.fns);
        let consts = std::mem::take(&mut d.consts);
        let adts = std::mem::take(&mut d.adts);
        let types = std::mem::take(&mut d.type_table);
        let o = json!({"crate":name,"features":feats,"test":test,"crate_types":ctypes,"fns":fns,"consts":consts,"adts":adts,
                       "types":types,"impls":impls,"statics":statics,"unsafe_fns":unsafes,"unsafe_blocks":ublocks,"traits":traits});
        let bin = if ctypes.contains("Executable") { "-bin" } else { "" };
        let f = format!("{}/{}{}.json", dir, name, bin);
        std::fs::write(&f, serde_json::to_vec(&o).unwrap()).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[0]=driver argv[1]=rustc ...
    if args.len() > 1 {
        args.remove(0);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let wanted = name.as_deref().map(|n| CRATES.contains(&n)).unwrap_or(false) && std::env::var("DESS_DUMP_DIR").is_ok();
    if !wanted {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    // the code as a build without debug assertions sees it, if asked for; overflow checks stay visible in both
    let asserts = if std::env::var("DESS_NO_ASSERTS").is_ok() { "-Cdebug-assertions=no" } else { "-Cdebug-assertions=yes" };
    for a in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Zinline-mir=no", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", asserts, "-Coverflow-checks=yes"] {
        args.push(a.to_string());
    }
    let out = std::env::var("DESS_DUMP_DIR").ok();
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
