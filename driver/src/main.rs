//! RUSTC_WORKSPACE_WRAPPER driver: compiles the crate as rustc would and, once analysis is done,
//! writes the MIR of every body of the primary package to $MIRDUMP_OUT as JSON (one file).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

struct Dump<'tcx> {
  tcx: TyCtxt<'tcx>,
  types: Vec<String>,
  type_ids: HashMap<Ty<'tcx>, usize>,
  adts: BTreeMap<String, String>,
  seen_adts: HashSet<DefId>,
}

impl<'tcx> Dump<'tcx> {
  fn path(&self, d: DefId) -> String {
    // crate-qualified and free of line numbers
    let p = self.tcx.def_path_str(d);
    if d.is_local() { format!("crate::{}", p) } else { p }
  }
  fn uid(&self, d: DefId) -> String {
    // stable unique id: the def path (with disambiguators)
    let dp = self.tcx.def_path(d);
    format!("{}{}", self.tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
  }
  fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
    let v: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
    format!("[{}]", v.join(","))
  }
  fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
    let uid = self.uid(def.did());
    if self.seen_adts.insert(def.did()) {
      let mut vs = Vec::new();
      for (i, v) in def.variants().iter_enumerated() {
        let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
        let fs: Vec<String> = v.fields.iter().map(|f| {
          let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
          format!("[{},{}]", esc(f.name.as_str()), esc(&t.to_string()))
        }).collect();
        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(v.name.as_str()), esc(&d), fs.join(",")));
      }
      let s = format!("{{\"path\":{},\"kind\":{},\"variants\":[{}]}}", esc(&self.path(def.did())),
        esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }), vs.join(","));
      self.adts.insert(uid.clone(), s);
    }
    uid
  }
  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(i) = self.type_ids.get(&t) { return *i; }
    let id = self.types.len();
    self.type_ids.insert(t, id);
    self.types.push(String::new());
    let txt = esc(&t.to_string());
    let s = match t.kind() {
      ty::Adt(def, args) => {
        let u = self.adt(*def);
        let a = self.args(args);
        format!("{{\"k\":\"adt\",\"uid\":{},\"path\":{},\"args\":{},\"txt\":{}}}", esc(&u), esc(&self.path(def.did())), a, txt)
      },
      ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"t\":{},\"mut\":{},\"txt\":{}}}", self.ty(*t), m.is_mut(), txt),
      ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"t\":{},\"mut\":{},\"txt\":{}}}", self.ty(*t), m.is_mut(), txt),
      ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{},\"txt\":{}}}", self.ty(*t), txt),
      ty::Array(t, n) => {
        let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
        format!("{{\"k\":\"array\",\"t\":{},\"n\":{},\"txt\":{}}}", self.ty(*t), n, txt)
      },
      ty::Tuple(ts) => {
        let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
        format!("{{\"k\":\"tuple\",\"ts\":[{}],\"txt\":{}}}", v.join(","), txt)
      },
      ty::Closure(d, args) => {
        let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
        format!("{{\"k\":\"closure\",\"uid\":{},\"ups\":[{}],\"txt\":{}}}", esc(&self.uid(*d)), ups.join(","), txt)
      },
      ty::FnDef(d, args) => {
        let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
        let c = self.callee(*d, args, None);
        format!("{{\"k\":\"fndef\",\"callee\":{},\"txt\":{}}}", c, txt)
      },
      ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"txt\":{}}}", txt),
      ty::Param(_) => format!("{{\"k\":\"param\",\"txt\":{}}}", txt),
      ty::Str => "{\"k\":\"str\",\"txt\":\"str\"}".into(),
      ty::Never => "{\"k\":\"never\",\"txt\":\"!\"}".into(),
      ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{{\"k\":\"prim\",\"txt\":{}}}", txt),
      _ => format!("{{\"k\":\"other\",\"txt\":{}}}", txt),
    };
    self.types[id] = s;
    id
  }
  /// Resolve a callee to the implementing item where the types allow.
  fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> String {
    let mut res = None;
    let mut res_args = args;
    let mut kind = "item";
    if let Some(env) = env {
      let eargs = self.tcx.erase_and_anonymize_regions(args);
      if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, eargs) {
        match inst.def {
          ty::InstanceKind::Item(x) => { res = Some(x); res_args = inst.args; },
          ty::InstanceKind::Virtual(..) => { kind = "virtual"; },
          _ => { kind = "shim"; },
        }
      }
    }
    let assoc_trait = self.tcx.trait_of_assoc(d).map(|t| self.path(t));
    let ar = self.args(args);
    let mut s = format!("{{\"path\":{},\"uid\":{},\"args\":{},\"kind\":{}", esc(&self.path(d)), esc(&self.uid(d)), ar, esc(kind));
    if let Some(t) = assoc_trait { let _ = write!(s, ",\"trait\":{}", esc(&t)); }
    let _ = write!(s, ",\"name\":{}", esc(self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()));
    if let Some(r) = res {
      let ra = self.args(res_args);
      let _ = write!(s, ",\"rpath\":{},\"ruid\":{},\"rargs\":{},\"local\":{}", esc(&self.path(r)), esc(&self.uid(r)), ra, r.is_local());
    }
    if let rustc_hir::def::DefKind::Ctor(of, _) = self.tcx.def_kind(d) {
      let parent = self.tcx.parent(d);
      let (adt, var) = match of {
        rustc_hir::def::CtorOf::Struct => (parent, String::new()),
        rustc_hir::def::CtorOf::Variant => (self.tcx.parent(parent), self.tcx.item_name(parent).to_string()),
      };
      let _ = write!(s, ",\"ctor\":[{},{}]", esc(&self.path(adt)), esc(&var));
    }
    let f = self.tcx.is_foreign_item(d);
    if f { s.push_str(",\"foreign\":true"); }
    s.push('}');
    s
  }
  fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
    let mut pr = Vec::new();
    let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
    for e in p.projection.iter() {
      let s = match e {
        ProjectionElem::Deref => "[\"*\"]".to_string(),
        ProjectionElem::Field(f, t) => {
          let name = match cur.ty.kind() {
            ty::Adt(def, _) => {
              let v = cur.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
              def.variants().get(v).and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()).unwrap_or(f.as_usize().to_string())
            },
            _ => f.as_usize().to_string(),
          };
          let t = self.ty(t);
          format!("[\".\",{},{},{}]", f.as_usize(), esc(&name), t)
        },
        ProjectionElem::Index(l) => format!("[\"[]\",{}]", l.as_usize()),
        ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"[c]\",{},{}]", offset, from_end),
        ProjectionElem::Subslice { from, to, from_end } => format!("[\"[..]\",{},{},{}]", from, to, from_end),
        ProjectionElem::Downcast(n, v) => format!("[\"as\",{},{}]", v.as_usize(), esc(n.map(|x| x.to_string()).unwrap_or_default().as_str())),
        _ => "[\"?\"]".to_string(),
      };
      pr.push(s);
      cur = cur.projection_ty(self.tcx, e);
    }
    format!("[{},[{}]]", p.local.as_usize(), pr.join(","))
  }
  fn bits(&mut self, t: Ty<'tcx>, s: ty::ScalarInt) -> String {
    match t.kind() {
      ty::Bool => format!("{{\"c\":\"bool\",\"v\":{}}}", s.try_to_bool().map(|b| b.to_string()).unwrap_or("null".into())),
      ty::Char => format!("{{\"c\":\"char\",\"v\":{}}}", s.to_bits(s.size())),
      ty::Int(_) => format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", s.to_int(s.size()), esc(&t.to_string())),
      ty::Uint(_) => format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", s.to_bits(s.size()), esc(&t.to_string())),
      ty::Float(ty::FloatTy::F64) => format!("{{\"c\":\"float\",\"v\":{}}}", esc(&f64::from_bits(s.to_bits(s.size()) as u64).to_string())),
      ty::Float(ty::FloatTy::F32) => format!("{{\"c\":\"float\",\"v\":{}}}", esc(&f32::from_bits(s.to_bits(s.size()) as u32).to_string())),
      ty::Adt(def, _) if def.is_struct() && def.non_enum_variant().fields.len() == 1 => {
        format!("{{\"c\":\"wrap\",\"v\":{},\"t\":{}}}", s.to_bits(s.size()), esc(&t.to_string()))
      },
      ty::Adt(def, _) if def.is_enum() => {
        let v = s.to_bits(s.size());
        let u = self.adt(*def);
        for (i, d) in def.discriminants(self.tcx) { if d.val == v {
          return format!("{{\"c\":\"variant\",\"uid\":{},\"idx\":{}}}", esc(&u), i.as_usize()); } }
        format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&format!("{:?}", s)))
      },
      _ => format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&format!("{:?}", s))),
    }
  }
  fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
    let t = c.const_.ty();
    let tid = self.ty(t);
    let inner = self.constant_inner(c, env, t);
    format!("{{\"K\":{},\"ty\":{}}}", inner, tid)
  }
  fn constant_inner(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> String {
    if let ty::FnDef(d, args) = t.kind() {
      let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
      let cal = self.callee(*d, args, Some(env));
      return format!("{{\"c\":\"fn\",\"callee\":{}}}", cal);
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(p) = u.promoted {
        return format!("{{\"c\":\"promoted\",\"uid\":{},\"i\":{}}}", esc(&self.uid(u.def)), p.as_usize());
      }
    }
    let unev = if let Const::Unevaluated(u, _) = c.const_ { Some(self.uid(u.def)) } else { None };
    match c.const_.eval(self.tcx, env, c.span) {
      Ok(v) => self.cvalue(v, t, unev),
      Err(_) => {
        match unev { Some(u) => format!("{{\"c\":\"item\",\"uid\":{}}}", esc(&u)),
          None => format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&c.const_.to_string())) }
      },
    }
  }
  fn cvalue(&mut self, v: ConstValue, t: Ty<'tcx>, unev: Option<String>) -> String {
    match v {
      ConstValue::ZeroSized => "{\"c\":\"zst\"}".to_string(),
      ConstValue::Scalar(interpret::Scalar::Int(s)) => self.bits(t, s),
      ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
        let (prov, off) = p.prov_and_relative_offset();
        match self.tcx.global_alloc(prov.alloc_id()) {
          interpret::GlobalAlloc::Static(d) => format!("{{\"c\":\"static\",\"uid\":{},\"path\":{}}}", esc(&self.uid(d)), esc(&self.path(d))),
          interpret::GlobalAlloc::Function { instance, .. } => {
            let cal = self.callee(instance.def_id(), instance.args, None);
            format!("{{\"c\":\"fnptr\",\"callee\":{}}}", cal)
          },
          interpret::GlobalAlloc::Memory(m) => {
            // &[u8; N] byte strings, otherwise the item
            if let ty::Ref(_, inner, _) = t.kind() {
              if let ty::Array(e, _) = inner.kind() {
                if *e == self.tcx.types.u8 {
                  let a = m.inner();
                  let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..a.len());
                  let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                  return format!("{{\"c\":\"bytes\",\"v\":[{}]}}", v.join(","));
                }
              }
              if let ty::Str = inner.kind() { }
            }
            match unev { Some(u) => format!("{{\"c\":\"item\",\"uid\":{}}}", esc(&u)),
              None => format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&format!("mem {}", t))) }
          },
          _ => format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&t.to_string())),
        }
      },
      ConstValue::Slice { .. } => {
        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
          let isstr = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
          if isstr { if let Ok(s) = std::str::from_utf8(b) {
            return format!("{{\"c\":\"str\",\"v\":{}}}", esc(s));
          } }
          let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
          return format!("{{\"c\":\"bytes\",\"v\":[{}]}}", v.join(","));
        }
        format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&t.to_string()))
      },
      ConstValue::Indirect { .. } => {
        match unev { Some(u) => format!("{{\"c\":\"item\",\"uid\":{}}}", esc(&u)),
          None => format!("{{\"c\":\"opaque\",\"txt\":{}}}", esc(&t.to_string())) }
      },
    }
  }
  fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
    match o {
      Operand::Copy(p) => format!("{{\"P\":{}}}", self.place(p, body)),
      Operand::Move(p) => format!("{{\"P\":{},\"m\":1}}", self.place(p, body)),
      Operand::Constant(c) => self.constant(c, env),
      _ => "{\"K\":{\"c\":\"opaque\",\"txt\":\"rt\"},\"ty\":0}".to_string(),
    }
  }
  fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
    match r {
      Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env)),
      Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, body, env), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
      Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p, body), esc(&format!("{:?}", bk))),
      Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", self.place(p, body), esc(&format!("{:?}", k))),
      Rvalue::Cast(k, o, t) => { let t2 = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, body, env), t2) },
      Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0, body, env), self.operand(&b.1, body, env)),
      Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o, body, env)),
      Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
      Rvalue::Aggregate(k, ops) => {
        let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
        let k = match &**k {
          AggregateKind::Array(_) => "[\"array\"]".to_string(),
          AggregateKind::Tuple => "[\"tuple\"]".to_string(),
          AggregateKind::Adt(d, v, _, _, _) => {
            let def = self.tcx.adt_def(*d);
            let u = self.adt(def);
            format!("[\"adt\",{},{}]", esc(&u), v.as_usize())
          },
          AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.uid(*d))),
          AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
          _ => "[\"other\"]".to_string(),
        };
        format!("[\"agg\",{},[{}]]", k, os.join(","))
      },
      Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"P\":{}}}]", self.place(p, body)),
      _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
    }
  }
  fn span(&self, s: rustc_span::Span) -> String {
    // the outermost expansion site: the line a reader sees
    let s = s.source_callsite();
    let sm = self.tcx.sess.source_map();
    let l = sm.lookup_char_pos(s.lo());
    let f = format!("{}", l.file.name.prefer_local_unconditionally());
    format!("{}:{}", f, l.line)
  }
  fn body(&mut self, d: DefId, body: &Body<'tcx>, kind: &str, suffix: &str) -> String {
    let env = TypingEnv::post_analysis(self.tcx, d);
    let mut names: HashMap<usize, String> = HashMap::new();
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = &v.value {
        if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
      }
    }
    let mut ls = Vec::new();
    for (i, l) in body.local_decls.iter_enumerated() {
      let t = self.ty(l.ty);
      let n = names.get(&i.as_usize()).map(|x| esc(x)).unwrap_or("null".into());
      ls.push(format!("[{},{}]", t, n));
    }
    let mut bs = Vec::new();
    for (_, b) in body.basic_blocks.iter_enumerated() {
      let mut ss = Vec::new();
      for s in &b.statements {
        match &s.kind {
          StatementKind::Assign(x) => {
            let (p, r) = &**x;
            let ps = self.place(p, body);
            let rs = self.rvalue(r, body, env);
            ss.push(format!("[\"=\",{},{},{}]", ps, rs, esc(&self.span(s.source_info.span))));
          },
          StatementKind::SetDiscriminant { place, variant_index } =>
            ss.push(format!("[\"setd\",{},{}]", self.place(place, body), variant_index.as_usize())),
          _ => {},
        }
      }
      let term = b.terminator();
      let sp = esc(&self.span(term.source_info.span));
      let ts = match &term.kind {
        TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
        TerminatorKind::SwitchInt { discr, targets } => {
          let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
          format!("[\"switch\",{},[{}],{},{}]", self.operand(discr, body, env), v.join(","), targets.otherwise().as_usize(), sp)
        },
        TerminatorKind::Return => "[\"return\"]".to_string(),
        TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
        TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place, body), target.as_usize()),
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = match func.const_fn_def() {
            Some((d, a)) => self.callee(d, a, Some(env)),
            None => format!("{{\"indirect\":{}}}", self.operand(func, body, env)),
          };
          let aa: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
          let t = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
          format!("[\"call\",{},[{}],{},{},{}]", f, aa.join(","), self.place(destination, body), t, sp)
        },
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let m = match &**msg {
            AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, body, env), self.operand(index, body, env)),
            AssertKind::Overflow(op, a, b) => format!("[\"overflow\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(a, body, env), self.operand(b, body, env)),
            AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a, body, env)),
            AssertKind::DivisionByZero(a) => format!("[\"divzero\",{}]", self.operand(a, body, env)),
            AssertKind::RemainderByZero(a) => format!("[\"remzero\",{}]", self.operand(a, body, env)),
            _ => "[\"other\"]".to_string(),
          };
          format!("[\"assert\",{},{},{},{},{}]", self.operand(cond, body, env), expected, m, target.as_usize(), sp)
        },
        TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
        TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
        _ => "[\"other\"]".to_string(),
      };
      bs.push(format!("{{\"s\":[{}],\"t\":{}{}}}", ss.join(","), ts, if b.is_cleanup { ",\"cleanup\":1" } else { "" }));
    }
    let ups = if self.tcx.is_closure_like(d) { "true" } else { "false" };
    let vis = if d.is_local() && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
      if self.tcx.visibility(d).is_public() { "pub" } else { "priv" } } else { "" };
    let mut ex = String::new();
    if matches!(self.tcx.def_kind(d), DefKind::AssocFn) {
      if let Some(imp) = self.tcx.impl_of_assoc(d) {
        if self.tcx.is_automatically_derived(imp) { ex.push_str(",\"derived\":true"); }
        let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
        let _ = write!(ex, ",\"self_ty\":{}", self.ty(st));
        if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
          let tr = tr.instantiate_identity().skip_norm_wip();
          let _ = write!(ex, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
          let ta = self.args(tr.args);
          let _ = write!(ex, ",\"trait_args\":{}", ta);
        }
      }
    }
    let unsafe_fn = if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
      let sig = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
      let s = sig.skip_binder();
      format!(",\"unsafe\":{},\"abi\":{}", s.safety().is_unsafe(), esc(&format!("{:?}", s.abi())))
    } else { String::new() };
    let name = self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
    format!("{{\"uid\":{},\"path\":{},\"name\":{},\"kind\":{},\"nargs\":{},\"closure\":{},\"vis\":{},\"span\":{},\"locals\":[{}],\"blocks\":[{}]{}{},\"spread\":{}}}",
      esc(&format!("{}{}", self.uid(d), suffix)), esc(&self.path(d)), esc(&name), esc(kind), body.arg_count, ups, esc(vis), esc(&self.span(body.span)),
      ls.join(","), bs.join(","), ex, unsafe_fn, body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()))
  }
}

/// Reads the analysed sources, appending to `src/a/b.rs` a child module `__spec` when the specification
/// directory has a reference model for it (`a__b.rs`).  Nothing is written to the analysed tree.
struct SpecLoader { src: std::path::PathBuf, spec: std::path::PathBuf }
impl rustc_span::source_map::FileLoader for SpecLoader {
  fn file_exists(&self, path: &std::path::Path) -> bool { path.exists() }
  fn read_file(&self, path: &std::path::Path) -> std::io::Result<String> {
    let mut s = rustc_span::source_map::RealFileLoader.read_file(path)?;
    if let Ok(rel) = path.strip_prefix(&self.src) {
      let name = rel.to_string_lossy().replace('/', "__");
      let f = self.spec.join(&name);
      let skip = std::env::var("MIRDUMP_SPEC_SKIP").unwrap_or_default();
      if f.exists() && !skip.split(':').any(|x| x == name) {
        s.push_str(&format!("\n#[allow(warnings)] #[path = {:?}] mod __spec;\n", f.to_string_lossy()));
      }
    }
    Ok(s)
  }
  fn read_binary_file(&self, path: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> { rustc_span::source_map::RealFileLoader.read_binary_file(path) }
  fn current_directory(&self) -> std::io::Result<std::path::PathBuf> { std::env::current_dir() }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::interface::Config) {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or("llamapun".into());
    if config.opts.crate_name.as_deref() != Some(want.as_str()) { return; }
    if let (Ok(src), Ok(spec)) = (std::env::var("MIRDUMP_SRC"), std::env::var("MIRDUMP_SPEC")) {
      config.file_loader = Some(Box::new(SpecLoader { src: src.into(), spec: spec.into() }));
    }
  }
  fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or("llamapun".into());
    if tcx.crate_name(LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
    let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new(), adts: BTreeMap::new(), seen_adts: HashSet::new() };
    let mut bodies = Vec::new();
    let mut statics = Vec::new();
    for ld in tcx.hir_body_owners() {
      let did = ld.to_def_id();
      let kind = tcx.def_kind(did);
      match kind {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
          let b = tcx.optimized_mir(did);
          let s = d.body(did, b, "fn", "");
          bodies.push(s);
        },
        DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
          if matches!(kind, DefKind::AnonConst) { continue; }
          if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
          let b = tcx.mir_for_ctfe(did);
          let s = d.body(did, b, if matches!(kind, DefKind::Static { .. }) { "static" } else { "const" }, "");
          bodies.push(s);
          if let DefKind::Static { mutability, .. } = kind {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = d.ty(t);
            statics.push(format!("{{\"uid\":{},\"path\":{},\"mut\":{},\"ty\":{},\"span\":{}}}", esc(&d.uid(did)), esc(&d.path(did)), mutability.is_mut(), t, esc(&d.span(tcx.def_span(did)))));
          }
        },
        _ => continue,
      }
      for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
        let s = d.body(did, p, "promoted", &format!("#promoted{}", i.as_usize()));
        bodies.push(s);
      }
    }
    // trait default methods and impl tables (for dyn / generic dispatch)
    let mut impls = Vec::new();
    for ld in tcx.hir_crate_items(()).definitions() {
      let did = ld.to_def_id();
      if let DefKind::Impl { .. } = tcx.def_kind(did) {
        let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let stx = d.ty(st);
        let tr = tcx.impl_opt_trait_ref(did).map(|t| d.path(t.instantiate_identity().skip_norm_wip().def_id));
        let ms: Vec<String> = tcx.associated_item_def_ids(did).iter().map(|x| format!("[{},{}]", esc(tcx.item_name(*x).as_str()), esc(&d.uid(*x)))).collect();
        impls.push(format!("{{\"self\":{},\"trait\":{},\"items\":[{}]}}", stx, tr.map(|t| esc(&t)).unwrap_or("null".into()), ms.join(",")));
      }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"types\":[\n{}\n],\n\"adts\":{{\n", d.types.join(",\n"));
    let a: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(o, "{}\n}},\n\"statics\":[{}],\n\"impls\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n", a.join(",\n"), statics.join(",\n"), impls.join(",\n"), bodies.join(",\n"));
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(&tmp, &out).expect("rename dump");
    Compilation::Continue
  }
}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
  if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
  let want = std::env::var("MIRDUMP_CRATE").unwrap_or("llamapun".into());
  if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) { args.extend(["-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=on", "--cap-lints=warn"].map(String::from)); }
  rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
