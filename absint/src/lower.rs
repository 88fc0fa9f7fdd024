//! Lowering of monomorphic MIR to the IR.
use crate::ir::*;
use rustc_abi::{FieldsShape, Primitive, Size, TagEncoding, Variants};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug)]
pub struct AllocInfo {
    pub bytes: Vec<u8>,
    pub relocs: Vec<(u64, rustc_middle::mir::interpret::AllocId)>,
    pub mutable: bool,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub tys: HashMap<Ty<'tcx>, T<'tcx>>,
    pub insts: HashMap<Instance<'tcx>, u32>,
    pub funcs: Vec<(Instance<'tcx>, Option<Rc<Func<'tcx>>>)>,
    pub allocs: Vec<Rc<AllocInfo>>,
    pub alloc_ids: HashMap<rustc_middle::mir::interpret::AllocId, u32>,
    pub target_dir: String,
    pub mutable_statics: Vec<String>,
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, target_dir: &str) -> Self {
        Lower {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            insts: HashMap::new(),
            funcs: vec![],
            allocs: vec![],
            alloc_ids: HashMap::new(),
            target_dir: target_dir.to_string(),
            mutable_statics: vec![],
        }
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        self.tcx.layout_of(self.env.as_query_input(ty)).unwrap_or_else(|e| panic!("layout of {:?}: {:?}", ty, e))
    }
    pub fn ty(&mut self, ty: Ty<'tcx>) -> T<'tcx> {
        if let Some(t) = self.tys.get(&ty) {
            return t.clone();
        }
        let sized = ty.is_sized(self.tcx, self.env);
        let (size, align) = if sized {
            let l = self.layout(ty);
            (l.size.bytes(), l.align.abi.bytes())
        } else {
            (0, 1)
        };
        let mut fat = false;
        let int = |bits: u64, signed: bool, ctl: bool| Some(Sc::Int { bits: bits as u32, signed, ctl });
        let sc = match ty.kind() {
            ty::Bool => int(8, false, true),
            ty::Char => int(32, false, false),
            ty::Int(i) => {
                let b = i.bit_width().unwrap_or(64);
                int(b, true, i.bit_width().is_none() || b <= 16)
            }
            ty::Uint(i) => int(i.bit_width().unwrap_or(64), false, i.bit_width().is_none()),
            ty::RawPtr(p, _) | ty::Ref(_, p, _) => {
                if p.is_sized(self.tcx, self.env) {
                    Some(Sc::Ptr)
                } else {
                    fat = true;
                    None
                }
            }
            ty::FnPtr(..) => Some(Sc::Ptr),
            _ => None,
        };
        let t = Rc::new(TyInfo { ty, size, sized, align, sc, fat });
        self.tys.insert(ty, t.clone());
        t
    }
    pub fn inst(&mut self, i: Instance<'tcx>) -> u32 {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.funcs.len() as u32;
        self.funcs.push((i, None));
        self.insts.insert(i, n);
        n
    }
    pub fn func(&mut self, id: u32) -> Result<Rc<Func<'tcx>>, String> {
        if let Some(f) = &self.funcs[id as usize].1 {
            return Ok(f.clone());
        }
        let i = self.funcs[id as usize].0;
        let f = Rc::new(self.lower(id, i)?);
        self.funcs[id as usize].1 = Some(f.clone());
        Ok(f)
    }
    pub fn fn_name(&self, i: Instance<'tcx>) -> String {
        match i.def {
            InstanceKind::Item(_) => self.tcx.def_path_str_with_args(i.def_id(), i.args),
            _ => format!("{}", i),
        }
    }
    pub fn alloc(&mut self, id: rustc_middle::mir::interpret::AllocId) -> Result<u32, String> {
        if let Some(x) = self.alloc_ids.get(&id) {
            return Ok(*x);
        }
        let a = match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Static(d) => {
                if self.tcx.is_foreign_item(d) {
                    return Err(format!("foreign static {:?}", d));
                }
                let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if self.tcx.is_mutable_static(d) || !ty.is_freeze(self.tcx, self.env) {
                    return Err(format!("access to mutable or interior-mutable static {}", self.tcx.def_path_str(d)));
                }
                self.tcx.eval_static_initializer(d).map_err(|_| "static initializer".to_string())?
            }
            _ => return Err("function or vtable allocation used as memory".into()),
        };
        let a = a.inner();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
        let relocs = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        let n = self.allocs.len() as u32;
        self.allocs.push(Rc::new(AllocInfo { bytes, relocs, mutable: a.mutability.is_mut() }));
        self.alloc_ids.insert(id, n);
        Ok(n)
    }
    /// pointer constant to an allocation id
    pub fn ptr_to(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64) -> Result<CVal, String> {
        if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(id) {
            return Ok(CVal::Fn(self.inst(instance)));
        }
        Ok(CVal::Ptr(self.alloc(id)?, off as i64))
    }
    pub fn int_of(bits: u128, nbits: u32, signed: bool) -> i128 {
        if signed && nbits < 128 {
            let sh = 128 - nbits;
            ((bits << sh) as i128) >> sh
        } else {
            bits as i128
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, span: Span) -> Result<(CVal, T<'tcx>), String> {
        let ty = c.ty();
        let t = self.ty(ty);
        if let ty::FnDef(..) = ty.kind() {
            return Ok((CVal::Zst, t));
        }
        let v = c.eval(self.tcx, self.env, span).map_err(|e| format!("constant does not evaluate: {:?}", e))?;
        let cv = match v {
            ConstValue::ZeroSized => CVal::Zst,
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let signed = matches!(t.sc, Some(Sc::Int { signed: true, .. }));
                CVal::Int(Self::int_of(bits, i.size().bits() as u32, signed))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.ptr_to(prov.alloc_id(), off.bytes())?
            }
            ConstValue::Slice { alloc_id, meta } => CVal::Slice(self.alloc(alloc_id)?, 0, meta),
            ConstValue::Indirect { alloc_id, offset } => CVal::Mem(self.alloc(alloc_id)?, offset.bytes() as i64),
        };
        Ok((cv, t))
    }
    /// valid values of a type represented by one small integer
    pub fn scalar_values(&self, ty: Ty<'tcx>) -> Option<Vec<i128>> {
        let l = self.layout(ty);
        let rustc_abi::BackendRepr::Scalar(s) = l.backend_repr else { return None };
        let signed = matches!(s.primitive(), rustc_abi::Primitive::Int(_, true));
        let r = s.valid_range(&self.tcx);
        let bits = s.size(&self.tcx).bits() as u32;
        let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        if r.end.wrapping_sub(r.start) & m > 15 {
            return None;
        }
        let mut v = vec![];
        let mut x = r.start;
        loop {
            v.push(Self::int_of(x, bits, signed));
            if x == r.end {
                return Some(v);
            }
            x = x.wrapping_add(1) & m;
        }
    }
    pub fn variant_tag(&mut self, ty: Ty<'tcx>) -> Result<VariantTag, String> {
        let l = self.layout(ty);
        let discr = |s: &Self, v: rustc_abi::VariantIdx| -> i128 {
            match ty.discriminant_for_variant(s.tcx, v) {
                Some(d) => {
                    let (bits, signed) = match d.ty.kind() {
                        ty::Int(i) => (i.bit_width().unwrap_or(64) as u32, true),
                        ty::Uint(i) => (i.bit_width().unwrap_or(64) as u32, false),
                        _ => (64, false),
                    };
                    Self::int_of(d.val, bits, signed)
                }
                None => 0,
            }
        };
        Ok(match &l.variants {
            Variants::Empty => VariantTag::None { discr: 0 },
            Variants::Single { index } => VariantTag::None { discr: discr(self, *index) },
            Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let sc = match tag.primitive() {
                    Primitive::Int(i, s) => Sc::Int { bits: i.size().bits() as u32, signed: s, ctl: true },
                    Primitive::Pointer(_) => Sc::Ptr,
                    _ => return Err("float tag".into()),
                };
                let n = variants.len();
                match tag_encoding {
                    TagEncoding::Direct => {
                        let mut discrs = vec![];
                        for i in 0..n {
                            let v = rustc_abi::VariantIdx::from_usize(i);
                            let d = ty.discriminant_for_variant(self.tcx, v).map(|d| d.val).unwrap_or(0);
                            let Sc::Int { bits, signed, .. } = sc else { return Err("direct pointer tag".into()) };
                            discrs.push((Self::int_of(tag.size(&self.tcx).truncate(d), bits, signed), discr(self, v)));
                        }
                        VariantTag::Direct { off, sc, discrs }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => VariantTag::Niche {
                        off,
                        sc,
                        start: *niche_start,
                        lo: niche_variants.start.as_u32(),
                        hi: niche_variants.last.as_u32(),
                        untagged: untagged_variant.as_u32(),
                        discrs: (0..n).map(|i| discr(self, rustc_abi::VariantIdx::from_usize(i))).collect(),
                    },
                }
            }
        })
    }
    /// tag write needed to set variant v
    pub fn set_tag(&mut self, ty: Ty<'tcx>, v: rustc_abi::VariantIdx) -> Result<Option<(u64, Sc, i128)>, String> {
        match self.variant_tag(ty)? {
            VariantTag::None { .. } => Ok(None),
            VariantTag::Direct { off, sc, discrs } => Ok(Some((off, sc, discrs[v.as_usize()].0))),
            VariantTag::Niche { off, sc, start, lo, untagged, .. } => {
                if v.as_u32() == untagged {
                    return Ok(None);
                }
                let raw = start.wrapping_add((v.as_u32() - lo) as u128);
                let (bits, signed) = match sc {
                    Sc::Int { bits, signed, .. } => (bits, signed),
                    Sc::Ptr => (64, false),
                };
                let raw = if bits < 128 { raw & ((1u128 << bits) - 1) } else { raw };
                Ok(Some((off, sc, Self::int_of(raw, bits, signed))))
            }
        }
    }
    pub fn field_off(&self, l: TyAndLayout<'tcx>, i: usize) -> u64 {
        match &l.fields {
            FieldsShape::Arbitrary { .. } | FieldsShape::Array { .. } => l.fields.offset(i).bytes(),
            _ => 0,
        }
    }

    fn lower(&mut self, id: u32, inst: Instance<'tcx>) -> Result<Func<'tcx>, String> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return Err(format!("no MIR for {}", self.fn_name(inst)));
                }
                if tcx.is_foreign_item(d) {
                    return Err(format!("foreign function {}", self.fn_name(inst)));
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => {
                return Err(format!("no body for {}", self.fn_name(inst)))
            }
            _ => (),
        }
        let body0 = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body0.clone()));
        let mut cx = Fcx { lw: self, body: &body, spans: vec![], span_ids: HashMap::new() };
        let mut blocks = vec![];
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            let t = cx.lw.ty(d.ty);
            locals.push(t);
        }
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    let sp = cx.span(s.source_info.span);
                    if let Some(x) = cx.stmt(s) {
                        stmts.push((x, sp));
                    }
                }
            }
            let t = bb.terminator();
            let term_span = cx.span(t.source_info.span);
            let term = if bb.is_cleanup { Term::Unwind } else { cx.term(t).unwrap_or_else(Term::Unsup) };
            blocks.push(Block { stmts, term, term_span });
        }
        let spans = cx.spans;
        let name = self.fn_name(inst);
        let file = format!("{}", tcx.sess.source_map().span_to_string(body.span, rustc_span::RemapPathScopeComponents::DIAGNOSTICS));
        let in_target = file.starts_with(&self.target_dir) || tcx.crate_name(inst.def_id().krate).as_str() == "fxd";
        let mut f = Func {
            id,
            name,
            inst,
            nargs: body.arg_count,
            spread: body.spread_arg.map(|l| l.as_u32()),
            locals,
            blocks,
            spans,
            pos: vec![],
            head: vec![],
            merge: vec![],
            chain: vec![],
            live_in: vec![],
            in_target,
        };
        crate::cfg::analyse(&mut f);
        Ok(f)
    }
}

struct Fcx<'a, 'tcx> {
    lw: &'a mut Lower<'tcx>,
    body: &'a mir::Body<'tcx>,
    spans: Vec<String>,
    span_ids: HashMap<Span, u32>,
}
type R<X> = Result<X, String>;

impl<'a, 'tcx> Fcx<'a, 'tcx> {
    fn span(&mut self, s: Span) -> u32 {
        if let Some(x) = self.span_ids.get(&s) {
            return *x;
        }
        let s2 = s.source_callsite();
        let loc = self.lw.tcx.sess.source_map().lookup_char_pos(s2.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        self.spans.push(format!("{}:{}", f, loc.line));
        let n = (self.spans.len() - 1) as u32;
        self.span_ids.insert(s, n);
        n
    }
    fn place(&mut self, p: mir::Place<'tcx>) -> R<Place<'tcx>> {
        let tcx = self.lw.tcx;
        let mut cur = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut proj: Vec<Proj> = vec![];
        let off = |proj: &mut Vec<Proj>, o: u64| {
            if o == 0 {
                return;
            }
            if let Some(Proj::Off(x)) = proj.last_mut() {
                *x += o
            } else {
                proj.push(Proj::Off(o))
            }
        };
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            match e {
                Deref => {
                    let inner = match cur.ty.kind() {
                        ty::RawPtr(t, _) | ty::Ref(_, t, _) => *t,
                        _ => return Err(format!("deref of {:?}", cur.ty)),
                    };
                    let fat = !inner.is_sized(tcx, self.lw.env);
                    proj.push(Proj::Deref { fat });
                }
                Field(i, _) => {
                    let l = self.lw.layout(cur.ty);
                    let l = match cur.variant_index {
                        Some(v) => {
                            let cx = ty::layout::LayoutCx::new(tcx, self.lw.env);
                            l.for_variant(&cx, v)
                        }
                        None => l,
                    };
                    let o = self.lw.field_off(l, i.as_usize());
                    off(&mut proj, o);
                }
                Index(l) => {
                    let et = match cur.ty.kind() {
                        ty::Array(t, _) | ty::Slice(t) => *t,
                        _ => return Err("index of non-array".into()),
                    };
                    let stride = self.lw.ty(et).size;
                    proj.push(Proj::Idx { local: l.as_u32(), stride });
                }
                ConstantIndex { offset, from_end, .. } => {
                    let (et, arr) = match cur.ty.kind() {
                        ty::Array(t, n) => (*t, n.try_to_target_usize(tcx)),
                        ty::Slice(t) => (*t, None),
                        _ => return Err("index of non-array".into()),
                    };
                    let stride = self.lw.ty(et).size;
                    if !from_end {
                        off(&mut proj, offset * stride);
                    } else if let Some(n) = arr {
                        off(&mut proj, (n - offset) * stride);
                    } else {
                        proj.push(Proj::EndIdx { off: offset, stride });
                    }
                }
                Subslice { from, to, from_end } => match cur.ty.kind() {
                    ty::Array(t, _) => {
                        let stride = self.lw.ty(*t).size;
                        off(&mut proj, from * stride);
                    }
                    ty::Slice(t) => {
                        let stride = self.lw.ty(*t).size;
                        proj.push(Proj::Sub { from, to, from_end, stride });
                    }
                    _ => return Err("subslice".into()),
                },
                Downcast(..) | OpaqueCast(_) => (),
                _ => return Err(format!("projection {:?}", e)),
            }
            cur = cur.projection_ty(tcx, e);
        }
        let ty = self.lw.ty(cur.ty);
        Ok(Place { local: p.local.as_u32(), proj, ty })
    }
    fn op(&mut self, o: &mir::Operand<'tcx>) -> R<Op<'tcx>> {
        match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Ok(Op::Copy(self.place(*p)?)),
            mir::Operand::Constant(c) => {
                let (v, t) = self.lw.constant(&c.const_, c.span)?;
                Ok(Op::Const(v, t))
            }
            mir::Operand::RuntimeChecks(c) => {
                let b = self.lw.tcx.types.bool;
                let t = self.lw.ty(b);
                let v = matches!(c, mir::RuntimeChecks::OverflowChecks);
                Ok(Op::Const(CVal::Int(v as i128), t))
            }
        }
    }
    fn rv(&mut self, r: &mir::Rvalue<'tcx>, dest: &T<'tcx>) -> R<Rv<'tcx>> {
        use mir::Rvalue::*;
        let tcx = self.lw.tcx;
        Ok(match r {
            Use(o, _) => Rv::Use(self.op(o)?),
            CopyForDeref(p) => Rv::Use(Op::Copy(self.place(*p)?)),
            Reborrow(_, _, p) => Rv::Use(Op::Copy(self.place(*p)?)),
            WrapUnsafeBinder(o, _) => Rv::Use(self.op(o)?),
            Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).ok_or("repeat count")?;
                Rv::Repeat(self.op(o)?, n)
            }
            Ref(_, _, p) => Rv::Ref(self.place(*p)?),
            RawPtr(_, p) => Rv::Ref(self.place(*p)?),
            ThreadLocalRef(d) => Rv::Unsup(format!("thread-local {}", tcx.def_path_str(*d))),
            BinaryOp(b, ab) => {
                use mir::BinOp as B;
                let (bin, m) = match b {
                    B::Add => (Bin::Add, Mode::Wrap),
                    B::AddUnchecked => (Bin::Add, Mode::Unchecked),
                    B::AddWithOverflow => (Bin::Add, Mode::Overflow),
                    B::Sub => (Bin::Sub, Mode::Wrap),
                    B::SubUnchecked => (Bin::Sub, Mode::Unchecked),
                    B::SubWithOverflow => (Bin::Sub, Mode::Overflow),
                    B::Mul => (Bin::Mul, Mode::Wrap),
                    B::MulUnchecked => (Bin::Mul, Mode::Unchecked),
                    B::MulWithOverflow => (Bin::Mul, Mode::Overflow),
                    B::Div => (Bin::Div, Mode::Wrap),
                    B::Rem => (Bin::Rem, Mode::Wrap),
                    B::BitXor => (Bin::Xor, Mode::Wrap),
                    B::BitAnd => (Bin::And, Mode::Wrap),
                    B::BitOr => (Bin::Or, Mode::Wrap),
                    B::Shl => (Bin::Shl, Mode::Wrap),
                    B::ShlUnchecked => (Bin::Shl, Mode::Unchecked),
                    B::Shr => (Bin::Shr, Mode::Wrap),
                    B::ShrUnchecked => (Bin::Shr, Mode::Unchecked),
                    B::Eq => (Bin::Eq, Mode::Wrap),
                    B::Lt => (Bin::Lt, Mode::Wrap),
                    B::Le => (Bin::Le, Mode::Wrap),
                    B::Ne => (Bin::Ne, Mode::Wrap),
                    B::Ge => (Bin::Ge, Mode::Wrap),
                    B::Gt => (Bin::Gt, Mode::Wrap),
                    B::Cmp => (Bin::Cmp, Mode::Wrap),
                    B::Offset => (Bin::Offset, Mode::Wrap),
                };
                Rv::Bin(bin, m, self.op(&ab.0)?, self.op(&ab.1)?)
            }
            UnaryOp(u, o) => {
                let o = self.op(o)?;
                match u {
                    mir::UnOp::Not => Rv::Not(o),
                    mir::UnOp::Neg => Rv::Neg(o),
                    mir::UnOp::PtrMetadata => Rv::PtrMeta(o),
                }
            }
            Discriminant(p) => {
                let p = self.place(*p)?;
                let vt = self.lw.variant_tag(p.ty.ty)?;
                Rv::Discr(p, Rc::new(vt))
            }
            Aggregate(k, ops) => {
                let mut fs = vec![];
                let l = self.lw.layout(dest.ty);
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        let s = self.lw.ty(*t).size;
                        for (i, o) in ops.iter().enumerate() {
                            fs.push((i as u64 * s, self.op(o)?));
                        }
                        Rv::Agg(fs, None)
                    }
                    mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => {
                        for (i, o) in ops.iter().enumerate() {
                            let off = self.lw.field_off(l, i);
                            fs.push((off, self.op(o)?));
                        }
                        Rv::Agg(fs, None)
                    }
                    mir::AggregateKind::Adt(_, v, _, _, active) => {
                        let cx = ty::layout::LayoutCx::new(tcx, self.lw.env);
                        let vl = if dest.ty.is_enum() { l.for_variant(&cx, *v) } else { l };
                        for (i, o) in ops.iter_enumerated() {
                            let i = active.unwrap_or(i);
                            let off = self.lw.field_off(vl, i.as_usize());
                            fs.push((off, self.op(o)?));
                        }
                        let tag = if dest.ty.is_enum() { self.lw.set_tag(dest.ty, *v)? } else { None };
                        Rv::Agg(fs, tag)
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        for (i, o) in ops.iter().enumerate() {
                            fs.push((8 * i as u64, self.op(o)?));
                        }
                        Rv::Agg(fs, None)
                    }
                    x => Rv::Unsup(format!("aggregate {:?}", x)),
                }
            }
            Cast(k, o, to) => {
                let from = o.ty(self.body, tcx);
                let op = self.op(o)?;
                let _ = from;
                use mir::CastKind as K;
                match k {
                    K::IntToInt => {
                        if op.ty().sc.is_none() {
                            // field-less enum to int
                            return Err("enum cast".into());
                        }
                        Rv::IntCast(op)
                    }
                    K::Transmute | K::Subtype | K::PointerExposeProvenance | K::PointerWithExposedProvenance | K::BoxDerefTransmute => {
                        if op.ty().fat && !dest.fat && dest.size == 8 {
                            Rv::Thin(op)
                        } else {
                            Rv::Bits(op)
                        }
                    }
                    K::PtrToPtr | K::FnPtrToPtr => {
                        if op.ty().fat && !dest.fat {
                            Rv::Thin(op)
                        } else {
                            Rv::Bits(op)
                        }
                    }
                    K::PointerCoercion(pc, _) => {
                        use ty::adjustment::PointerCoercion as P;
                        match pc {
                            P::MutToConstPointer | P::ArrayToPointer | P::UnsafeFnPointer => Rv::Bits(op),
                            P::ReifyFnPointer(_) => {
                                let ty::FnDef(d, args) = from.kind() else { return Err("reify".into()) };
                                let args = args.no_bound_vars().ok_or("bound fn args")?;
                                let i = Instance::resolve_for_fn_ptr(tcx, self.lw.env, *d, args).ok_or("fn ptr")?;
                                Rv::FnPtr(self.lw.inst(i))
                            }
                            P::ClosureFnPointer(_) => {
                                let ty::Closure(d, args) = from.kind() else { return Err("closure fn ptr".into()) };
                                let i = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce);
                                Rv::FnPtr(self.lw.inst(i))
                            }
                            P::Unsize => {
                                let (a, b) = match (from.builtin_deref(true), to.builtin_deref(true)) {
                                    (Some(a), Some(b)) => (a, b),
                                    _ => return Err(format!("unsize {:?} -> {:?}", from, to)),
                                };
                                let (a, b) = tcx.struct_lockstep_tails_for_codegen(a, b, self.lw.env);
                                match (a.kind(), b.kind()) {
                                    (ty::Array(_, n), ty::Slice(_)) => {
                                        Rv::Unsize(op, n.try_to_target_usize(tcx).ok_or("array length")?)
                                    }
                                    (_, ty::Dynamic(..)) => Rv::Unsize(op, 0xdead_0000),
                                    _ => return Err(format!("unsize {:?} -> {:?}", from, to)),
                                }
                            }
                        }
                    }
                    k => return Err(format!("cast {:?}", k)),
                }
            }
        })
    }
    fn stmt(&mut self, s: &mir::Statement<'tcx>) -> Option<Stmt<'tcx>> {
        use mir::StatementKind::*;
        let r: R<Stmt<'tcx>> = (|| {
            Ok(match &s.kind {
                Assign(b) => {
                    let (p, r) = &**b;
                    let p = self.place(*p)?;
                    let r = match self.rv(r, &p.ty) {
                        Ok(r) => r,
                        Err(e) => Rv::Unsup(e),
                    };
                    Stmt::Assign(p, r)
                }
                SetDiscriminant { place, variant_index } => {
                    let p = self.place(**place)?;
                    let t = self.lw.set_tag(p.ty.ty, *variant_index)?;
                    Stmt::SetTag(p, t)
                }
                StorageDead(l) | StorageLive(l) => Stmt::Dead(l.as_u32()),
                Intrinsic(i) => match &**i {
                    mir::NonDivergingIntrinsic::Assume(o) => Stmt::Assume(self.op(o)?),
                    mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                        let src = self.op(&c.src)?;
                        let dst = self.op(&c.dst)?;
                        let n = self.op(&c.count)?;
                        let e = src.ty().ty.builtin_deref(true).ok_or("copy")?;
                        let elem = self.lw.ty(e);
                        Stmt::CopyNonOverlapping { src, dst, n, elem }
                    }
                },
                _ => Stmt::Dead(u32::MAX),
            })
        })();
        match r {
            Ok(Stmt::Dead(u32::MAX)) => None,
            Ok(s) => Some(s),
            Err(e) => Some(Stmt::Unsup(e)),
        }
    }
    fn callee(&mut self, i: Instance<'tcx>) -> R<Callee<'tcx>> {
        Ok(match i.def {
            InstanceKind::Intrinsic(d) => {
                let name = self.lw.tcx.item_name(d).to_string();
                let tys = i.args.types().map(|t| self.lw.ty(t)).collect();
                Callee::Intrinsic(Rc::new(Intr { name, tys, args: i.args, inst: i }))
            }
            InstanceKind::Virtual(..) => Callee::Unsup(format!("dynamic dispatch {}", self.lw.fn_name(i))),
            InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => Callee::Nop,
            _ => Callee::Inst(self.lw.inst(i)),
        })
    }
    fn term(&mut self, t: &mir::Terminator<'tcx>) -> R<Term<'tcx>> {
        use mir::TerminatorKind::*;
        let tcx = self.lw.tcx;
        Ok(match &t.kind {
            Goto { target, .. } => Term::Goto(target.as_u32()),
            SwitchInt { discr, targets } => {
                let d = self.op(discr)?;
                let (bits, signed) = match d.ty().sc {
                    Some(Sc::Int { bits, signed, .. }) => (bits, signed),
                    _ => return Err("switch on non-integer".into()),
                };
                let vals = targets.iter().map(|(v, b)| (Lower::int_of(v, bits, signed), b.as_u32())).collect();
                Term::Switch { d, vals, other: targets.otherwise().as_u32() }
            }
            Return => Term::Return,
            Unreachable => Term::Unreachable,
            Drop { place, target, .. } => {
                let p = self.place(*place)?;
                let i = Instance::resolve_drop_glue(tcx, p.ty.ty);
                match i.def {
                    InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => Term::Goto(target.as_u32()),
                    _ => {
                        let unit = self.lw.ty(tcx.types.unit);
                        // dest: a dummy zero-sized place
                        let name = self.lw.fn_name(i);
                        let f = Callee::Inst(self.lw.inst(i));
                        // pass the address of the place
                        let pt = Ty::new_mut_ptr(tcx, p.ty.ty);
                        let ptr_ty = self.lw.ty(pt);
                        let dest = Place { local: u32::MAX, proj: vec![], ty: unit };
                        let _ = ptr_ty;
                        Term::Call { f, args: vec![Op::Copy(p)], rust_call: false, dest, target: Some(target.as_u32()), never: false, name: format!("drop:{}", name) }
                    }
                }
            }
            Call { func, args, destination, target, .. } => {
                let fty = func.ty(self.body, tcx);
                let args: R<Vec<_>> = args.iter().map(|a| self.op(&a.node)).collect();
                let args = args?;
                let dest = self.place(*destination)?;
                let target = target.map(|b| b.as_u32());
                let never = dest.ty.ty.is_never();
                match fty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().ok_or("bound fn args")?;
                        let i = Instance::expect_resolve(tcx, self.lw.env, *d, ga, t.source_info.span);
                        let sig = fty.fn_sig(tcx);
                        let rust_call = matches!(sig.skip_binder().abi(), rustc_abi::ExternAbi::RustCall);
                        let name = self.lw.fn_name(i);
                        let f = self.callee(i)?;
                        Term::Call { f, args, rust_call, dest, target, never, name }
                    }
                    ty::FnPtr(..) => {
                        let o = self.op(func)?;
                        Term::Call { f: Callee::Ptr(o), args, rust_call: false, dest, target, never, name: "fn pointer".into() }
                    }
                    _ => return Err("call of non-function".into()),
                }
            }
            Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                let kind = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                    mir::AssertKind::OverflowNeg(_) => "negation overflow".to_string(),
                    mir::AssertKind::DivisionByZero(_) => "division by zero".to_string(),
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero".to_string(),
                    _ => m,
                };
                Term::Assert { cond: self.op(cond)?, expected: *expected, target: target.as_u32(), msg: kind }
            }
            FalseEdge { real_target, .. } => Term::Goto(real_target.as_u32()),
            FalseUnwind { real_target, .. } => Term::Goto(real_target.as_u32()),
            UnwindResume | UnwindTerminate(_) => Term::Unwind,
            k => return Err(format!("terminator {:?}", k)),
        })
    }
}

#[allow(unused)]
fn _unused(_: Size) {}
