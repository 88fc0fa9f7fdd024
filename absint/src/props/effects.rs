//! Purity: what code reachable from the operations may touch, and what a decimal is made of.
use super::*;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

struct Walk<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    from: HashMap<Instance<'tcx>, Option<(Instance<'tcx>, Span)>>,
    todo: VecDeque<Instance<'tcx>>,
    allocs: HashSet<mir::interpret::AllocId>,
    fails: Vec<Fail>,
    obl: u64,
    cov: Vec<(String, usize, BTreeSet<u32>)>,
}

fn loc(tcx: TyCtxt<'_>, s: Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(s.source_callsite().lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

impl<'tcx> Walk<'tcx> {
    fn name(&self, i: Instance<'tcx>) -> String {
        match i.def {
            InstanceKind::Item(_) => self.tcx.def_path_str_with_args(i.def_id(), i.args),
            _ => format!("{}", i),
        }
    }
    fn in_crate(&self, i: Instance<'tcx>) -> bool {
        self.tcx.crate_name(i.def_id().krate).as_str() == "fxd"
    }
    fn add(&mut self, i: Instance<'tcx>, by: Instance<'tcx>, s: Span) {
        if !self.from.contains_key(&i) {
            self.from.insert(i, Some((by, s)));
            self.todo.push_back(i);
        }
    }
    /// report a construct; the position is the last one inside the analysed crate on the call path
    fn bad(&mut self, f: Instance<'tcx>, s: Span, what: String) {
        let mut chain = vec![format!("{} in {}", loc(self.tcx, s), self.name(f))];
        let mut at = None;
        let (mut cur, mut sp) = (f, s);
        loop {
            if at.is_none() && self.in_crate(cur) {
                at = Some((loc(self.tcx, sp), self.name(cur)));
            }
            match self.from.get(&cur).copied().flatten() {
                Some((p, s2)) => {
                    chain.push(format!("{} in {}", loc(self.tcx, s2), self.name(p)));
                    cur = p;
                    sp = s2;
                }
                None => break,
            }
        }
        let (span, func) = at.unwrap_or((loc(self.tcx, s), self.name(f)));
        if self.fails.iter().any(|x| x.span == span && x.what == what) || self.fails.len() > 100 {
            return;
        }
        self.fails.push(Fail { what, span, func, trace: chain });
    }
    fn alloc(&mut self, id: mir::interpret::AllocId, by: Instance<'tcx>, s: Span) {
        if !self.allocs.insert(id) {
            return;
        }
        let tcx = self.tcx;
        let a = match tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Function { instance } => return self.add(instance, by, s),
            GlobalAlloc::Static(d) => {
                self.obl += 1;
                let n = tcx.def_path_str(d);
                if tcx.is_thread_local_static(d) {
                    return self.bad(by, s, format!("uses thread-local state {}", n));
                }
                if tcx.is_foreign_item(d) {
                    return self.bad(by, s, format!("uses foreign static {}", n));
                }
                let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if tcx.is_mutable_static(d) {
                    return self.bad(by, s, format!("uses global mutable state: static mut {}", n));
                }
                if !ty.is_freeze(tcx, self.env) {
                    return self.bad(by, s, format!("uses global state with interior mutability: static {}: {}", n, ty));
                }
                match tcx.eval_static_initializer(d) {
                    Ok(a) => a,
                    Err(_) => return self.bad(by, s, format!("static {} has no constant value", n)),
                }
            }
            GlobalAlloc::VTable(t, preds) => return self.vtable(t, preds, by, s),
            _ => return,
        };
        for (_, p) in a.inner().provenance().ptrs().iter() {
            self.alloc(p.alloc_id(), by, s);
        }
    }
    fn vtable(&mut self, t: Ty<'tcx>, preds: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>, by: Instance<'tcx>, s: Span) {
        let tcx = self.tcx;
        let i = Instance::resolve_drop_glue(tcx, t);
        self.inst(i, by, s);
        if let Some(p) = preds.principal() {
            let tr = tcx.instantiate_bound_regions_with_erased(p).with_self_ty(tcx, t);
            for e in tcx.vtable_entries(tr) {
                if let ty::VtblEntry::Method(i) = e {
                    self.inst(*i, by, s);
                }
            }
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, by: Instance<'tcx>, s: Span) {
        if let ty::FnDef(..) = c.ty().kind() {
            return;
        }
        match c.eval(self.tcx, self.env, s) {
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, _) = p.prov_and_relative_offset();
                self.alloc(prov.alloc_id(), by, s)
            }
            Ok(ConstValue::Slice { alloc_id, .. }) | Ok(ConstValue::Indirect { alloc_id, .. }) => self.alloc(alloc_id, by, s),
            _ => (),
        }
    }
    /// a function that is called or whose address is taken
    fn inst(&mut self, i: Instance<'tcx>, by: Instance<'tcx>, s: Span) {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Virtual(..) => (), // every table built in the walk is followed; others belong to the caller
            InstanceKind::Intrinsic(d) => {
                self.obl += 1;
                let n = tcx.item_name(d).to_string();
                if n.starts_with("atomic_") || n.starts_with("volatile_") || n.starts_with("unaligned_volatile") || n == "va_arg" || n == "breakpoint" {
                    self.bad(by, s, format!("accesses shared memory through {}", n));
                }
                if n == "const_eval_select" {
                    for t in i.args.types() {
                        if let ty::FnDef(d, a) = t.kind() {
                            if let Some(a) = a.no_bound_vars() {
                                if let Ok(Some(j)) = Instance::try_resolve(tcx, self.env, *d, a) {
                                    if !tcx.is_const_fn(*d) || tcx.is_mir_available(*d) {
                                        self.add(j, by, s);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            InstanceKind::LlvmIntrinsic(d) => {
                self.obl += 1;
                let n = tcx.item_name(d).to_string();
                if n.contains("rd") {
                    self.bad(by, s, format!("reads machine state through {}", n));
                }
            }
            InstanceKind::Item(d) if tcx.is_foreign_item(d) => {
                self.obl += 1;
                let n = tcx.item_name(d).to_string();
                let m = n.trim_start_matches('_');
                if !(matches!(m, "rust_alloc" | "rust_alloc_zeroed" | "rust_dealloc" | "rust_realloc") || m.starts_with("rust_no_alloc_shim") || m.starts_with("miri_")) {
                    self.bad(by, s, format!("calls foreign function {}", n));
                }
            }
            _ => self.add(i, by, s),
        }
    }
    fn body(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        if let InstanceKind::Item(d) = i.def {
            if !tcx.is_mir_available(d) {
                self.bad(i, tcx.def_span(d), format!("no body for {}", self.name(i)));
                return;
            }
        }
        if let InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) = i.def {
            return;
        }
        let b0 = tcx.instance_mir(i.def);
        let body: mir::Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b0.clone()));
        let n = body.basic_blocks.len();
        // blocks on a path from the entry to a normal return
        let succ = |b: usize| -> Vec<usize> { body.basic_blocks[mir::BasicBlock::from_usize(b)].terminator().successors().map(|x| x.as_usize()).filter(|x| !body.basic_blocks[mir::BasicBlock::from_usize(*x)].is_cleanup).collect() };
        let mut fwd = vec![false; n];
        let mut q = vec![0usize];
        while let Some(b) = q.pop() {
            if !fwd[b] {
                fwd[b] = true;
                q.extend(succ(b));
            }
        }
        let mut live: Vec<bool> = (0..n).map(|b| fwd[b] && matches!(body.basic_blocks[mir::BasicBlock::from_usize(b)].terminator().kind, mir::TerminatorKind::Return)).collect();
        loop {
            let mut ch = false;
            for b in 0..n {
                if fwd[b] && !live[b] && succ(b).iter().any(|x| live[*x]) {
                    live[b] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let set: BTreeSet<u32> = (0..n).filter(|b| live[*b]).map(|b| b as u32).collect();
        self.cov.push((self.name(i), n, set));
        for b in 0..n {
            if !live[b] {
                continue;
            }
            let bb = &body.basic_blocks[mir::BasicBlock::from_usize(b)];
            let mut ops: Vec<(&mir::Operand<'tcx>, Span)> = vec![];
            for st in &bb.statements {
                let s = st.source_info.span;
                match &st.kind {
                    mir::StatementKind::Assign(a) => {
                        self.obl += 1;
                        use mir::Rvalue::*;
                        match &a.1 {
                            ThreadLocalRef(d) => self.bad(i, s, format!("uses thread-local state {}", tcx.def_path_str(*d))),
                            Use(o, _) | Repeat(o, _) | UnaryOp(_, o) | WrapUnsafeBinder(o, _) => ops.push((o, s)),
                            BinaryOp(_, x) => {
                                ops.push((&x.0, s));
                                ops.push((&x.1, s));
                            }
                            Aggregate(_, v) => ops.extend(v.iter().map(|o| (o, s))),
                            Cast(k, o, to) => {
                                ops.push((o, s));
                                let from = o.ty(&body, tcx);
                                if let mir::CastKind::PointerCoercion(pc, _) = k {
                                    use ty::adjustment::PointerCoercion as P;
                                    match pc {
                                        P::ReifyFnPointer(_) => {
                                            if let ty::FnDef(d, args) = from.kind() {
                                                if let Some(args) = args.no_bound_vars() {
                                                    if let Some(j) = Instance::resolve_for_fn_ptr(tcx, self.env, *d, args) {
                                                        self.inst(j, i, s);
                                                    }
                                                }
                                            }
                                        }
                                        P::ClosureFnPointer(_) => {
                                            if let ty::Closure(d, args) = from.kind() {
                                                let j = Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce);
                                                self.inst(j, i, s);
                                            }
                                        }
                                        P::Unsize => {
                                            if let (Some(x), Some(y)) = (from.builtin_deref(true), to.builtin_deref(true)) {
                                                let (x, y) = tcx.struct_lockstep_tails_for_codegen(x, y, self.env);
                                                if let ty::Dynamic(preds, ..) = y.kind() {
                                                    if !matches!(x.kind(), ty::Dynamic(..)) {
                                                        self.vtable(x, preds, i, s);
                                                    }
                                                }
                                            }
                                        }
                                        _ => (),
                                    }
                                }
                            }
                            _ => (),
                        }
                    }
                    mir::StatementKind::Intrinsic(x) => {
                        if let mir::NonDivergingIntrinsic::CopyNonOverlapping(c) = &**x {
                            ops.push((&c.src, s));
                            ops.push((&c.dst, s));
                        }
                    }
                    _ => (),
                }
            }
            let t = bb.terminator();
            let s = t.source_info.span;
            use mir::TerminatorKind::*;
            match &t.kind {
                Call { func, args, .. } | TailCall { func, args, .. } => {
                    self.obl += 1;
                    ops.extend(args.iter().map(|a| (&a.node, s)));
                    match func.ty(&body, tcx).kind() {
                        ty::FnDef(d, ga) => match ga.no_bound_vars() {
                            Some(ga) => {
                                let j = Instance::expect_resolve(tcx, self.env, *d, ga, s);
                                self.inst(j, i, s);
                            }
                            None => self.bad(i, s, "call that cannot be resolved".into()),
                        },
                        _ => (), // every function whose address is taken in the walk is followed
                    }
                }
                Drop { place, .. } => {
                    let j = Instance::resolve_drop_glue(tcx, place.ty(&body, tcx).ty);
                    self.inst(j, i, s);
                }
                InlineAsm { .. } => self.bad(i, s, "inline assembly".into()),
                SwitchInt { discr, .. } => ops.push((discr, s)),
                _ => (),
            }
            for (o, s) in ops {
                if let mir::Operand::Constant(c) = o {
                    self.konst(&c.const_, i, s);
                }
            }
        }
    }
}

fn plain<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, path: &str, n: &mut u64, bad: &mut Vec<(String, Span)>, at: Span) {
    *n += 1;
    match t.kind() {
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => (),
        ty::Array(e, _) => plain(tcx, *e, &format!("{}[]", path), n, bad, at),
        ty::Tuple(ts) => {
            for (i, x) in ts.iter().enumerate() {
                plain(tcx, x, &format!("{}.{}", path, i), n, bad, at);
            }
        }
        ty::Adt(a, args) if !a.is_union() && !a.is_unsafe_cell() => {
            for v in a.variants() {
                for f in &v.fields {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let sp = if a.did().is_local() || tcx.crate_name(a.did().krate).as_str() == "fxd" { tcx.def_span(f.did) } else { at };
                    plain(tcx, ft, &format!("{}.{}", path, f.name), n, bad, sp);
                }
            }
            if a.is_phantom_data() {
                for x in args.types() {
                    plain(tcx, x, &format!("{}<>", path), n, bad, at);
                }
            }
        }
        _ => bad.push((format!("{} holds a value of type {}, which is not a plain value", path, t), at)),
    }
}

fn types<'tcx>(cx: &mut Ctx<'_, 'tcx>) {
    let tcx = cx.lw.tcx;
    let Some(i) = cx.ent.map.get("h_layout") else { return cx.fail("layout witness missing".into()) };
    let sig = tcx.fn_sig(i.def_id()).instantiate_identity().skip_norm_wip().skip_binder();
    let t = sig.inputs()[0];
    let env = ty::TypingEnv::fully_monomorphized();
    let (mut n, mut bad) = (0, vec![]);
    let ty::Adt(a, _) = t.kind() else { return cx.fail("FixedDecimal is not a struct".into()) };
    let at = tcx.def_span(a.did());
    plain(tcx, t, "FixedDecimal", &mut n, &mut bad, at);
    if t.needs_drop(tcx, env) {
        bad.push(("a decimal needs dropping: it owns something besides its bytes".into(), at));
    }
    if !t.is_freeze(tcx, env) {
        bad.push(("a decimal has interior mutability".into(), at));
    }
    cx.rep.obl += n + 2;
    for (w, s) in bad {
        cx.rep.fails.push(Fail { what: w, span: loc(tcx, s), func: "FixedDecimal".into(), trace: vec![] });
    }
}

/// every function of the crate that needs no type arguments, and the entry points of the harness
fn roots<'tcx>(cx: &Ctx<'_, 'tcx>) -> Vec<Instance<'tcx>> {
    let tcx = cx.lw.tcx;
    let mut v: Vec<Instance> = cx.ent.map.values().cloned().collect();
    let Some(k) = tcx.crates(()).iter().cloned().find(|k| tcx.crate_name(*k).as_str() == "fxd") else { return vec![] };
    let mut fns: Vec<DefId> = vec![];
    let mut seen = HashSet::new();
    let mut mods = vec![k.as_def_id()];
    let impl_fns = |d: DefId, fns: &mut Vec<DefId>| {
        for x in tcx.associated_item_def_ids(d) {
            if tcx.def_kind(*x) == rustc_hir::def::DefKind::AssocFn {
                fns.push(*x);
            }
        }
    };
    while let Some(m) = mods.pop() {
        if !seen.insert(m) {
            continue;
        }
        for c in tcx.module_children(m) {
            let Some(d) = c.res.opt_def_id() else { continue };
            if d.krate != k {
                continue;
            }
            use rustc_hir::def::DefKind as K;
            match tcx.def_kind(d) {
                K::Mod => mods.push(d),
                K::Fn => fns.push(d),
                K::Struct | K::Enum | K::Union => {
                    for i in tcx.inherent_impls(d) {
                        impl_fns(*i, &mut fns);
                    }
                }
                _ => (),
            }
        }
    }
    for i in tcx.trait_impls_in_crate(k) {
        impl_fns(*i, &mut fns);
    }
    for d in fns {
        if !tcx.generics_of(d).requires_monomorphization(tcx) {
            v.push(Instance::mono(tcx, d));
        }
    }
    v
}

fn effects<'tcx>(cx: &mut Ctx<'_, 'tcx>) {
    let tcx = cx.lw.tcx;
    let rs = roots(cx);
    if rs.len() <= cx.ent.map.len() {
        return cx.fail("the functions of the crate could not be enumerated".into());
    }
    let mut w = Walk { tcx, env: ty::TypingEnv::fully_monomorphized(), from: HashMap::new(), todo: VecDeque::new(), allocs: HashSet::new(), fails: vec![], obl: 0, cov: vec![] };
    // operations first: paths are reported from the nearest one
    for r in rs.iter().rev() {
        if w.from.insert(*r, None).is_none() {
            w.todo.push_back(*r);
        }
    }
    while let Some(i) = w.todo.pop_front() {
        w.body(i);
    }
    cx.rep.obl += w.obl;
    cx.rep.notes.push(format!("effects: {} functions reachable from {} roots, {} constructs examined", w.cov.len(), rs.len(), w.obl));
    for (n, k, b) in w.cov {
        let e = cx.rep.cov.entry(n).or_insert((k, BTreeSet::new()));
        e.1.extend(b);
    }
    cx.rep.fails.extend(w.fails);
}

pub const RO: &str = "modifies an operand taken by shared reference";
pub fn jobs<'tcx>(tier: Tier) -> Vec<Job<'tcx>> {
    let mut v = vec![job("what a decimal is made of".into(), types), job("reachable effects".into(), effects)];
    for j in super::jobs("C14", tier) {
        let r = j.run;
        v.push(Job {
            name: j.name,
            run: Box::new(move |cx| {
                r(cx);
                let n = cx.rep.fails.len() as u64;
                cx.rep.fails.retain(|f| f.what.contains(RO) || f.what.starts_with("not analysable"));
                cx.rep.obl += n.min(1);
            }),
        });
    }
    v
}
