//! Operators agree with the fallible operations (C16).
//!
//! The first function of the crate that an operator and its fallible operation both reach is
//! treated as an unknown function of its arguments; the rest of both paths is analysed. The
//! operands are arbitrary, so one case per operator covers every input.
use super::*;
use crate::ir::{Callee, Rv, Stmt, Term};

fn callees(cx: &mut Ctx, f: u32) -> Vec<u32> {
    let mut v = vec![];
    if let Ok(f) = cx.lw.func(f) {
        for b in &f.blocks {
            if let Term::Call { f: Callee::Inst(i), never: false, .. } = &b.term {
                v.push(*i);
            }
            for (s, _) in &b.stmts {
                if let Stmt::Assign(_, Rv::FnPtr(i)) = s {
                    v.push(*i);
                }
            }
        }
    }
    v
}
fn target(cx: &mut Ctx, f: u32) -> bool {
    cx.lw.func(f).map_or(false, |f| f.in_target)
}
/// works on decimals and has a mutable destination
fn candidate<'tcx>(cx: &mut Ctx<'_, 'tcx>, f: u32) -> bool {
    let Ok(f) = cx.lw.func(f) else { return false };
    let mut dst = false;
    for i in 1..=f.nargs {
        if let rustc_middle::ty::Ref(_, t, m) = f.locals[i].ty.kind() {
            let it = cx.lw.ty(*t);
            if !it.sized || it.ty.is_closure() {
                return false;
            }
            dst |= m.is_mut() && it.size == cx.ent.lay.size;
        }
    }
    let rt = f.locals[0].clone();
    dst && f.in_target && f.nargs >= 3 && (rt.size == 0 || cx.lw.scalar_values(rt.ty).is_some())
}
fn reach(cx: &mut Ctx, root: u32, stop: &BTreeSet<u32>) -> (BTreeSet<u32>, BTreeSet<u32>) {
    let (mut seen, mut hit) = (BTreeSet::new(), BTreeSet::new());
    let mut w = vec![root];
    while let Some(f) = w.pop() {
        if !seen.insert(f) {
            continue;
        }
        if stop.contains(&f) && candidate(cx, f) {
            hit.insert(f);
            continue;
        }
        for g in callees(cx, f) {
            if target(cx, g) || f == root {
                w.push(g);
            }
        }
    }
    (seen, hit)
}
fn run(cx: &mut Ctx, op: &'static str) {
    let (Some(a), Some(b)) = (cx.ent.map.get(&*format!("h_{}", op)).cloned(), cx.ent.map.get(&*format!("h_op_{}", op)).cloned()) else {
        return cx.fail("entry points missing".into());
    };
    let (fa, fb) = (cx.lw.inst(a), cx.lw.inst(b));
    let (ra, _) = reach(cx, fa, &BTreeSet::new());
    let (_, hit) = reach(cx, fb, &ra);
    let hit: Vec<u32> = hit.into_iter().collect();
    for f in &hit {
        if let Ok(f) = cx.lw.func(*f) {
            cx.rep.notes.push(format!("operator {} and {}_to meet in {}", op, op, f.name));
        }
    }
    cx.uf = hit;
    cx.max_bad = 40;
    let mut c = cx.case();
    let lay = cx.lay();
    let l = c.garbage("lhs");
    let r = c.garbage("rhs");
    let x = c.garbage("dest");
    let y = c.garbage("result");
    let mut o = Obj::new(8);
    o.set(bcell(0, 8, true, Val::C(0)));
    let code = c.obj(o);
    let failed = |b: &Bad| match b.st.heap[code as usize].as_ref().and_then(|o| o.get(0, 8)).map(|c| c.v.clone()) {
        Some(Val::C(x)) => x != 0,
        _ => false,
    };
    let allow = |b: &Bad| b.kind == Kind::Panic && failed(b);
    let name = format!("h_both_{}", op);
    let done = cx.exec(c, &name, vec![ptr(l), ptr(r), ptr(x), ptr(y), ptr(code)], Some(y), &allow);
    if done.is_empty() {
        cx.fail("the operator never returns".into());
    }
    for st in &done {
        let z = same(st, lay, x, y, code);
        cx.check(z);
    }
}
fn same(st: &State, lay: Layout, x: u32, y: u32, code: u32) -> Result<u64, String> {
    match st.heap[code as usize].as_ref().and_then(|o| o.get(0, 8)).map(|c| c.v.clone()) {
        Some(Val::C(0)) => (),
        Some(Val::C(c)) => return Err(format!("the operator returns although the fallible operation fails with error code {}", c)),
        _ => return Err("error code not determined".into()),
    }
    let (p, q) = (out(st, lay, x)?, out(st, lay, y)?);
    let z: Vec<(&Poly, &Poly)> = [(&p.ig, &q.ig), (&p.fg, &q.fg)].into_iter().chain(p.u.iter().zip(q.u.iter())).collect();
    for (i, (a, b)) in z.into_iter().enumerate() {
        if a != b && !bzero(&st.facts, &BPoly::from(&a.sub(b).ok_or("difference")?)) {
            let what = match i {
                0 => "sign or integral digit count".into(),
                1 => "scale".into(),
                i => format!("group {}", i - 2),
            };
            return Err(format!("{} of the operator's result differs from the fallible operation's result: {} and {}", what, b.show(), a.show()));
        }
    }
    Ok(11)
}
pub fn jobs<'tcx>(_id: &str) -> Vec<Job<'tcx>> {
    ["add", "sub", "mul", "div", "rem"].into_iter().map(|o| job(format!("operator {}", o), move |cx| run(cx, o))).collect()
}
