//! Control-flow facts: weak topological order positions, merge points, liveness.
use crate::ir::*;

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { vals, other, .. } => {
            let mut v: Vec<u32> = vals.iter().map(|x| x.1).collect();
            v.push(*other);
            v
        }
        Term::Call { target, .. } => target.iter().cloned().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

struct Wto<'a> {
    succ: &'a [Vec<u32>],
    dfn: Vec<u32>,
    num: u32,
    stack: Vec<u32>,
    out: Vec<u32>,
    head: Vec<bool>,
    chain: Vec<Vec<u32>>,
}
const INFD: u32 = u32::MAX;
impl<'a> Wto<'a> {
    // Bourdoncle's algorithm; the partition is built in reverse
    fn visit(&mut self, v: u32, part: &mut Vec<Vec<u32>>) -> u32 {
        self.stack.push(v);
        self.num += 1;
        self.dfn[v as usize] = self.num;
        let mut head = self.num;
        let mut is_loop = false;
        for s in self.succ[v as usize].clone() {
            let m = if self.dfn[s as usize] == 0 { self.visit(s, part) } else { self.dfn[s as usize] };
            if m != INFD && m <= head {
                head = m;
                is_loop = true;
            }
        }
        if head == self.dfn[v as usize] {
            self.dfn[v as usize] = INFD;
            let mut e = self.stack.pop().unwrap();
            if is_loop {
                while e != v {
                    self.dfn[e as usize] = 0;
                    e = self.stack.pop().unwrap();
                }
                let c = self.component(v);
                part.push(c);
            } else {
                part.push(vec![v]);
            }
        }
        head
    }
    fn component(&mut self, v: u32) -> Vec<u32> {
        self.head[v as usize] = true;
        let mut part = vec![];
        for s in self.succ[v as usize].clone() {
            if self.dfn[s as usize] == 0 {
                self.visit(s, &mut part);
            }
        }
        let mut r = vec![v];
        for p in part.iter().rev() {
            r.extend(p.iter());
        }
        for b in &r {
            self.chain[*b as usize].insert(0, v);
        }
        r
    }
}

fn place_uses(p: &Place, f: &mut impl FnMut(u32)) {
    if p.local != u32::MAX {
        f(p.local);
    }
    for e in &p.proj {
        if let Proj::Idx { local, .. } = e {
            f(*local)
        }
    }
}
fn op_uses(o: &Op, f: &mut impl FnMut(u32)) {
    if let Op::Copy(p) = o {
        place_uses(p, f)
    }
}
fn rv_uses(r: &Rv, f: &mut impl FnMut(u32)) {
    match r {
        Rv::Use(o) | Rv::Repeat(o, _) | Rv::Not(o) | Rv::Neg(o) | Rv::PtrMeta(o) | Rv::IntCast(o) | Rv::Bits(o) | Rv::Thin(o) | Rv::Unsize(o, _) => op_uses(o, f),
        Rv::Ref(p) | Rv::Discr(p, _) => place_uses(p, f),
        Rv::Bin(_, _, a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        }
        Rv::Agg(v, _) => v.iter().for_each(|x| op_uses(&x.1, f)),
        Rv::FnPtr(_) | Rv::Unsup(_) => (),
    }
}

pub fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    let mut w = Wto { succ: &succ, dfn: vec![0; n], num: 0, stack: vec![], out: vec![], head: vec![false; n], chain: vec![vec![]; n] };
    let mut part = vec![];
    w.visit(0, &mut part);
    let mut order = vec![];
    for p in part.iter().rev() {
        order.extend(p.iter().cloned());
    }
    let _ = &w.out;
    let mut pos = vec![u32::MAX - 1; n];
    for (i, b) in order.iter().enumerate() {
        pos[*b as usize] = i as u32;
    }
    let head = w.head.clone();
    f.chain = w.chain.clone();
    let mut pred = vec![0; n];
    for b in &order {
        for s in &succ[*b as usize] {
            pred[*s as usize] += 1;
        }
    }
    let mut merge: Vec<bool> = pred.iter().map(|x| *x > 1).collect();
    // continuation of calls: several states may return
    for b in &f.blocks {
        if let Term::Call { target: Some(t), f: Callee::Inst(_) | Callee::Ptr(_), .. } = &b.term {
            merge[*t as usize] = true;
        }
    }
    // liveness
    let nl = f.locals.len();
    let mut addr = vec![false; nl];
    for b in &f.blocks {
        for (s, _) in &b.stmts {
            if let Stmt::Assign(_, Rv::Ref(p)) = s {
                if !p.proj.iter().any(|e| matches!(e, Proj::Deref { .. })) {
                    addr[p.local as usize] = true;
                }
            }
        }
        if let Term::Call { name, args, .. } = &b.term {
            if name.starts_with("drop:") {
                args.iter().for_each(|o| op_uses(o, &mut |l| addr[l as usize] = true));
            }
        }
    }
    addr[0] = true;
    let mut live: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    loop {
        let mut changed = false;
        for b in order.iter().rev() {
            let b = *b as usize;
            let mut l = vec![false; nl];
            for s in &succ[b] {
                for i in 0..nl {
                    if live[*s as usize][i] {
                        l[i] = true
                    }
                }
            }
            let kill = |l: &mut Vec<bool>, p: &Place| {
                if p.proj.is_empty() && p.local != u32::MAX {
                    l[p.local as usize] = false
                }
            };
            let gen = |l: &mut Vec<bool>, p: &Place| {
                // a store through a projection keeps the base alive
                if !p.proj.is_empty() {
                    place_uses(p, &mut |x| l[x as usize] = true)
                }
            };
            match &f.blocks[b].term {
                Term::Switch { d, .. } => op_uses(d, &mut |x| l[x as usize] = true),
                Term::Assert { cond, .. } => op_uses(cond, &mut |x| l[x as usize] = true),
                Term::Call { f, args, dest, .. } => {
                    kill(&mut l, dest);
                    gen(&mut l, dest);
                    args.iter().for_each(|o| op_uses(o, &mut |x| l[x as usize] = true));
                    if let Callee::Ptr(o) = f {
                        op_uses(o, &mut |x| l[x as usize] = true)
                    }
                }
                Term::Return => l[0] = true,
                _ => (),
            }
            for (s, _) in f.blocks[b].stmts.iter().rev() {
                match s {
                    Stmt::Assign(p, r) => {
                        kill(&mut l, p);
                        gen(&mut l, p);
                        rv_uses(r, &mut |x| l[x as usize] = true);
                    }
                    Stmt::SetTag(p, _) => place_uses(p, &mut |x| l[x as usize] = true),
                    Stmt::Dead(x) => l[*x as usize] = false,
                    Stmt::CopyNonOverlapping { src, dst, n, .. } => {
                        for o in [src, dst, n] {
                            op_uses(o, &mut |x| l[x as usize] = true)
                        }
                    }
                    Stmt::Assume(o) => op_uses(o, &mut |x| l[x as usize] = true),
                    Stmt::Unsup(_) => (),
                }
            }
            if l != live[b] {
                live[b] = l;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    for b in 0..n {
        for i in 0..nl {
            if addr[i] {
                live[b][i] = true
            }
        }
    }
    f.pos = pos;
    f.head = head;
    f.merge = merge;
    f.live_in = live;
}
