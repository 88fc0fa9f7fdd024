//! Loop invariant of long division. When control is back at the head of the loop in which a quotient
//! by a variable was guessed, the cells computed from the guess are recognised as one digit Q and the
//! limbs of a partial remainder G with  W = Q V + G,  0 <= G < V,  where W and V do not depend on the
//! guess. After this has been proved on every path, digit and limbs are replaced by new variables
//! that satisfy exactly these facts, so that the paths can be joined without loss.
use crate::deep;
use crate::dom::*;
use crate::mem::*;
use crate::poly::*;
use crate::spec::reduce;
use smallvec::SmallVec;
use std::collections::BTreeSet;
use std::rc::Rc;

const U: i128 = 1_000_000_000;

/// where a quotient by a variable was computed: stack depth and loops around it
#[derive(Clone, Debug)]
pub struct Owner {
    pub q: Var,
    pub depth: usize,
    pub loops: SmallVec<[(u32, u32); 3]>,
}
pub fn owner(st: &State, q: Var) -> Option<Owner> {
    for (i, f) in st.frames.iter().enumerate().rev() {
        if !f.loops.is_empty() {
            return Some(Owner { q, depth: i, loops: f.loops.clone() });
        }
    }
    None
}
impl Owner {
    pub fn trips(&self) -> Vec<u32> {
        self.loops.iter().map(|x| x.1).collect()
    }
    /// control is in the iteration
    pub fn inside(&self, st: &State) -> bool {
        st.frames.len() > self.depth && {
            let b = &st.frames[self.depth].loops;
            b.len() >= self.loops.len() && b[..self.loops.len()] == self.loops[..]
        }
    }
    /// control has completed the iteration
    pub fn over(&self, st: &State) -> bool {
        if st.frames.len() != self.depth + 1 {
            return false;
        }
        let f = &st.frames[self.depth];
        let (a, b) = (&self.loops, &f.loops);
        if b.len() > a.len() {
            return false;
        }
        for i in 0..b.len() {
            if a[i].0 != b[i].0 {
                return true;
            }
            if a[i].1 != b[i].1 {
                return i + 1 == b.len() && b[i].1 > a[i].1 && f.bb == b[i].0;
            }
        }
        b.len() < a.len()
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum At {
    L(usize, usize, u32, u8),
    H(usize, u32, u8),
}
impl At {
    fn obj(&self) -> (usize, usize, usize) {
        match self {
            At::L(f, l, _, _) => (0, *f, *l),
            At::H(k, _, _) => (1, *k, 0),
        }
    }
    fn off(&self) -> u32 {
        match self {
            At::L(_, _, o, _) | At::H(_, o, _) => *o,
        }
    }
    fn size(&self) -> u8 {
        match self {
            At::L(_, _, _, s) | At::H(_, _, s) => *s,
        }
    }
}
fn each<'a>(st: &'a State, mut g: impl FnMut(At, &'a Cell)) {
    for (i, f) in st.frames.iter().enumerate() {
        for (j, o) in f.locals.iter().enumerate() {
            for c in &o.cells {
                g(At::L(i, j, c.off, c.size), c);
            }
        }
    }
    for (k, o) in st.heap.iter().enumerate() {
        if let Some(o) = o {
            for c in &o.cells {
                g(At::H(k, c.off, c.size), c);
            }
        }
    }
}
fn get<'a>(st: &'a State, a: At) -> Option<&'a Cell> {
    match a {
        At::L(f, l, o, s) => st.frames.get(f)?.locals.get(l)?.get(o, s),
        At::H(k, o, s) => st.heap.get(k)?.as_ref()?.get(o, s),
    }
}
fn set(st: &mut State, a: At, v: Val) {
    let c = Cell { off: a.off(), size: a.size(), ctl: false, v };
    match a {
        At::L(f, l, _, _) => Rc::make_mut(&mut st.frames[f].locals)[l].set(c),
        At::H(k, _, _) => Rc::make_mut(st.heap[k].as_mut().unwrap()).set(c),
    }
}
fn newer(v: &Val, q: Var) -> bool {
    match v {
        Val::P(p) | Val::Ptr(_, _, Some(p)) => p.vars().iter().any(|x| *x >= q),
        _ => false,
    }
}
fn poly(st: &State, a: At) -> Option<Poly> {
    match &get(st, a)?.v {
        Val::C(c) => Some(Poly::cst(*c)),
        Val::P(p) => Some((**p).clone()),
        _ => None,
    }
}
/// coefficient of v, when v occurs only linearly
fn coef(p: &BPoly, v: Var) -> Option<BPoly> {
    let mut r = BPoly::zero();
    for (m, k) in &p.0 {
        match m.iter().filter(|x| **x == v).count() {
            0 => (),
            1 => {
                let n = m.iter().cloned().filter(|x| *x != v).collect();
                r.0.insert(n, *k);
            }
            _ => return None,
        }
    }
    Some(r)
}
fn maxvar(p: &BPoly) -> Var {
    p.0.keys().flat_map(|m| m.iter().cloned()).max().unwrap_or(0)
}
pub fn generalise(g: &mut [State], q: Var, dbg: bool) -> bool {
    let mut cells: BTreeSet<At> = BTreeSet::new();
    let mut bad = false;
    for s in g.iter() {
        each(s, |a, c| {
            if newer(&c.v, q) {
                if c.ctl || c.size != 4 {
                    bad = true;
                }
                cells.insert(a);
            }
        });
    }
    macro_rules! fail {
        ($($x:tt)*) => {{
            if dbg {
                eprintln!("no invariant for v{}: {}", q, format!($($x)*));
            }
            return false;
        }};
    }
    if cells.is_empty() {
        return true;
    }
    if bad {
        fail!("other cells depend on the guess");
    }
    // cells in which the paths differ
    for s in &g[1..] {
        each(s, |a, c| {
            if !c.ctl && c.size == 4 && get(&g[0], a).map_or(false, |d| d.v != c.v) {
                cells.insert(a);
            }
        });
    }
    let cells: Vec<At> = cells.into_iter().collect();
    // the digit may be kept in no cell at all (remainder): then it is the guess, corrected by a few units
    'digit: for d in 0..=cells.len() {
        let dc: Option<At> = cells.get(d).cloned();
        let limbs: Vec<At> = cells.iter().enumerate().filter(|x| x.0 != d).map(|x| *x.1).collect();
        if limbs.is_empty() || dc.is_none() && limbs.len() < 2 || limbs.windows(2).any(|w| w[0].obj() != w[1].obj() || w[0].off() + 4 != w[1].off()) {
            continue;
        }
        let mut wv: Option<(BPoly, BPoly)> = None;
        let mut hs: Vec<Facts> = g.iter().map(|s| s.facts.clone()).collect();
        let digit = |s: &State| match dc {
            Some(c) => poly(s, c),
            None => Some(Poly::var(q)),
        };
        let mut corr: Vec<Poly> = vec![Poly::cst(0); g.len()];
        for (i, s) in g.iter().enumerate() {
            let f = &s.facts;
            let Some(t) = digit(s) else { continue 'digit };
            let te = reduce(f, &f.expand(&BPoly::from(&t)));
            let mut gs = BPoly::zero();
            for (k, a) in limbs.iter().enumerate() {
                let Some(p) = poly(s, *a) else { continue 'digit };
                gs.addk(&BPoly::from(&p), &Big::pow10(9 * k as u32));
            }
            let ge = clean(f, &f.expand(&gs), q);
            // the divisor: what one unit of the digit takes away
            let v = match &wv {
                Some(x) => x.1.clone(),
                None => {
                    let (Some(c), Some(ct)) = (coef(&ge, q), coef(&te, q)) else { continue 'digit };
                    if ct != BPoly::cst(Big::from(1)) {
                        if g.len() > 1 && ct.is_zero() {
                            // decided by another path
                            let mut o = None;
                            for r in g.iter() {
                                if let Some(x) = divisor(r, dc, &limbs, q) {
                                    o = Some(x);
                                    break;
                                }
                            }
                            match o {
                                Some(x) => x,
                                None => continue 'digit,
                            }
                        } else {
                            if dbg {
                                eprintln!("digit {} : {}", deep::show(&te), deep::show(&ct));
                            }
                            continue 'digit;
                        }
                    } else {
                        c.scale(&Big::from(-1))
                    }
                }
            };
            if v.is_zero() || maxvar(&v) >= q {
                if dbg {
                    eprintln!("divisor {} from {}", deep::show(&v), deep::show(&ge));
                }
                continue 'digit;
            }
            let mut w = clean(f, &ge.add(&te.mul(&v)), q);
            if dc.is_none() {
                // a unit that is added back on a condition
                let mut left: Vec<Var> = w.0.keys().flat_map(|m| m.iter().cloned()).filter(|x| *x >= q).collect();
                left.sort();
                left.dedup();
                for t in left {
                    let Some(c) = coef(&w, t) else { continue };
                    for k in [1i128, -1] {
                        if c == v.scale(&Big::from(k)) {
                            w = w.sub(&v.scale(&Big::from(k)).mul(&BPoly::from(&Poly::var(t))));
                            corr[i] = corr[i].add(&Poly::var(t).scale(k).unwrap()).unwrap();
                            break;
                        }
                    }
                }
            }
            if maxvar(&w) >= q {
                // a combination that is left over may vanish without having been tested
                let mut h = f.clone();
                for c in f.cons.iter().rev() {
                    let vs = c.p.vars();
                    if c.lo == c.hi || !vs.iter().any(|x| *x >= q && w.0.keys().any(|m| m.contains(x))) || vs.iter().any(|x| *x >= q && !w.0.keys().any(|m| m.contains(x))) {
                        continue;
                    }
                    let b = f.bound(&c.p);
                    let (lo, hi) = (b.0.max(c.lo), b.1.min(c.hi));
                    let mut cs = vec![0, -1, 1];
                    for x in [lo, hi] {
                        if x.abs() < INF && !cs.contains(&x) {
                            cs.push(x);
                        }
                    }
                    for k in cs {
                        if k < lo || k > hi {
                            continue;
                        }
                        let p = BPoly::from(&c.p.addc(-k).unwrap());
                        if (hi <= k || deep::ble0(f, &p)) && (lo >= k || deep::ble0(f, &p.scale(&Big::from(-1)))) {
                            if h.assume(&c.p, k, k) {
                                w = clean(&h, &h.expand(&w), q);
                            }
                            break;
                        }
                    }
                    if maxvar(&w) < q {
                        break;
                    }
                }
                // carries and borrows left over: one of their values puts the limbs out of range
                let top = BPoly::cst(Big::pow10(9 * limbs.len() as u32));
                let mut left: Vec<Var> = w.0.keys().flat_map(|m| m.iter().cloned()).filter(|x| *x >= q).collect();
                left.sort();
                left.dedup();
                for t in left {
                    let (a, b) = h.var(t);
                    if b != a + 1 {
                        continue;
                    }
                    for (x, y) in [(a, b), (b, a)] {
                        let mut k = h.clone();
                        if !k.assume(&Poly::var(t), x, x) {
                            continue;
                        }
                        let ge = clean(&k, &k.expand(&gs), q);
                        if dbg {
                            eprintln!("if v{} = {} then limbs {}", t, x, deep::show(&ge));
                        }
                        if deep::ble0(&k, &top.sub(&ge)) || deep::ble0(&k, &ge.add(&BPoly::cst(Big::from(1)))) {
                            if h.assume(&Poly::var(t), y, y) {
                                w = clean(&h, &h.expand(&w), q);
                            }
                            break;
                        }
                    }
                }
                hs[i] = h;
            }
            if maxvar(&w) >= q {
                if dbg {
                    eprintln!("dividend {}", deep::show(&w));
                    crate::spec::dump(f);
                    for v in w.0.keys().flatten().filter(|x| **x >= q) {
                        eprintln!("  v{} {:?} def {:?} q {:?}", v, f.var(*v), vdef(*v).map(|x| x.show()), qinfo(*v).map(|x| (x.0.show(), x.1.show())));
                    }
                    for c in f.cons.iter() {
                        eprintln!("  {} <= {} <= {}", c.lo, c.p.show(), c.hi);
                    }
                }
                continue 'digit;
            }
            if dc.is_none() {
                let mut best: Option<(usize, i128, BPoly)> = None;
                for k in [0i128, 1, 2, -1, 3] {
                    let x = w.sub(&v.scale(&Big::from(k)));
                    let n = x.0.len();
                    if match &wv {
                        Some(y) => y.0 == x,
                        None => best.as_ref().map_or(true, |b| n < b.0),
                    } {
                        best = Some((n, k, x));
                    }
                }
                if let Some((_, k, x)) = best {
                    corr[i] = corr[i].addc(k).unwrap();
                    w = x;
                }
            }
            match &wv {
                None => wv = Some((w, v)),
                Some(x) => {
                    if x.0 != w {
                        if dbg {
                            eprintln!("different dividends {} | {}", deep::show(&x.0), deep::show(&w));
                        }
                        continue 'digit;
                    }
                }
            }
        }
        let (w, v) = wv.unwrap();
        // ranges
        let mut wide = (0, U - 1);
        for (i, (s, f)) in g.iter().zip(&hs).enumerate() {
            let mut gs = BPoly::zero();
            for (k, a) in limbs.iter().enumerate() {
                let p = poly(s, *a).unwrap();
                let b = f.range(&p, (0, U - 1));
                if b.0 < 0 && !deep::ble0(f, &BPoly::from(&p).scale(&Big::from(-1))) || b.1 > U - 1 && !deep::ble0(f, &BPoly::from(&p.addc(1 - U).unwrap())) {
                    fail!("limb outside its range {:?}: {}", b, p.show());
                }
                gs.addk(&BPoly::from(&p), &Big::pow10(9 * k as u32));
            }
            let t = digit(s).unwrap().sub(&corr[i]).unwrap();
            let b = f.range(&t, (0, U - 1));
            let out = |x: i128| {
                let mut k = f.clone();
                !k.assume(&t, x, x) || infeasible(&k, q)
            };
            let low = b.0 >= 0 || b.0 == -1 && out(-1) || deep::ble0(f, &BPoly::from(&t).scale(&Big::from(-1)));
            let high = b.1 < U || b.1 == U && out(U) || deep::ble0(f, &BPoly::from(&t.addc(1 - U).unwrap()));
            if dc.is_none() && b.0 > -INF / 4 && b.1 < INF / 4 {
                // a digit that is not kept may be anything
                if !low {
                    wide.0 = wide.0.min(b.0);
                }
                if !high {
                    wide.1 = wide.1.max(b.1);
                }
            } else if !low || !high {
                fail!("digit outside its range {:?}: {}", b, t.show());
            }
            let one = BPoly::cst(Big::from(1));
            let goal = gs.sub(&v).add(&one);
            if !deep::ble0(f, &clean(f, &f.expand(&goal), q)) && !deep::ble0(f, &goal) {
                if dbg {
                    crate::spec::dump(f);
                }
                fail!("partial remainder may not be smaller than the divisor: {} | {}", deep::show(&gs), deep::show(&v));
            }
        }
        // generalise
        let dq = fresh(&format!("Q{}", q), wide.0, wide.1);
        let ws: Vec<Var> = (0..limbs.len()).map(|k| fresh(&format!("r{}_{}", q, k), 0, U - 1)).collect();
        let mut gs = BPoly::zero();
        for (k, x) in ws.iter().enumerate() {
            gs.addk(&BPoly::from(&Poly::var(*x)), &Big::pow10(9 * k as u32));
        }
        let one = BPoly::cst(Big::from(1));
        let eq = Rc::new(gs.add(&BPoly::from(&Poly::var(dq)).mul(&v)).sub(&w));
        let le = Rc::new(gs.sub(&v).add(&one));
        if dbg {
            eprintln!("invariant: {} = 0", deep::show(&eq));
        }
        for s in g.iter_mut() {
            if let Some(c) = dc {
                set(s, c, Val::P(Rc::new(Poly::var(dq))));
            }
            for (k, a) in limbs.iter().enumerate() {
                set(s, *a, Val::P(Rc::new(Poly::var(ws[k]))));
            }
            let f = &mut s.facts;
            Rc::make_mut(&mut f.iv).truncate(q as usize);
            Rc::make_mut(&mut f.cons).retain(|c| c.p.vars().iter().all(|x| *x < q));
            let l = Rc::make_mut(&mut f.deep);
            l.retain(|d| d.eq);
            l.push(Deep { p: eq.clone(), eq: true, pivot: ws[0] });
            l.push(Deep { p: le.clone(), eq: false, pivot: 0 });
        }
        return true;
    }
    fail!("cells {:?}", cells)
}
/// the facts contradict each other
pub fn infeasible(f: &Facts, q: Var) -> bool {
    f.cons.iter().any(|c| {
        let d = c.p.t.iter().any(|(m, _)| mono_vars(*m).len() > 1);
        if !d && c.lo != c.hi || c.p.vars().iter().all(|x| *x < q) {
            return false;
        }
        let p = BPoly::from(&c.p);
        c.lo > -INF / 4 && deep::ble0(f, &p.add(&BPoly::cst(Big::from(1 - c.lo)))) || c.hi < INF / 4 && deep::ble0(f, &p.scale(&Big::from(-1)).add(&BPoly::cst(Big::from(1 + c.hi))))
    })
}
fn divisor(s: &State, d: Option<At>, limbs: &[At], q: Var) -> Option<BPoly> {
    let f = &s.facts;
    let t = match d {
        Some(d) => poly(s, d)?,
        None => Poly::var(q),
    };
    let te = reduce(f, &f.expand(&BPoly::from(&t)));
    if coef(&te, q)? != BPoly::cst(Big::from(1)) {
        return None;
    }
    let mut gs = BPoly::zero();
    for (k, a) in limbs.iter().enumerate() {
        gs.addk(&BPoly::from(&poly(s, *a)?), &Big::pow10(9 * k as u32));
    }
    let ge = clean(f, &f.expand(&gs), q);
    Some(coef(&ge, q)?.scale(&Big::from(-1)))
}
/// eliminate variables computed from the guess through equations known in the state
fn clean(f: &Facts, p: &BPoly, q: Var) -> BPoly {
    if maxvar(p) <= q {
        return p.clone();
    }
    reduce(f, p)
}
