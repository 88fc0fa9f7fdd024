//! Abstract numeric domain: bounded variables with global definitions, per-state intervals and
//! linear/polynomial range constraints.
use crate::poly::*;
use smallvec::SmallVec;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const INF: i128 = 1i128 << 120;

#[derive(Clone)]
pub struct VarInfo {
    pub name: String,
    pub lo: i128,
    pub hi: i128,
    /// exact definition in terms of older variables
    pub def: Option<Poly>,
}
#[derive(Default)]
pub struct VarTable {
    pub v: Vec<VarInfo>,
    pub forms: HashMap<SmallVec<[(Mono, i128); 2]>, (Var, i128)>,
    pub divs: HashMap<(Poly, Poly), (Var, Var)>,
    pub memo: HashMap<(u64, Poly), Var>,
    /// variables whose definition mentions a variable
    pub uses: HashMap<Var, Vec<Var>>,
    /// floor quotients: var -> (dividend, divisor)
    pub quot: HashMap<Var, (Poly, Poly)>,
    pub polymemo: HashMap<(u64, Poly, Poly), Option<Poly>>,
    /// what a variable without an exact definition was computed from
    pub src: HashMap<Var, Vec<Poly>>,
}
thread_local! {
    pub static VT: RefCell<VarTable> = RefCell::new(VarTable::default());
}
pub fn reset_vars() {
    VT.with(|t| {
        let mut t = t.borrow_mut();
        *t = VarTable::default();
        t.v.push(VarInfo { name: "1".into(), lo: 1, hi: 1, def: None });
    });
    crate::deep::reset(false);
}
pub fn nvars() -> usize {
    VT.with(|t| t.borrow().v.len())
}
pub fn fresh(name: &str, lo: i128, hi: i128) -> Var {
    VT.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.v.len() as Var;
        assert!(n < MAXVAR, "too many variables");
        t.v.push(VarInfo { name: name.to_string(), lo, hi, def: None });
        n
    })
}
pub fn vname(v: Var) -> String {
    VT.with(|t| {
        let t = t.borrow();
        let i = &t.v[v as usize];
        if i.name.is_empty() {
            format!("v{}", v)
        } else {
            format!("{}", i.name)
        }
    })
}
pub fn qinfo(v: Var) -> Option<(Poly, Poly)> {
    VT.with(|t| t.borrow().quot.get(&v).cloned())
}
pub fn derive(v: Var, ps: Vec<Poly>) {
    VT.with(|t| t.borrow_mut().src.entry(v).or_default().extend(ps));
}
pub fn derived(v: Var) -> Option<Vec<Poly>> {
    VT.with(|t| {
        let t = t.borrow();
        if let Some((a, b)) = t.quot.get(&v) {
            return Some(vec![a.clone(), b.clone()]);
        }
        t.src.get(&v).cloned()
    })
}
thread_local! {
    static FUEL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// p is computed from one of the given variables
pub fn tainted(f: &Facts, p: &BPoly, vs: &[Var]) -> bool {
    // nothing to expand when no definition leads to one of the variables
    let mut seen = HashSet::new();
    let mut work: Vec<Var> = p.0.keys().flat_map(|m| m.iter().cloned()).collect();
    let mut hit = false;
    while let Some(v) = work.pop() {
        if !seen.insert(v) {
            continue;
        }
        if vs.contains(&v) {
            hit = true;
            break;
        }
        work.extend(vdef(v).into_iter().chain(derived(v).into_iter().flatten()).flat_map(|q| q.vars()));
    }
    if !hit {
        return false;
    }
    let e = f.expand(p);
    if e.0.keys().any(|m| m.iter().any(|v| vs.contains(v))) {
        return true;
    }
    for v in e.0.keys().flat_map(|m| m.iter().cloned()) {
        for q in derived(v).into_iter().flatten() {
            if tainted(f, &BPoly::from(&q), vs) {
                return true;
            }
        }
    }
    false
}
pub fn vdef(v: Var) -> Option<Poly> {
    VT.with(|t| t.borrow().v[v as usize].def.clone())
}
/// name a polynomial: returns a variable equal to it
pub fn name_poly(name: &str, p: &Poly, lo: i128, hi: i128) -> Var {
    if let Some(v) = p.as_var() {
        return v;
    }
    if let Some((v, 0)) = VT.with(|t| t.borrow().forms.get(&p.t).cloned()).map(|(v, o)| (v, p.c - o)) {
        return v;
    }
    let v = fresh(name, lo, hi);
    VT.with(|t| {
        let mut t = t.borrow_mut();
        t.v[v as usize].def = Some(p.clone());
        for x in p.vars() {
            t.uses.entry(x).or_default().push(v);
        }
        t.forms.insert(p.t.clone(), (v, p.c));
    });
    v
}
thread_local! {
    static CUT: std::cell::Cell<Var> = std::cell::Cell::new(0);
}
/// variables below are not replaced by their definitions
pub fn cut() -> Var {
    CUT.with(|c| c.get())
}
pub fn set_cut(v: Var) {
    CUT.with(|c| c.set(v))
}
/// replace a polynomial by an equal named variable (plus constant) if there is one
pub fn alias(p: Poly) -> Poly {
    if p.t.len() < 2 {
        return p;
    }
    VT.with(|t| {
        let t = t.borrow();
        if let Some((v, o)) = t.forms.get(&p.t) {
            let mut r = Poly::var(*v);
            r.c = p.c - o;
            r
        } else {
            p
        }
    })
}

#[derive(Clone, Debug)]
pub struct Cons {
    /// constant-free form
    pub p: Poly,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Clone)]
pub struct Deep {
    /// p = 0 or p <= 0
    pub p: Rc<BPoly>,
    pub eq: bool,
    /// variable with coefficient 1 that an equation determines
    pub pivot: Var,
}
#[derive(Clone)]
pub struct Facts {
    pub iv: Rc<Vec<(i128, i128)>>,
    pub cons: Rc<Vec<Cons>>,
    /// facts about long numbers, used by the deep prover only
    pub deep: Rc<Vec<Deep>>,
}

fn sat(x: i128) -> i128 {
    x.clamp(-INF * 16, INF * 16)
}
fn smul(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) {
        Some(x) => sat(x),
        None => {
            if (a < 0) == (b < 0) {
                INF * 16
            } else {
                -INF * 16
            }
        }
    }
}
pub fn imul(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let x = [smul(a.0, b.0), smul(a.0, b.1), smul(a.1, b.0), smul(a.1, b.1)];
    (*x.iter().min().unwrap(), *x.iter().max().unwrap())
}
pub fn div_floor(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && (a < 0) != (b < 0) {
        q - 1
    } else {
        q
    }
}
pub fn div_ceil(a: i128, b: i128) -> i128 {
    -div_floor(-a, b)
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Facts {
    pub fn new() -> Facts {
        Facts { iv: Rc::new(vec![]), cons: Rc::new(vec![]), deep: Rc::new(vec![]) }
    }
    pub fn var(&self, v: Var) -> (i128, i128) {
        if let Some(x) = self.iv.get(v as usize) {
            *x
        } else {
            VT.with(|t| {
                let t = t.borrow();
                let i = &t.v[v as usize];
                (i.lo, i.hi)
            })
        }
    }
    pub fn set_var(&mut self, v: Var, lo: i128, hi: i128) {
        let n = self.iv.len();
        let iv = Rc::make_mut(&mut self.iv);
        if n <= v as usize {
            VT.with(|t| {
                let t = t.borrow();
                for i in n..=v as usize {
                    iv.push((t.v[i].lo, t.v[i].hi));
                }
            });
        }
        iv[v as usize] = (lo, hi);
    }
    pub fn mono(&self, m: Mono) -> (i128, i128) {
        let vs = mono_vars(m);
        match vs.len() {
            0 => (1, 1),
            1 => self.var(vs[0]),
            _ => {
                let mut r = self.var(vs[0]);
                for i in 1..vs.len() {
                    r = imul(r, self.var(vs[i]));
                }
                // even powers
                if vs.len() == 2 && vs[0] == vs[1] && r.0 < 0 {
                    r.0 = 0;
                }
                r
            }
        }
    }
    pub fn bound(&self, p: &Poly) -> (i128, i128) {
        let (mut lo, mut hi) = (p.c, p.c);
        for (m, k) in &p.t {
            let (a, b) = self.mono(*m);
            if *k > 0 {
                lo = sat(lo + smul(a, *k));
                hi = sat(hi + smul(b, *k));
            } else {
                lo = sat(lo + smul(b, *k));
                hi = sat(hi + smul(a, *k));
            }
        }
        (lo, hi)
    }
    /// eliminate with constraints / definitions; only as deep as needed
    pub fn bound_deep(&self, p: &Poly, depth: u32) -> (i128, i128) {
        // limited effort per outermost query
        if crate::pool::expired() {
            return self.bound(p);
        }
        if FUEL.with(|x| x.get()) == 0 {
            FUEL.with(|x| x.set(4000));
            let r = self.bound_deep_in(p, depth);
            FUEL.with(|x| x.set(0));
            return r;
        }
        self.bound_deep_in(p, depth)
    }
    fn bound_deep_in(&self, p: &Poly, depth: u32) -> (i128, i128) {
        let mut best = self.bound(p);
        let fuel = FUEL.with(|x| x.get());
        if fuel == 1 {
            return best;
        }
        FUEL.with(|x| x.set(fuel - 1));
        if p.t.is_empty() || depth == 0 || (p.t.len() == 1 && p.t[0].1.abs() == 1 && mono_single(p.t[0].0).is_some() && depth < 2) {
            return best;
        }
        let mut upd = |b: (i128, i128)| {
            best.0 = best.0.max(b.0);
            best.1 = best.1.min(b.1);
        };
        // exact multiples of constraints
        for c in self.cons.iter() {
            if c.p.t.len() > 24 {
                continue;
            }
            for (m, k) in c.p.t.iter() {
                if let Ok(i) = p.t.binary_search_by(|x| x.0.cmp(m)) {
                    let pk = p.t[i].1;
                    if pk % k != 0 {
                        continue;
                    }
                    let l = pk / k;
                    if let Some(q) = p.addk(&c.p, -l) {
                        // require progress: fewer terms or smaller width
                        if q.t.len() > p.t.len() + 2 {
                            continue;
                        }
                        let w0 = self.width(p);
                        let w1 = self.width(&q);
                        if q.t.len() >= p.t.len() && w1 >= w0 {
                            continue;
                        }
                        let b = if depth > 1 && q.t.len() > 0 { self.bound_deep(&q, depth - 1) } else { self.bound(&q) };
                        let (a0, a1) = if l > 0 { (smul(l, c.lo), smul(l, c.hi)) } else { (smul(l, c.hi), smul(l, c.lo)) };
                        upd((sat(b.0 + a0), sat(b.1 + a1)));
                    }
                }
            }
        }
        // expand definitions
        if depth > 1 {
            for v in p.vars() {
                if let Some(d) = vdef(v) {
                    if d.t.len() > 24 {
                        continue;
                    }
                    if let Some(q) = p.subst(v, &d) {
                        upd(self.bound_deep(&q, depth - 1));
                    }
                }
            }
        }
        best
    }
    fn width(&self, p: &Poly) -> i128 {
        let b = self.bound(p);
        sat(b.1 - b.0)
    }
    /// decide p <= 0 : Some(true) / Some(false) / unknown
    pub fn le0(&self, p: &Poly) -> Option<bool> {
        for d in [0, 1, 2, 3] {
            let b = if d == 0 { self.bound(p) } else { self.bound_deep(p, d) };
            if b.1 <= 0 {
                return Some(true);
            }
            if b.0 > 0 {
                return Some(false);
            }
        }
        None
    }
    pub fn eq0(&self, p: &Poly) -> Option<bool> {
        if p.t.is_empty() {
            return Some(p.c == 0);
        }
        let g = p.t.iter().fold(0, |a, x| gcd(a, x.1));
        if p.c % g != 0 {
            return Some(false);
        }
        for d in [0, 1, 2, 3] {
            let b = if d == 0 { self.bound(p) } else { self.bound_deep(p, d) };
            if b.0 > 0 || b.1 < 0 {
                return Some(false);
            }
            if b == (0, 0) {
                return Some(true);
            }
        }
        None
    }
    /// tight interval
    /// bounds of a variable from its definition
    fn defined_bound(&self, v: Var) -> Option<(i128, i128)> {
        let b = if let Some(d) = vdef(v) {
            self.bound(&d)
        } else {
            let (r, d) = qinfo(v)?;
            if !d.t.is_empty() || d.c <= 0 {
                return None;
            }
            let b = self.bound_deep(&r, 1);
            (div_floor(b.0, d.c), div_floor(b.1, d.c))
        };
        if b.0 > -INF / 4 && b.1 < INF / 4 {
            Some(b)
        } else {
            None
        }
    }
    pub fn range(&self, p: &Poly, want: (i128, i128)) -> (i128, i128) {
        let mut b = self.bound(p);
        for d in [1, 2, 3] {
            if b.0 >= want.0 && b.1 <= want.1 {
                break;
            }
            b = self.bound_deep(p, d);
        }
        b
    }
    fn refine(&mut self, v: Var, lo: i128, hi: i128, ch: &mut Vec<Var>) -> bool {
        let (a, b) = self.var(v);
        let (na, nb) = (a.max(lo), b.min(hi));
        if na > nb {
            return false;
        }
        if (na, nb) != (a, b) {
            self.set_var(v, na, nb);
            ch.push(v);
        }
        true
    }
    fn hc4(&mut self, p: &Poly, lo: i128, hi: i128, ch: &mut Vec<Var>) -> bool {
        let n = p.t.len();
        if n == 0 {
            return lo <= p.c && p.c <= hi;
        }
        let tot = self.bound(p);
        if tot.0 > hi || tot.1 < lo {
            return false;
        }
        if tot.0 >= lo && tot.1 <= hi {
            return true;
        }
        for i in 0..n {
            let (m, k) = p.t[i];
            let (a, b) = self.mono(m);
            let (ta, tb) = if k > 0 { (smul(a, k), smul(b, k)) } else { (smul(b, k), smul(a, k)) };
            // recompute the rest, earlier refinements may have changed it
            let tot = self.bound(p);
            if tot.0.abs() > INF || tot.1.abs() > INF || ta.abs() > INF || tb.abs() > INF {
                // one-sided reasoning with unbounded terms
                let mut rlo = p.c;
                let mut rhi = p.c;
                for (j, (m2, k2)) in p.t.iter().enumerate() {
                    if j != i {
                        let (a, b) = self.mono(*m2);
                        let (x, y) = if *k2 > 0 { (smul(a, *k2), smul(b, *k2)) } else { (smul(b, *k2), smul(a, *k2)) };
                        rlo = sat(rlo + x);
                        rhi = sat(rhi + y);
                    }
                }
                if !self.refine_term(m, k, sat(lo - rhi), sat(hi - rlo), ch) {
                    return false;
                }
                continue;
            }
            let rlo = tot.0 - ta;
            let rhi = tot.1 - tb;
            if !self.refine_term(m, k, sat(lo - rhi), sat(hi - rlo), ch) {
                return false;
            }
        }
        true
    }
    /// k*m in [lo,hi]
    fn refine_term(&mut self, m: Mono, k: i128, lo: i128, hi: i128, ch: &mut Vec<Var>) -> bool {
        let (l, h) = if k > 0 { (div_ceil(lo, k), div_floor(hi, k)) } else { (div_ceil(hi, k), div_floor(lo, k)) };
        let vs = mono_vars(m);
        if vs.len() == 1 {
            return self.refine(vs[0], l, h, ch);
        }
        if vs.len() == 2 {
            for (x, y) in [(vs[0], vs[1]), (vs[1], vs[0])] {
                let xi = self.var(x);
                let yi = self.var(y);
                if xi.0 >= 0 && yi.0 >= 0 {
                    if yi.0 >= 1 && h >= 0 && !self.refine(x, 0, h / yi.0, ch) {
                        return false;
                    }
                    if l > 0 && yi.1 >= 1 && !self.refine(x, div_ceil(l, yi.1), i128::MAX, ch) {
                        return false;
                    }
                    if l > 0 && yi.1 == 0 {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// assume lo <= p <= hi; false when infeasible
    pub fn assume(&mut self, p: &Poly, lo: i128, hi: i128) -> bool {
        if p.t.is_empty() {
            return lo <= p.c && p.c <= hi;
        }
        let g = p.t.iter().fold(0, |a, x| gcd(a, x.1));
        let neg = p.t[0].1 < 0;
        let mut q = p.clone();
        q.c = 0;
        for x in q.t.iter_mut() {
            x.1 /= g;
            if neg {
                x.1 = -x.1
            }
        }
        let (l, h) = (sat(lo - p.c), sat(hi - p.c));
        let (mut l, mut h) = (div_ceil(l, g), div_floor(h, g));
        if neg {
            let t = l;
            l = -h;
            h = -t;
        }
        if l > h {
            return false;
        }
        let b = self.bound(&q);
        if b.0 >= l && b.1 <= h {
            return true;
        }
        let mut ch = vec![];
        if q.t.len() > 1 || mono_single(q.t[0].0).is_none() {
            // record
            let cons = Rc::make_mut(&mut self.cons);
            let mut found = false;
            for c in cons.iter_mut() {
                if c.p == q {
                    c.lo = c.lo.max(l);
                    c.hi = c.hi.min(h);
                    l = c.lo;
                    h = c.hi;
                    found = true;
                }
            }
            if l > h {
                return false;
            }
            if !found {
                cons.push(Cons { p: q.clone(), lo: l, hi: h });
            }
        }
        if q.t.len() > 1 {
            // the form may have a name
            if let Some((w, o)) = VT.with(|t| t.borrow().forms.get(&q.t).cloned()) {
                if !self.refine(w, sat(l + o), sat(h + o), &mut ch) {
                    return false;
                }
            }
        }
        if !self.hc4(&q, l, h, &mut ch) {
            return false;
        }
        if let Some(v) = if q.t.len() == 1 { mono_single(q.t[0].0) } else { None } {
            if !ch.contains(&v) {
                ch.push(v);
            }
        }
        // propagate
        let mut rounds = 0;
        while !ch.is_empty() && rounds < 24 {
            rounds += 1;
            let mut cur: Vec<Var> = vec![];
            for v in std::mem::take(&mut ch) {
                if !cur.contains(&v) {
                    cur.push(v);
                }
            }
            let cons = self.cons.clone();
            for c in cons.iter() {
                if c.p.t.iter().any(|(m, _)| mono_vars(*m).iter().any(|v| cur.contains(v))) {
                    if !self.hc4(&c.p, c.lo, c.hi, &mut ch) {
                        return false;
                    }
                }
            }
            for v in &cur {
                if let Some(d) = vdef(*v) {
                    let (lo, hi) = self.var(*v);
                    if !self.hc4(&d, lo, hi, &mut ch) {
                        return false;
                    }
                }
                if !self.users(*v, &mut ch) {
                    return false;
                }
            }
        }
        true
    }
    /// propagate to the variables defined in terms of v
    fn users(&mut self, v: Var, ch: &mut Vec<Var>) -> bool {
        let us = VT.with(|t| t.borrow().uses.get(&v).cloned());
        for w in us.into_iter().flatten() {
            let (lo, hi) = self.var(w);
            if lo <= -INF && hi >= INF {
                continue;
            }
            let d = vdef(w).unwrap();
            let b = self.bound(&d);
            if b.0 > lo || b.1 < hi {
                if !self.refine(w, b.0, b.1, ch) {
                    return false;
                }
            }
            if !self.hc4(&d, lo, hi, ch) {
                return false;
            }
        }
        true
    }
    /// propagate all constraints and definitions; false when infeasible
    pub fn tighten(&mut self) -> bool {
        for _ in 0..16 {
            let mut ch = vec![];
            let cons = self.cons.clone();
            for c in cons.iter() {
                if !self.hc4(&c.p, c.lo, c.hi, &mut ch) {
                    return false;
                }
            }
            for v in 1..self.iv.len() as Var {
                let (lo, hi) = self.var(v);
                if lo <= -INF && hi >= INF {
                    continue;
                }
                if let Some(d) = vdef(v) {
                    let b = self.bound(&d);
                    if (b.0 > lo || b.1 < hi) && !self.refine(v, b.0, b.1, &mut ch) {
                        return false;
                    }
                    let (lo, hi) = self.var(v);
                    if !self.hc4(&d, lo, hi, &mut ch) {
                        return false;
                    }
                }
            }
            if ch.is_empty() {
                break;
            }
        }
        true
    }
    /// fully expand definitions, substituting variables fixed in this state
    pub fn expand(&self, p: &BPoly) -> BPoly {
        let cut = cut();
        let mut p = p.clone();
        loop {
            let mut mx: Option<(Var, BPoly)> = None;
            for (m, _) in &p.0 {
                for v in m {
                    if mx.as_ref().map_or(true, |x| x.0 < *v) {
                        let (lo, hi) = self.var(*v);
                        if lo == hi {
                            mx = Some((*v, BPoly::cst(Big::from(lo))));
                        } else if *v < cut {
                        } else if let Some(d) = vdef(*v) {
                            mx = Some((*v, BPoly::from(&d)));
                        }
                    }
                }
            }
            let Some((v, d)) = mx else { return p };
            p = bsubst(&p, v, &d);
        }
    }
    pub fn bbound(&self, p: &BPoly) -> (Big, Big) {
        let (mut lo, mut hi) = (Big::ZERO, Big::ZERO);
        for (m, k) in &p.0 {
            let (mut a, mut b) = (Big::from(1), Big::from(1));
            for v in m {
                let (x, y) = self.var(*v);
                let (x, y) = (Big::from(x), Big::from(y));
                let c = [a.mul(&x), a.mul(&y), b.mul(&x), b.mul(&y)];
                a = c[0];
                b = c[0];
                for z in &c {
                    if z.lt(&a) {
                        a = *z
                    }
                    if b.lt(z) {
                        b = *z
                    }
                }
            }
            let (a, b) = (a.mul(k), b.mul(k));
            if a.le(&b) {
                lo = lo.add(&a);
                hi = hi.add(&b);
            } else {
                lo = lo.add(&b);
                hi = hi.add(&a);
            }
        }
        (lo, hi)
    }
}

pub fn bsubst(p: &BPoly, v: Var, d: &BPoly) -> BPoly {
    let mut r = BPoly::zero();
    let mut keep = BPoly::zero();
    let one = Big::from(1);
    for (m, k) in &p.0 {
        let n = m.iter().filter(|x| **x == v).count();
        if n == 0 {
            keep.0.insert(m.clone(), *k);
            continue;
        }
        let rest: SmallVec<[Var; 4]> = m.iter().cloned().filter(|x| *x != v).collect();
        let mut t = BPoly::zero();
        t.0.insert(rest, *k);
        for _ in 0..n {
            t = t.mul(d);
        }
        r.addk(&t, &one);
    }
    r.addk(&keep, &one);
    r
}

/// maximal set of facts implied by both (interval hull; constraints valid in both)
pub fn join_facts(a: &Facts, b: &Facts) -> Facts {
    let n = a.iv.len().max(b.iv.len());
    let mut iv = Vec::with_capacity(n);
    // variables computed on one side only: their definitions bound them on the other
    let (mut a1, mut b1) = (a.clone(), b.clone());
    for i in 0..n as Var {
        let (x, y) = (a1.var(i), b1.var(i));
        let (fx, fy) = (x.0 > -INF && x.1 < INF, y.0 > -INF && y.1 < INF);
        if fx != fy {
            let s = if fx { &mut b1 } else { &mut a1 };
            if let Some(b) = s.defined_bound(i) {
                s.set_var(i, b.0, b.1);
            }
        }
        let (x, y) = (a1.var(i), b1.var(i));
        iv.push((x.0.min(y.0), x.1.max(y.1)));
    }
    let (a, b) = (&a1, &b1);
    let mut cons: Vec<Cons> = vec![];
    let mut r = Facts { iv: Rc::new(iv), cons: Rc::new(vec![]), deep: a.deep.clone() };
    if !Rc::ptr_eq(&a.deep, &b.deep) && (!a.deep.is_empty() || !b.deep.is_empty()) {
        r.deep = Rc::new(a.deep.iter().filter(|x| b.deep.iter().any(|y| y.eq == x.eq && (Rc::ptr_eq(&x.p, &y.p) || *x.p == *y.p))).cloned().collect());
    }
    for (s, o, first) in [(a, b, true), (b, a, false)] {
        for c in s.cons.iter() {
            if let Some(d) = o.cons.iter().find(|d| d.p == c.p) {
                if first {
                    cons.push(Cons { p: c.p.clone(), lo: c.lo.min(d.lo), hi: c.hi.max(d.hi) });
                }
            } else {
                let d = o.bound(&c.p);
                let (lo, hi) = (c.lo.min(d.0), c.hi.max(d.1));
                let j = r.bound(&c.p);
                if lo > j.0 || hi < j.1 {
                    cons.push(Cons { p: c.p.clone(), lo, hi });
                }
            }
        }
    }
    // "one of them is positive": x >= 1 on one side, x = 0 and z >= 1 on the other
    for (s, o) in [(a, b), (b, a)] {
        let mut zs: SmallVec<[Var; 2]> = SmallVec::new();
        let mut xs: SmallVec<[Poly; 4]> = SmallVec::new();
        for v in (1..n as Var).rev() {
            let (x, y) = (s.var(v), o.var(v));
            if x.0 == 0 && y.0 >= 1 && zs.len() < 2 {
                zs.push(v);
            }
            if x.0 >= 1 && y == (0, 0) && xs.len() < 3 {
                xs.push(Poly::var(v));
            }
        }
        let mut zs: SmallVec<[Poly; 4]> = zs.iter().map(|v| Poly::var(*v)).collect();
        for c in o.cons.iter().rev() {
            if c.lo >= 1 && zs.len() < 4 && s.bound(&c.p).0 == 0 && c.p.t.len() <= 12 {
                zs.push(c.p.clone());
            }
        }
        if zs.is_empty() {
            continue;
        }
        for c in s.cons.iter() {
            if c.lo >= 1 && xs.len() < 6 && o.bound(&c.p) == (0, 0) {
                xs.push(c.p.clone());
            }
        }
        for x in &xs {
            for z in &zs {
                if let Some(p) = x.add(z) {
                    let j = r.bound(&p);
                    if j.0 < 1 && !cons.iter().any(|c| c.p == p) {
                        cons.push(Cons { p, lo: 1, hi: j.1 });
                    }
                }
            }
        }
    }
    // variables fixed to different values on the two sides are affinely related
    let mut base: Option<(Var, i128, i128)> = None;
    let mut k = 0;
    for v in (1..n as Var).rev() {
        let (x, y) = (a.var(v), b.var(v));
        if x.0 != x.1 || y.0 != y.1 || x.0 == y.0 {
            continue;
        }
        let (c, e) = (x.0, y.0 - x.0);
        let Some((w, cw, ew)) = base else {
            base = Some((v, c, e));
            continue;
        };
        // (v - c) ew = (w - cw) e
        let g = gcd(e, ew);
        let (e, ew) = (e / g, ew / g);
        let (Some(p), Some(q)) = (Poly::var(v).scale(ew), Poly::var(w).scale(-e)) else { continue };
        let Some(mut p) = p.add(&q) else { continue };
        let (Some(z1), Some(z2)) = (c.checked_mul(ew), cw.checked_mul(e)) else { continue };
        let mut z = z1 - z2;
        if p.t[0].1 < 0 {
            p = p.scale(-1).unwrap();
            z = -z;
        }
        if let Some(o) = cons.iter_mut().find(|o| o.p == p) {
            o.lo = z;
            o.hi = z;
        } else {
            cons.push(Cons { p, lo: z, hi: z });
        }
        k += 1;
        if k >= 4 {
            break;
        }
    }
    r.cons = Rc::new(cons);
    r
}
