//! Proving polynomial inequalities from the facts of a state: quotients, remainders and carries are
//! eliminated through their defining equations, then multiples of known constraints are added until
//! interval bounds suffice.
use crate::dom::*;
use crate::poly::*;
use smallvec::SmallVec;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type M = SmallVec<[Var; 4]>;

thread_local! {
    pub static ON: Cell<bool> = Cell::new(false);
    static HOT: Cell<bool> = Cell::new(false);
    static BASE: Cell<Var> = Cell::new(0);
    pub static CALLS: Cell<(u64, u64)> = Cell::new((0, 0));
    static MEMO: RefCell<HashMap<(Poly, bool), Entry>> = RefCell::new(HashMap::new());
}
#[derive(Clone)]
struct Entry {
    seen: Vec<(Var, Option<i128>)>,
    r: Option<(BPoly, Big)>,
}
pub fn reset(on: bool) {
    ON.with(|x| x.set(on));
    HOT.with(|x| x.set(false));
    BASE.with(|b| b.set(0));
    set_cut(0);
    MEMO.with(|m| m.borrow_mut().clear());
}
/// forget rewritten forms
pub fn forget() {
    MEMO.with(|m| m.borrow_mut().clear())
}
/// a division by a variable has been seen
pub fn heat() {
    HOT.with(|x| x.set(true))
}
pub fn hot() -> bool {
    ON.with(|x| x.get()) && HOT.with(|x| x.get())
}
pub fn on() -> bool {
    ON.with(|x| x.get())
}

fn fits(p: &BPoly, k: &Big) -> bool {
    let b = k.bits();
    p.0.values().all(|x| x.bits() + b < 800)
}
fn scale(p: &BPoly, k: &Big) -> Option<BPoly> {
    if fits(p, k) {
        Some(p.scale(k))
    } else {
        None
    }
}
fn fixed(f: &Facts, v: Var) -> Option<i128> {
    let b = f.var(v);
    if b.0 == b.1 {
        Some(b.0)
    } else {
        None
    }
}
/// how a variable is rewritten
enum Rw {
    Keep,
    /// v = num / den
    Elim(Poly, i128),
    Def(Poly),
    Cst(i128),
    /// v * divisor = num
    Comp(Var, Poly),
}
/// the variable a selector is eliminated with: w = rest + k t
pub fn sel_elim(t: Var) -> Option<(Var, i128, Poly)> {
    VT.with(|x| {
        let x = x.borrow();
        if x.v[t as usize].def.is_some() || x.quot.contains_key(&t) || (x.v[t as usize].lo, x.v[t as usize].hi) != (0, 1) {
            return None;
        }
        let mut best: Option<(Var, i128, Poly)> = None;
        for w in x.uses.get(&t).into_iter().flatten() {
            let d = x.v[*w as usize].def.as_ref().unwrap();
            let mut k = 0;
            for (m, c) in &d.t {
                if mono_vars(*m).contains(&t) {
                    if mono_single(*m) == Some(t) {
                        k = *c;
                    } else {
                        k = 0;
                        break;
                    }
                }
            }
            if k.abs() >= 2 && best.as_ref().map_or(true, |b| b.1.abs() < k.abs()) {
                let mut r = d.clone();
                r.t.retain(|y| y.0 != mono_var(t));
                best = Some((*w, k, r));
            }
        }
        best
    })
}
fn rule(f: &Facts, v: Var, comp: bool) -> Rw {
    if let Some(c) = fixed(f, v) {
        return Rw::Cst(c);
    }
    if v < cut() {
        return Rw::Keep;
    }
    if let Some((a, b)) = qinfo(v) {
        let m = VT.with(|t| t.borrow().divs.get(&(a.clone(), b.clone())).map(|x| x.1));
        let Some(m) = m else { return Rw::Keep };
        let mut num = a;
        num = match num.sub(&Poly::var(m)) {
            Some(x) => x,
            None => return Rw::Keep,
        };
        if b.t.is_empty() {
            return Rw::Elim(num, b.c);
        }
        if let (Some(d), true) = (b.as_var(), comp) {
            return Rw::Comp(d, num);
        }
        return Rw::Keep;
    }
    if let Some(d) = vdef(v) {
        // remainder of a division, or the result of a selection: kept unless the quotient or
        // selector is known
        for w in d.vars() {
            if let Some((a, b)) = qinfo(w) {
                let m = VT.with(|t| t.borrow().divs.get(&(a, b.clone())).map(|x| x.1));
                if m == Some(v) && fixed(f, w).is_none() && (b.t.is_empty() || comp) {
                    return Rw::Keep;
                }
            }
            if fixed(f, w).is_none() {
                if let Some((x, _, _)) = sel_elim(w) {
                    if x == v {
                        return Rw::Keep;
                    }
                }
            }
        }
        return Rw::Def(d);
    }
    if let Some((w, k, r)) = sel_elim(v) {
        // t = (w - r) / k
        if let Some(n) = Poly::var(w).sub(&r) {
            return if k > 0 { Rw::Elim(n, k) } else { Rw::Elim(n.scale(-1).unwrap(), -k) };
        }
    }
    Rw::Keep
}
fn subst_frac(p: &BPoly, v: Var, num: &BPoly, den: &Big) -> Option<(BPoly, Big)> {
    let mx = p.0.keys().map(|m| m.iter().filter(|x| **x == v).count()).max().unwrap_or(0);
    let mut pw = vec![Big::from(1)];
    for _ in 0..mx {
        let x = *pw.last().unwrap();
        if x.bits() + den.bits() > 800 {
            return None;
        }
        pw.push(x.mul(den));
    }
    let mut r = BPoly::zero();
    let one = Big::from(1);
    for (m, k) in &p.0 {
        let n = m.iter().filter(|x| **x == v).count();
        if k.bits() + pw[mx - n].bits() > 800 {
            return None;
        }
        let k = k.mul(&pw[mx - n]);
        let rest: M = m.iter().cloned().filter(|x| *x != v).collect();
        let mut t = BPoly::zero();
        t.0.insert(rest, k);
        for _ in 0..n {
            if !num.0.values().all(|x| t.0.values().all(|y| x.bits() + y.bits() < 800)) {
                return None;
            }
            t = t.mul(num);
        }
        r.addk(&t, &one);
    }
    Some((r, pw[mx]))
}
fn reduce_pow(p: &mut BPoly, den: &mut Big) {
    let g = Big::from(1_000_000_000);
    loop {
        if !den.divisible(&g) || p.0.is_empty() || !p.0.values().all(|k| k.divisible(&g)) {
            return;
        }
        *den = den.div_exact(&g).unwrap();
        for k in p.0.values_mut() {
            *k = k.div_exact(&g).unwrap();
        }
    }
}
/// den * p rewritten without quotients, carries and names
pub fn rexp(f: &Facts, p: &BPoly, comp: bool, seen: &mut Vec<(Var, Option<i128>)>) -> Option<(BPoly, Big)> {
    let mut p = p.clone();
    let mut den = Big::from(1);
    let mut rules: HashMap<Var, Rw> = HashMap::new();
    let mut steps = 0;
    'outer: loop {
        steps += 1;
        if steps > 400 || p.0.len() > 600 {
            return None;
        }
        let mut vs: Vec<Var> = p.0.keys().flat_map(|m| m.iter().cloned()).collect();
        vs.sort();
        vs.dedup();
        for v in vs.into_iter().rev() {
            let rw = rules.entry(v).or_insert_with(|| {
                seen.push((v, fixed(f, v)));
                rule(f, v, comp)
            });
            match rw {
                Rw::Keep => continue,
                Rw::Cst(c) => {
                    p = bsubst(&p, v, &BPoly::cst(Big::from(*c)));
                }
                Rw::Def(d) => {
                    let d = BPoly::from(d);
                    let m = d.0.values().map(|x| x.bits()).max().unwrap_or(0);
                    if p.0.values().any(|x| x.bits() + 3 * m > 800) {
                        return None;
                    }
                    p = bsubst(&p, v, &d);
                }
                Rw::Elim(n, d) => {
                    let d = Big::from(*d);
                    let (q, k) = subst_frac(&p, v, &BPoly::from(n), &d)?;
                    p = q;
                    if den.bits() + k.bits() > 800 {
                        return None;
                    }
                    den = den.mul(&k);
                    reduce_pow(&mut p, &mut den);
                }
                Rw::Comp(d, n) => {
                    let hit: Vec<(M, Big)> = p.0.iter().filter(|(m, _)| m.contains(&v) && m.contains(d)).map(|(m, k)| (m.clone(), *k)).collect();
                    if hit.is_empty() {
                        continue;
                    }
                    let n = BPoly::from(n);
                    for (m, k) in hit {
                        p.0.remove(&m);
                        let mut rest = m.clone();
                        let i = rest.iter().position(|x| *x == v).unwrap();
                        rest.remove(i);
                        let i = rest.iter().position(|x| x == d).unwrap();
                        rest.remove(i);
                        let mut t = BPoly::zero();
                        t.0.insert(rest, k);
                        if !fits(&n, &k) {
                            return None;
                        }
                        p.addk(&t.mul(&n), &Big::from(1));
                    }
                }
            }
            continue 'outer;
        }
        return Some((p, den));
    }
}
fn rexp_memo(f: &Facts, p: &Poly, comp: bool) -> Option<(BPoly, Big)> {
    let key = (p.clone(), comp);
    if let Some(e) = MEMO.with(|m| m.borrow().get(&key).cloned()) {
        if e.seen.iter().all(|(v, c)| fixed(f, *v) == *c) {
            return e.r;
        }
    }
    let mut seen = vec![];
    let r = rexp(f, &BPoly::from(p), comp, &mut seen);
    MEMO.with(|m| m.borrow_mut().insert(key, Entry { seen, r: r.clone() }));
    r
}
fn upper(f: &Facts, m: &M, k: &Big) -> Big {
    let (mut a, mut b) = (Big::from(1), Big::from(1));
    for v in m {
        let (x, y) = f.var(*v);
        let (x, y) = (Big::from(x), Big::from(y));
        let c = [a.mul(&x), a.mul(&y), b.mul(&x), b.mul(&y)];
        a = c[0];
        b = c[0];
        for z in &c {
            if z.lt(&a) {
                a = *z
            }
            if b.lt(z) {
                b = *z
            }
        }
    }
    let (a, b) = (a.mul(k), b.mul(k));
    if a.le(&b) {
        b
    } else {
        a
    }
}
/// upper bound, grouping products by a common factor where that helps
pub fn ub(f: &Facts, p: &BPoly) -> Big {
    if crate::pool::expired() {
        return Big::pow10(200);
    }
    let mut tot = Big::ZERO;
    let mut contr: Vec<(&M, &Big, Big)> = vec![];
    for (m, k) in &p.0 {
        let u = upper(f, m, k);
        tot = tot.add(&u);
        contr.push((m, k, u));
    }
    if !(Big::ZERO.lt(&tot)) {
        return tot;
    }
    // group products by one factor
    let mut cand: BTreeMap<Var, usize> = BTreeMap::new();
    for (m, _) in &p.0 {
        if m.len() >= 1 {
            let mut l = 0;
            for v in m {
                if *v != l {
                    *cand.entry(*v).or_default() += 1;
                }
                l = *v;
            }
        }
    }
    for (v, n) in cand {
        if n < 2 || f.var(v).0 < 0 {
            continue;
        }
        let mut inner = BPoly::zero();
        let mut rest = BPoly::zero();
        for (m, k) in &p.0 {
            if let Some(i) = m.iter().position(|x| *x == v) {
                let mut r = m.clone();
                r.remove(i);
                inner.0.insert(r, *k);
            } else {
                rest.0.insert(m.clone(), *k);
            }
        }
        if inner.0.keys().all(|m| m.is_empty()) {
            continue;
        }
        let mut iu = Big::ZERO;
        for (m, k) in &inner.0 {
            iu = iu.add(&upper(f, m, k));
        }
        let x = f.var(v);
        let x = Big::from(if iu.is_neg() { x.0 } else { x.1 });
        if iu.bits() + x.bits() > 800 {
            continue;
        }
        let mut t = iu.mul(&x);
        for (m, k) in &rest.0 {
            t = t.add(&upper(f, m, k));
        }
        if t.lt(&tot) {
            tot = t;
        }
    }
    tot
}
/// p <= 0 for all constraints known in the state
fn constraints(f: &Facts, comp: bool) -> Vec<BPoly> {
    let mut r: Vec<BPoly> = vec![];
    for d in f.deep.iter().filter(|d| !d.eq) {
        if let Some((x, _)) = rexp(f, &d.p, comp, &mut vec![]) {
            r.push(x);
        }
    }
    let mut add = |p: Poly| {
        if let Some((x, _)) = rexp_memo(f, &p, comp) {
            if !x.0.is_empty() && ub(f, &x).is_neg() == false && !(ub(f, &x).is_zero() && x.0.len() == 1) {
                r.push(x);
            }
        }
    };
    for c in f.cons.iter() {
        if c.hi < INF / 4 {
            if let Some(p) = c.p.addc(-c.hi) {
                add(p);
            }
        }
        if c.lo > -INF / 4 {
            if let Some(p) = c.p.scale(-1).and_then(|p| p.addc(c.lo)) {
                add(p);
            }
        }
    }
    // ranges of variables that were rewritten
    for v in cut().max(1)..f.iv.len() as Var {
        let (lo, hi) = f.var(v);
        if lo == hi {
            if let Some(d) = vdef(v) {
                add(d.addc(-lo).unwrap());
                add(d.scale(-1).unwrap().addc(lo).unwrap());
            }
            if let Some((a, b)) = qinfo(v) {
                // a - lo b = m in [0, b-1]
                if b.t.is_empty() {
                    if let (Some(x), Some(y)) = (a.addc(-lo * b.c - (b.c - 1)), a.scale(-1).and_then(|p| p.addc(lo * b.c))) {
                        add(x);
                        add(y);
                    }
                }
            }
            continue;
        }
        if lo <= -INF / 4 || hi >= INF / 4 {
            continue;
        }
        let rewritten = vdef(v).is_some() || qinfo(v).map_or(false, |q| q.1.t.is_empty()) || sel_elim(v).is_some();
        if rewritten {
            add(Poly::var(v).addc(-hi).unwrap());
            add(Poly::var(v).scale(-1).unwrap().addc(lo).unwrap());
        }
    }
    r
}
fn div_mono(a: &M, b: &M) -> Option<M> {
    let mut r = a.clone();
    for v in b {
        let i = r.iter().position(|x| x == v)?;
        r.remove(i);
    }
    Some(r)
}
struct Search<'a> {
    f: &'a Facts,
    cons: &'a [BPoly],
    budget: u32,
    dbg: bool,
}
impl<'a> Search<'a> {
    /// x <= 0
    fn go(&mut self, x: &BPoly, depth: u32) -> bool {
        let u0 = ub(self.f, x);
        if !Big::ZERO.lt(&u0) {
            return true;
        }
        if self.dbg {
            eprintln!("  goal[{}] ub {} : {}", depth, u0.show(), show(x));
        }
        if depth == 0 || self.budget == 0 {
            return false;
        }
        let mut ms: Vec<(Big, &M, &Big)> = x.0.iter().filter(|(m, _)| !m.is_empty()).map(|(m, k)| (upper(self.f, m, k), m, k)).filter(|t| Big::ZERO.lt(&t.0)).collect();
        if ms.is_empty() {
            // a constant is left: products that are bounded from below
            ms = x.0.iter().filter(|(m, k)| m.len() > 1 && k.is_neg()).map(|(m, k)| (upper(self.f, m, k), m, k)).collect();
        }
        ms.sort_by(|a, b| b.0.cmp(&a.0));
        let mut tries: Vec<(Big, Big, BPoly)> = vec![];
        for (_, m, kx) in ms.iter().take(2) {
            for c in self.cons {
                for (mc, kc) in &c.0 {
                    if mc.is_empty() || kc.is_neg() != kx.is_neg() {
                        continue;
                    }
                    let Some(mu) = div_mono(m, mc) else { continue };
                    if mu.iter().any(|v| self.f.var(*v).0 < 0) {
                        continue;
                    }
                    if self.budget == 0 {
                        return false;
                    }
                    self.budget -= 1;
                    // s x - l mu c with both positive
                    let (ax, ac) = (if kx.is_neg() { kx.neg() } else { **kx }, if kc.is_neg() { kc.neg() } else { *kc });
                    let (s, l) = if let Some(q) = ax.div_exact(&ac) {
                        (Big::from(1), q)
                    } else if let Some(q) = ac.div_exact(&ax) {
                        (q, Big::from(1))
                    } else {
                        (ac, ax)
                    };
                    let Some(mut y) = scale(x, &s) else { continue };
                    // x is an integer
                    y.addk(&BPoly::cst(Big::from(1).sub(&s)), &Big::from(1));
                    let mut mc = BPoly::zero();
                    for (m, k) in &c.0 {
                        let mut r = m.clone();
                        r.extend(mu.iter().cloned());
                        r.sort();
                        mc.0.insert(r, *k);
                    }
                    if !fits(&mc, &l) {
                        continue;
                    }
                    y.addk(&mc, &l.neg());
                    let u = ub(self.f, &y);
                    if !Big::ZERO.lt(&u) {
                        return true;
                    }
                    // progress: at least a factor of two
                    if u.bits() + s.bits() > 800 || u0.bits() + s.bits() > 800 {
                        continue;
                    }
                    tries.push((u, s, y));
                }
            }
        }
        // compare u/s
        tries.sort_by(|a, b| {
            if a.0.bits() + b.1.bits() > 880 || b.0.bits() + a.1.bits() > 880 {
                return a.0.bits().cmp(&b.0.bits());
            }
            a.0.mul(&b.1).cmp(&b.0.mul(&a.1))
        });
        tries.truncate(3);
        for (_, _, y) in tries {
            if self.go(&y, depth - 1) {
                return true;
            }
        }
        false
    }
}
pub fn show(p: &BPoly) -> String {
    let s = p.show();
    if s.len() > 500 {
        format!("{}...", s.chars().take(500).collect::<String>())
    } else {
        s
    }
}
pub struct Known {
    c: [Option<Vec<BPoly>>; 2],
}
impl Known {
    pub fn new() -> Known {
        Known { c: [None, None] }
    }
    /// p <= 0 in every concrete state described by f
    pub fn le0(&mut self, f: &Facts, p: &BPoly) -> bool {
        CALLS.with(|c| c.set((c.get().0 + 1, c.get().1)));
        let dbg = std::env::var("ABS_DEEP").is_ok();
        for comp in [false, true] {
            let Some((mut x, den)) = rexp(f, p, comp, &mut vec![]) else { continue };
            // p is an integer: den * p <= den - 1 is enough
            x.addk(&BPoly::cst(Big::from(1).sub(&den)), &Big::from(1));
            if !Big::ZERO.lt(&ub(f, &x)) {
                return true;
            }
            if self.c[comp as usize].is_none() {
                self.c[comp as usize] = Some(constraints(f, comp));
            }
            let cons = self.c[comp as usize].as_ref().unwrap();
            if dbg {
                eprintln!("prove (comp {}) {} <= 0 with {} constraints", comp, show(&x), cons.len());
            }
            let mut s = Search { f, cons, budget: 4000, dbg };
            if s.go(&x, 4) {
                return true;
            }
            // without a quotient by a variable the second form is the same
            let vq = |p: &BPoly| p.0.keys().any(|m| m.iter().any(|v| qinfo(*v).map_or(false, |q| !q.1.t.is_empty())));
            if !comp && !vq(&x) && !cons.iter().any(|c| vq(c)) {
                break;
            }
        }
        CALLS.with(|c| c.set((c.get().0, c.get().1 + 1)));
        false
    }
}
pub fn le0(f: &Facts, p: &Poly) -> bool {
    ble0(f, &BPoly::from(p))
}
pub fn ble0(f: &Facts, p: &BPoly) -> bool {
    ble0_cases(f, p, &mut Known::new(), 3)
}
/// p <= 0, distinguishing cases by the selectors that joins have introduced since the last guess
fn ble0_cases(f: &Facts, p: &BPoly, k: &mut Known, depth: u32) -> bool {
    if k.le0(f, p) {
        return true;
    }
    let q = BASE.with(|b| b.get());
    if depth == 0 || q == 0 {
        return false;
    }
    // selectors that p depends on
    let mut seen: BTreeSet<Var> = BTreeSet::new();
    let mut work: Vec<Var> = p.0.keys().flat_map(|m| m.iter().cloned()).collect();
    while let Some(v) = work.pop() {
        if v < q || !seen.insert(v) {
            continue;
        }
        if let Some(d) = vdef(v) {
            work.extend(d.vars());
        }
        if let Some((a, b)) = qinfo(v) {
            work.extend(a.vars());
            work.extend(b.vars());
        }
        if let Some((w, _, r)) = sel_elim(v) {
            work.push(w);
            work.extend(r.vars());
        }
    }
    for v in seen {
        if f.var(v) == (0, 1) && vdef(v).is_none() && qinfo(v).is_none() && sel_elim(v).is_none() {
            return [0, 1].iter().all(|x| {
                let mut g = f.clone();
                !g.assume(&Poly::var(v), *x, *x) || ble0_cases(&g, p, &mut Known::new(), depth - 1)
            });
        }
    }
    false
}
/// the last quotient by a variable
pub fn base(v: Var) {
    BASE.with(|b| b.set(v))
}
/// decide p <= 0
pub fn decide(f: &Facts, p: &Poly) -> Option<bool> {
    let mut k = Known::new();
    let b = BPoly::from(p);
    if k.le0(f, &b) {
        return Some(true);
    }
    let n = BPoly::from(&p.scale(-1).and_then(|p| p.addc(1))?);
    if k.le0(f, &n) {
        return Some(false);
    }
    if ble0_cases(f, &b, &mut k, 3) {
        return Some(true);
    }
    if ble0_cases(f, &n, &mut k, 3) {
        return Some(false);
    }
    None
}
/// p == 0 in every concrete state described by f
pub fn zero(f: &Facts, p: &BPoly) -> bool {
    if let Some((x, _)) = rexp(f, p, false, &mut vec![]) {
        if x.is_zero() {
            return true;
        }
    }
    let mut k = Known::new();
    k.le0(f, p) && k.le0(f, &p.scale(&Big::from(-1)))
}
/// p is a multiple of a variable it is smaller than: then it is zero
pub fn vanishes(f: &Facts, p: &Poly) -> bool {
    if !hot() || p.t.is_empty() || !f.deep.iter().any(|d| d.eq) {
        return false;
    }
    let c = cut();
    set_cut(0);
    let e = through(f, &crate::spec::reduce(f, &f.expand(&BPoly::from(p))));
    let mut vs: Option<Vec<Var>> = None;
    for m in e.0.keys() {
        vs = Some(match vs {
            None => m.iter().cloned().collect(),
            Some(o) => o.into_iter().filter(|x| m.contains(x)).collect(),
        });
    }
    let b = f.bound(p);
    let small = content(&e).map_or(false, |c| Big::from(b.1).lt(&c) && Big::from(-b.0).lt(&c));
    // the same value under other names
    let mut same = vec![p.clone()];
    if !small && vs.as_ref().map_or(false, |v| !v.is_empty()) {
        let x = f.expand(&BPoly::from(p));
        for v in 1..f.iv.len() as Var {
            if vdef(v).is_some() && f.expand(&BPoly::from(&Poly::var(v))) == x {
                same.push(Poly::var(v));
            }
        }
    }
    let r = e.is_zero()
        || small
        || vs.unwrap_or_default().iter().any(|v| {
            let v = Poly::var(*v);
            let below = |p: &Poly| p.sub(&v).and_then(|x| x.addc(1)).map_or(false, |x| f.le0(&x) == Some(true));
            same.iter().any(|p| below(p) && (f.bound(p).0 >= 0 || p.scale(-1).map_or(false, |x| below(&x))))
        });
    set_cut(c);
    r
}
/// the equations of long division applied from the last digit to the first
pub fn through(f: &Facts, p: &BPoly) -> BPoly {
    let eqs: Vec<&Deep> = f.deep.iter().filter(|d| d.eq).collect();
    through_some(f, p, &eqs)
}
fn through_some(f: &Facts, p: &BPoly, eqs: &[&Deep]) -> BPoly {
    let mut p = p.clone();
    for d in eqs.iter().rev() {
        let e = f.expand(&d.p);
        // the newest variable both have in common
        let l = e.0.iter().rev().filter(|(m, _)| m.len() == 1 && e.0.keys().filter(|n| n.contains(&m[0])).count() == 1).filter_map(|(m, k)| {
            let x = p.0.get(m)?;
            let y = if k.is_neg() { x.div_exact(&k.neg())?.neg() } else { x.div_exact(k)? };
            Some((m[0], y))
        });
        let l = l.max_by_key(|x| x.0);
        if let Some((_, y)) = l {
            p.addk(&e, &y.neg());
        }
    }
    crate::spec::reduce(f, &p)
}
/// polynomials that vanish because of the equations of long division and of remainders known to be
/// zero, without the factors that cannot be zero; to be called without a cut
pub fn vanishing(f: &Facts) -> Vec<BPoly> {
    let eqs: Vec<&Deep> = f.deep.iter().filter(|d| d.eq).collect();
    let mut r = vec![];
    for i in 0..eqs.len() {
        r.push(through_some(f, &f.expand(&eqs[i].p), &eqs[..i]));
        r.push(through_some(f, &crate::spec::reduce(f, &f.expand(&eqs[i].p)), &eqs[..i]));
    }
    for c in f.cons.iter() {
        let b = f.bound(&c.p);
        let (lo, hi) = (c.lo.max(b.0), c.hi.min(b.1));
        if lo == hi {
            r.push(through_some(f, &crate::spec::reduce(f, &f.expand(&BPoly::from(&c.p.addc(-lo).unwrap()))), &eqs));
        }
    }
    for v in 1..f.iv.len() as Var {
        let x = f.var(v);
        let Some(d) = vdef(v) else { continue };
        if x.0 != x.1 && !(x.0 == 0 && x.1 < 1_000_000_000 && vanishes(f, &Poly::var(v))) {
            continue;
        }
        r.push(through_some(f, &crate::spec::reduce(f, &f.expand(&BPoly::from(&d.addc(-x.0).unwrap()))), &eqs));
    }
    for p in r.iter_mut() {
        loop {
            let Some(m) = p.0.keys().next() else { break };
            let Some(v) = m.iter().cloned().find(|v| f.var(*v).0 >= 1 && p.0.keys().all(|m| m.contains(v))) else { break };
            let mut q = BPoly::zero();
            for (m, k) in &p.0 {
                let mut n = m.clone();
                let i = n.iter().position(|x| *x == v).unwrap();
                n.remove(i);
                q.0.insert(n, *k);
            }
            *p = q;
        }
        if let Some(c) = content(p) {
            for k in p.0.values_mut() {
                *k = if k.is_neg() { k.neg().div_exact(&c).unwrap().neg() } else { k.div_exact(&c).unwrap() };
            }
        }
    }
    r.retain(|p| !p.is_zero());
    r
}
/// x < b because n x < n b follows from a division by n known to be exact; to be called without a cut
pub fn below(f: &Facts, x: &BPoly, b: &BPoly) -> bool {
    let x = f.expand(x);
    for v in 1..f.iv.len() as Var {
        let r = f.var(v);
        let (true, Some(d)) = (r.0 == r.1, vdef(v)) else { continue };
        let e = f.expand(&BPoly::from(&d.addc(-r.0).unwrap()));
        let mut ns: Vec<Var> = vec![];
        for m in e.0.keys().filter(|m| m.len() == 2) {
            for (n, y) in [(m[0], m[1]), (m[1], m[0])] {
                if f.var(n).0 >= 1 && x.0.keys().any(|m| m.len() == 1 && m[0] == y) && !ns.contains(&n) {
                    ns.push(n);
                }
            }
        }
        for n in ns {
            let n = BPoly::from(&Poly::var(n));
            let mut y = x.mul(&n);
            let hit = e.0.iter().filter(|(m, _)| m.len() == 2).find_map(|(m, k)| {
                let z = y.0.get(m)?;
                if k.is_neg() { Some(z.div_exact(&k.neg())?.neg()) } else { z.div_exact(k) }
            });
            let Some(k) = hit else { continue };
            y.addk(&e, &k.neg());
            if ble0(f, &y.sub(&f.expand(b).mul(&n)).add(&BPoly::cst(Big::from(1)))) {
                return true;
            }
        }
        for (m, k) in e.0.iter().filter(|(m, _)| m.len() == 1) {
            let Some(z) = x.0.get(m) else { continue };
            // n x - e or n x + e without this variable
            let (a, neg) = if k.is_neg() { (k.neg(), true) } else { (*k, false) };
            let (zz, zneg) = if z.is_neg() { (z.neg(), true) } else { (*z, false) };
            let Some(n) = a.div_exact(&zz) else { continue };
            let mut y = x.scale(&n);
            y.addk(&e, &Big::from(if neg == zneg { -1 } else { 1 }));
            if ble0(f, &y.sub(&f.expand(b).scale(&n)).add(&BPoly::cst(Big::from(1)))) {
                return true;
            }
        }
    }
    false
}
/// a number all coefficients are multiples of
fn content(p: &BPoly) -> Option<Big> {
    let abs = |k: &Big| if k.is_neg() { k.neg() } else { *k };
    let mut c: Option<Big> = None;
    for k in p.0.values() {
        let k = abs(k);
        if c.as_ref().map_or(true, |x| k.lt(x)) {
            c = Some(k);
        }
    }
    let c = c?;
    p.0.values().all(|k| abs(k).div_exact(&c).is_some()).then_some(c)
}
