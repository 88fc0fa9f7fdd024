//! Abstract interpreter over the IR.
use crate::deep;
use crate::dom::*;
use crate::ir::*;
use crate::lower::{AllocInfo, Lower};
use crate::mem::*;
use crate::poly::*;
use rustc_middle::ty::{self, Instance};
use smallvec::{smallvec, SmallVec};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum Stop {
    Split(Vec<Facts>),
    Bad(Kind, String),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Panic,
    Ub,
    Unsup,
    /// result influenced by something it must not depend on
    Dep,
}
pub type R<X> = Result<X, Stop>;

pub struct Bad<'tcx> {
    pub kind: Kind,
    pub msg: String,
    /// innermost location in the analysed crate
    pub span: String,
    pub func: String,
    pub trace: Vec<String>,
    pub st: State<'tcx>,
}

#[derive(Clone, Debug)]
pub struct Addr {
    pub o: ObjId,
    pub off: i64,
    pub sym: Option<Rc<Poly>>,
    pub meta: Option<Val>,
}

pub struct Interp<'a, 'tcx> {
    pub lw: &'a mut Lower<'tcx>,
    pub steps: u64,
    pub limit: u64,
    pub joins: u64,
    pub cov: HashMap<u32, HashSet<u32>>,
    pub bad: Vec<Bad<'tcx>>,
    pub done: Vec<State<'tcx>>,
    pub max_bad: usize,
    pub max_apart: usize,
    /// object whose writers are recorded (function, span)
    pub watch: Option<u32>,
    pub wr: RefCell<BTreeSet<(String, String)>>,
    /// objects the analysed function may only read
    pub ro: Vec<u32>,
    /// variables no branch may depend on
    pub secret: Vec<Var>,
    pub debug: bool,
    pub joindbg: bool,
    pub callee_names: HashMap<u32, Hook>,
    /// functions treated as unknown functions of their arguments
    pub uf: HashSet<u32>,
    pub uf_memo: HashMap<(String, u64), Var>,
    /// variables replaced by their values in control cells once determined
    pub norm: Vec<Var>,
    /// quotients by a variable whose iteration is not complete
    pub owners: Vec<crate::loopinv::Owner>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    None,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    DivEuclid,
    RemEuclid,
    Nop,
}
fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Bad(Kind::Unsup, s.into()))
}
fn ub<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Bad(Kind::Ub, s.into()))
}
pub fn irange(bits: u32, signed: bool) -> (i128, i128) {
    if bits >= 120 {
        (-INF, INF)
    } else if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, (1i128 << bits) - 1)
    }
}
pub fn wrap_i(x: i128, bits: u32, signed: bool) -> i128 {
    wrapc(x, bits, signed)
}
fn wrapc(x: i128, bits: u32, signed: bool) -> i128 {
    if bits >= 128 {
        return x;
    }
    let m = x & ((1i128 << bits) - 1);
    if signed && (m >> (bits - 1)) & 1 == 1 {
        m - (1i128 << bits)
    } else {
        m
    }
}
fn scint(t: &TyInfo) -> R<(u32, bool)> {
    match t.sc {
        Some(Sc::Int { bits, signed, .. }) => Ok((bits, signed)),
        Some(Sc::Ptr) => Ok((64, false)),
        None => unsup(format!("non-scalar type {:?}", t.ty)),
    }
}
fn isctl(t: &TyInfo) -> bool {
    match t.sc {
        Some(Sc::Int { ctl, .. }) => ctl,
        _ => true,
    }
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
    pub fn new(lw: &'a mut Lower<'tcx>) -> Self {
        Interp { lw, steps: 0, limit: u64::MAX, joins: 0, cov: HashMap::new(), bad: vec![], done: vec![], max_bad: 3, max_apart: 24, watch: None, wr: RefCell::new(BTreeSet::new()), ro: vec![], secret: vec![], debug: false,
            joindbg: std::env::var("ABS_JOINDBG").is_ok(), callee_names: HashMap::new(), uf: HashSet::new(), uf_memo: HashMap::new(), norm: vec![], owners: vec![] }
    }

    /// places that wrote the watched object, and the functions they are in
    pub fn writes(&self) -> (String, String) {
        let w = self.wr.borrow();
        let mut sp: Vec<String> = w.iter().map(|x| x.1.split(':').take(2).collect::<Vec<_>>().join(":")).collect();
        sp.sort();
        sp.dedup();
        let mut fs: Vec<String> = w.iter().map(|x| x.0.clone()).collect();
        fs.sort();
        fs.dedup();
        if sp.len() > 6 {
            sp.truncate(6);
            sp.push("...".into());
        }
        (sp.join(" "), fs.join(", "))
    }
    fn note_write(&self, st: &State<'tcx>, o: ObjId) {
        if let (ObjId::H(h), Some(w)) = (o, self.watch) {
            if h == w {
                for f in st.frames.iter().rev() {
                    if f.f.in_target {
                        let b = &f.f.blocks[f.bb as usize];
                        let sp = if (f.si as usize) < b.stmts.len() { b.stmts[f.si as usize].1 } else { b.term_span };
                        self.wr.borrow_mut().insert((f.f.name.clone(), f.f.spans[sp as usize].clone()));
                        break;
                    }
                }
            }
        }
    }
    // ------------------------------------------------------------ numeric helpers
    pub fn poly(&self, v: &Val) -> R<Poly> {
        match v {
            Val::C(x) => Ok(Poly::cst(*x)),
            Val::P(p) => Ok((**p).clone()),
            Val::Undef => ub("use of uninitialised value"),
            _ => unsup("arithmetic on a pointer"),
        }
    }
    fn norm(&self, f: &Facts, v: Val) -> Val {
        if let Val::P(p) = &v {
            if p.t.len() <= 4 {
                let b = f.bound(p);
                if b.0 == b.1 {
                    return Val::C(b.0);
                }
            }
        }
        v
    }
    /// decide p <= 0
    pub fn le(&self, f: &Facts, p: &Poly) -> R<bool> {
        if p.t.is_empty() {
            return Ok(p.c <= 0);
        }
        match f.le0(p) {
            Some(b) => Ok(b),
            None => {
                if deep::hot() {
                    if let Some(b) = deep::decide(f, p) {
                        // remember it
                        let mut g = f.clone();
                        let (lo, hi) = if b { (-INF, 0) } else { (1, INF) };
                        if g.assume(p, lo, hi) && g.le0(p) == Some(b) {
                            return Err(Stop::Split(vec![g]));
                        }
                        return Ok(b);
                    }
                }
                let mut v = vec![];
                for (lo, hi) in [(-INF, 0), (1, INF)] {
                    let mut g = f.clone();
                    if g.assume(p, lo, hi) {
                        v.push(g);
                    }
                }
                Err(Stop::Split(v))
            }
        }
    }
    /// sign of p
    pub fn sgn(&self, f: &Facts, p: &Poly) -> R<i32> {
        if p.t.is_empty() {
            return Ok(p.c.signum() as i32);
        }
        if let Some(true) = f.eq0(p) {
            return Ok(0);
        }
        let b = f.range(p, (1, INF));
        if b.0 > 0 {
            return Ok(1);
        }
        if b.1 < 0 {
            return Ok(-1);
        }
        self.split3(f, p)
    }
    fn split3<X>(&self, f: &Facts, p: &Poly) -> R<X> {
        let mut v = vec![];
        let (nn, np) = if deep::hot() { (deep::le0(f, &p.scale(-1).unwrap()), deep::le0(f, p)) } else { (false, false) };
        for (lo, hi) in [(-INF, -1), (0, 0), (1, INF)] {
            if hi < 0 && nn || lo > 0 && np {
                continue;
            }
            let mut g = f.clone();
            if g.assume(p, lo, hi) {
                v.push(g);
            }
        }
        Err(Stop::Split(v))
    }
    pub fn eqz(&self, f: &Facts, p: &Poly) -> R<bool> {
        match f.eq0(p) {
            // cannot be, and cannot be otherwise: no such state
            Some(false) if deep::vanishes(f, p) => Err(Stop::Split(vec![])),
            Some(b) => Ok(b),
            None if deep::vanishes(f, p) => {
                let mut g = f.clone();
                if !g.assume(p, 0, 0) {
                    return Err(Stop::Split(vec![]));
                }
                Err(Stop::Split(vec![g]))
            }
            None => self.split3(f, p),
        }
    }
    pub fn split_ranges<X>(&self, f: &Facts, p: &Poly, rs: &[(i128, i128)]) -> R<X> {
        let mut v = vec![];
        for (lo, hi) in rs {
            let mut g = f.clone();
            if g.assume(p, *lo, *hi) {
                if deep::hot() && rs.len() <= 3 {
                    // p > hi or p < lo in every concrete state?
                    if *hi < INF && p.scale(-1).and_then(|q| q.addc(*hi + 1)).map_or(false, |q| deep::le0(f, &q)) || *lo > -INF && p.addc(1 - *lo).map_or(false, |q| deep::le0(f, &q)) {
                        continue;
                    }
                }
                v.push(g);
            }
        }
        Err(Stop::Split(v))
    }
    /// a value known to be f(p): constant, affine, or by splitting; None of f means outside the domain
    pub fn fit(&self, fc: &Facts, p: &Poly, memo: u64, f: &dyn Fn(i128) -> Option<i128>) -> R<Val> {
        if p.t.is_empty() {
            return match f(p.c) {
                Some(x) => Ok(Val::C(x)),
                None => ub("value outside the domain of a lookup"),
            };
        }
        // affine in the individual variables
        let vs = p.vars();
        let mut n: i128 = 1;
        for v in &vs {
            let (lo, hi) = fc.var(*v);
            n = n.saturating_mul((hi - lo).saturating_add(1));
            if n > 4096 {
                break;
            }
        }
        let linear = p.t.iter().all(|t| mono_single(t.0).is_some());
        if n <= 4096 && linear {
            if let Some(r) = self.fit_vars(fc, p, f) {
                return Ok(r);
            }
        }
        let (lo, hi) = fc.range(p, (INF, -INF));
        if hi - lo > 8192 {
            return unsup("lookup over a large range");
        }
        let vals: Vec<Option<i128>> = (lo..=hi).map(|x| f(x)).collect();
        let m = vals.len();
        let mut runs: Vec<(usize, usize, i128)> = vec![];
        let mut i = 0;
        while i < m {
            let Some(a) = vals[i] else {
                let mut j = i;
                while j < m && vals[j].is_none() {
                    j += 1;
                }
                runs.push((i, j, i128::MAX));
                i = j;
                continue;
            };
            let mut j = i + 1;
            while j < m && vals[j] == Some(a) {
                j += 1;
            }
            let mut k = i + 1;
            let mut slope = 0;
            if k < m {
                if let Some(b) = vals[k] {
                    slope = b - a;
                    while k < m && vals[k] == Some(a + slope * (k - i) as i128) {
                        k += 1;
                    }
                }
            }
            if slope != 0 && k - i >= 3 && k - i >= 2 * (j - i) {
                runs.push((i, k, slope));
                i = k;
            } else {
                runs.push((i, j, 0));
                i = j;
            }
        }
        if runs.len() == 1 {
            let (i, _, s) = runs[0];
            if s == i128::MAX {
                return ub("value outside the domain of a lookup");
            }
            let a = vals[i].unwrap();
            if s == 0 {
                return Ok(Val::C(a));
            }
            // a + s*(p-lo)
            let r = p.scale(s).and_then(|q| q.addc(a - s * lo));
            return match r {
                Some(r) => Ok(mk(r)),
                None => unsup("coefficient overflow"),
            };
        }
        if runs.len() <= 24 || vals.iter().any(|v| v.is_none()) && runs.len() <= 200 {
            let rs: Vec<(i128, i128)> = runs.iter().map(|r| (lo + r.0 as i128, lo + r.1 as i128 - 1)).collect();
            return self.split_ranges(fc, p, &rs);
        }
        if vals.iter().any(|v| v.is_none()) {
            return unsup("lookup with many undefined values");
        }
        let mn = vals.iter().map(|x| x.unwrap()).min().unwrap();
        let mx = vals.iter().map(|x| x.unwrap()).max().unwrap();
        Ok(Val::P(Rc::new(Poly::var(memo_var(memo.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (lo as u64).wrapping_mul(0xff51_afd7_ed55_8ccd) ^ (hi as u64).wrapping_mul(0xc4ce_b9fe_1a85_ec53), p, mn, mx)))))
    }
    fn fit_vars(&self, fc: &Facts, p: &Poly, f: &dyn Fn(i128) -> Option<i128>) -> Option<Val> {
        let ts: Vec<(Var, i128, i128, i128)> = p
            .t
            .iter()
            .map(|(m, k)| {
                let v = mono_single(*m).unwrap();
                let (lo, hi) = fc.var(v);
                (v, *k, lo, hi)
            })
            .collect();
        let base: i128 = p.c + ts.iter().map(|t| t.1 * t.2).sum::<i128>();
        let f0 = f(base)?;
        let mut ks = vec![];
        for t in &ts {
            ks.push(if t.3 > t.2 { f(base + t.1)? - f0 } else { 0 });
        }
        // check all combinations
        let mut idx = vec![0i128; ts.len()];
        loop {
            let x: i128 = base + ts.iter().zip(&idx).map(|(t, i)| t.1 * i).sum::<i128>();
            let y: i128 = f0 + ks.iter().zip(&idx).map(|(k, i)| k * i).sum::<i128>();
            if f(x) != Some(y) {
                return None;
            }
            let mut j = 0;
            while j < ts.len() {
                idx[j] += 1;
                if ts[j].2 + idx[j] <= ts[j].3 {
                    break;
                }
                idx[j] = 0;
                j += 1;
            }
            if j == ts.len() {
                break;
            }
        }
        let mut r = Poly::cst(f0);
        for (t, k) in ts.iter().zip(&ks) {
            let v = Poly::var(t.0).addc(-t.2)?;
            r = r.addk(&v, *k)?;
        }
        Some(mk(r))
    }
    fn interval_var(&self, st: &mut State<'tcx>, lo: i128, hi: i128) -> Val {
        let v = fresh("", -INF, INF);
        st.facts.set_var(v, lo, hi);
        Val::P(Rc::new(Poly::var(v)))
    }
    /// upper-bound test for quotients: a <= k*v - 1 for a scale variable v of a
    fn ktest(&self, f: &Facts, a: &Poly, d: &Poly) -> Vec<Poly> {
        // returns polys e with floor(a/d) <= e proven
        let mut r = vec![];
        if d.t.is_empty() {
            let mut cand: SmallVec<[Var; 4]> = SmallVec::new();
            for (m, _) in &a.t {
                let vs = mono_vars(*m);
                if vs.len() == 2 {
                    for v in vs {
                        if !cand.contains(&v) {
                            cand.push(v)
                        }
                    }
                }
            }
            if cand.len() > 6 {
                return r;
            }
            for v in cand {
                // a - d*v + 1 <= 0 with v kept symbolic
                let Some(mut p) = a.addk(&Poly::var(v), -d.c).and_then(|p| p.addc(1)) else { continue };
                let (vlo, _) = f.var(v);
                if vlo < 0 {
                    continue;
                }
                let mut ok = true;
                let ts: Vec<(Mono, i128)> = p.t.iter().cloned().collect();
                for (m, k) in ts {
                    let vs = mono_vars(m);
                    if vs.len() == 2 && vs.contains(&v) {
                        let o = if vs[0] == v { vs[1] } else { vs[0] };
                        let (lo, hi) = f.var(o);
                        let b = if k > 0 { hi } else { lo };
                        if b.abs() >= INF {
                            ok = false;
                            break;
                        }
                        let mut t = Poly::cst(0);
                        t.t.push((m, k));
                        let Some(q) = p.sub(&t).and_then(|q| q.addk(&Poly::var(v), k.checked_mul(b).unwrap_or(INF))) else {
                            ok = false;
                            break;
                        };
                        p = q;
                    }
                }
                if ok && f.le0(&p) == Some(true) {
                    r.push(Poly::var(v).addc(-1).unwrap());
                }
            }
        }
        r
    }
    /// truncated division; b > 0 must be decidable
    pub fn divrem(&mut self, st: &mut State<'tcx>, a: &Poly, b: &Poly) -> R<(Poly, Poly)> {
        if let (true, true) = (a.t.is_empty(), b.t.is_empty()) {
            return Ok((Poly::cst(a.c / b.c), Poly::cst(a.c % b.c)));
        }
        let z = self.sgn(&st.facts, b)?;
        if z == 0 {
            return ub("division by zero");
        }
        if z < 0 {
            let (q, r) = self.divrem(st, a, &b.scale(-1).unwrap())?;
            return Ok((q.scale(-1).unwrap(), r));
        }
        // sign of a
        let na = a.scale(-1).ok_or(()).or_else(|_| unsup("coefficient overflow"))?;
        let nonneg = match self.le(&st.facts, &na) {
            Ok(x) => x,
            Err(e) => return Err(e),
        };
        if !nonneg {
            let (q, r) = self.divrem(st, &na, b)?;
            return Ok((q.scale(-1).unwrap(), r.scale(-1).unwrap()));
        }
        if b.t.is_empty() {
            let d = b.c;
            if d == 1 {
                return Ok((a.clone(), Poly::cst(0)));
            }
            let mut e = Poly::cst(div_floor(a.c, d));
            let mut rest = Poly::cst(a.c - e.c * d);
            for (m, k) in &a.t {
                if k % d == 0 {
                    e.t.push((*m, k / d));
                } else {
                    rest.t.push((*m, *k));
                }
            }
            let mut rg = st.facts.range(&rest, (0, d - 1));
            // larger coefficients may be split into a multiple and a remainder
            if !(rg.0 >= 0 && rg.1 < d) && rest.t.iter().any(|t| t.1.abs() > d) {
                let mut e2 = Poly::cst(0);
                let mut r2 = Poly::cst(rest.c);
                for (m, k) in &rest.t {
                    let q = div_floor(*k, d);
                    if q != 0 {
                        e2.t.push((*m, q));
                    }
                    if k - q * d != 0 {
                        r2.t.push((*m, k - q * d));
                    }
                }
                let g2 = st.facts.range(&r2, (0, d - 1));
                if g2.0 >= 0 && g2.1 < d {
                    e = e.add(&e2).unwrap();
                    rest = r2;
                    rg = g2;
                }
            }
            let fl = div_floor(rg.0, d);
            if fl == div_floor(rg.1, d) {
                let q = e.addc(fl).unwrap();
                let r = rest.addc(-fl * d).unwrap();
                if deep::on() && rest.t.len() > 1 && rest.t.iter().any(|x| mono_vars(x.0).len() > 1) {
                    let v = name_poly("", &r, -INF, INF);
                    let c = st.facts.var(v);
                    let (x, y) = (c.0.max(rg.0 - fl * d), c.1.min(rg.1 - fl * d));
                    st.facts.set_var(v, x, y);
                    return Ok((alias(q), Poly::var(v)));
                }
                return Ok((alias(q), alias(r)));
            }
            let (q0, m0) = self.quot(st, &rest, b, rg)?;
            let q = match e.add(&Poly::var(q0)) {
                Some(q) => q,
                None => return unsup("coefficient overflow"),
            };
            return Ok((alias(q), Poly::var(m0)));
        }
        let rg = st.facts.range(a, (0, INF));
        // smaller than the divisor?
        if let Some(p) = a.sub(b).and_then(|p| p.addc(1)) {
            if st.facts.le0(&p) == Some(true) {
                return Ok((Poly::cst(0), a.clone()));
            }
        }
        let (q0, m0) = self.quot(st, a, b, (rg.0.max(0), rg.1))?;
        Ok((Poly::var(q0), Poly::var(m0)))
    }
    /// quotient and remainder rounding down, constant divisor
    pub fn floor_div(&mut self, st: &mut State<'tcx>, a: &Poly, d: i128) -> R<(Poly, Poly)> {
        if a.t.is_empty() {
            let q = div_floor(a.c, d);
            return Ok((Poly::cst(q), Poly::cst(a.c - q * d)));
        }
        let rg = st.facts.range(a, (0, d - 1));
        let q = div_floor(rg.0, d);
        if q == div_floor(rg.1, d) {
            let m = a.addc(-q * d).unwrap();
            return Ok((Poly::cst(q), alias(m)));
        }
        if rg.0 <= -INF || rg.1 >= INF {
            return unsup("division of an unbounded value");
        }
        let (q, m) = self.quot(st, a, &Poly::cst(d), rg)?;
        Ok((Poly::var(q), Poly::var(m)))
    }
    fn quot(&mut self, st: &mut State<'tcx>, a: &Poly, b: &Poly, rg: (i128, i128)) -> R<(Var, Var)> {
        let key = (a.clone(), b.clone());
        let known = VT.with(|t| t.borrow().divs.get(&key).cloned());
        let (q, m) = match known {
            Some(x) => x,
            None => {
                let q = fresh("", -INF, INF);
                if !b.t.is_empty() {
                    deep::heat();
                    if deep::on() {
                        deep::base(q);
                        let o = crate::loopinv::owner(st, q);
                        self.owners.extend(o);
                    }
                }
                let Some(mp) = Poly::var(q).mul(b).and_then(|p| a.sub(&p)) else { return unsup("division of a high-degree term") };
                let m = if b.t.is_empty() { name_poly("", &mp, 0, b.c - 1) } else { name_poly("", &mp, -INF, INF) };
                VT.with(|t| {
                    let mut t = t.borrow_mut();
                    t.quot.insert(q, key.clone());
                    t.divs.insert(key, (q, m));
                });
                (q, m)
            }
        };
        let mut bb = st.facts.bound(b);
        bb.0 = bb.0.max(1);
        // a divisor that was normalised
        let half = 500_000_000i128;
        if !b.t.is_empty() && !a.t.is_empty() && deep::hot() && bb.0 < half && bb.1 >= half && bb.1 < 2 * half {
            if b.scale(-1).and_then(|p| p.addc(half)).map_or(false, |p| deep::le0(&st.facts, &p)) {
                st.facts.assume(b, half, INF);
                bb.0 = half;
            }
        }
        let mut lo = div_floor(rg.0, if rg.0 >= 0 { bb.1 } else { bb.0 });
        let mut hi = div_floor(rg.1, if rg.1 >= 0 { bb.0 } else { bb.1 });
        if !b.t.is_empty() {
            // relational bounds: a <= k*b - 1
            for k in [10, 1000, 1_000_000_000i128] {
                if k - 1 < hi {
                    if let Some(p) = b.scale(-k).and_then(|p| p.add(a)).and_then(|p| p.addc(1)) {
                        if st.facts.le0(&p) == Some(true) {
                            hi = k - 1;
                            break;
                        }
                    }
                }
            }
        }
        if b.t.is_empty() && b.c == 1_000_000_000 && deep::hot() && lo == 0 && hi > 0 && hi < 10 {
            // a carry that is never set
            if a.addc(1 - b.c).map_or(false, |p| deep::le0(&st.facts, &p)) {
                hi = 0;
            }
        }
        if !b.t.is_empty() && deep::hot() && hi > 1_000_000_000 && hi < 1i128 << 60 {
            for k in [1_000_000_000i128, 1_000_000_001, 1_000_000_002] {
                let Some(p) = b.scale(-k).and_then(|p| p.add(a)).and_then(|p| p.addc(1)) else { continue };
                if deep::le0(&st.facts, &p) {
                    hi = hi.min(k - 1);
                    let mut g = st.facts.clone();
                    if g.le0(&p) != Some(true) && g.assume(&p, -INF, 0) && g.le0(&p) == Some(true) {
                        // remember it
                        return Err(Stop::Split(vec![g]));
                    }
                    break;
                }
            }
        }
        if !b.t.is_empty() && deep::on() && cut() == 0 && crate::loopinv::owner(st, q).is_some() {
            // what came before the loop is not looked into again
            set_cut(q);
            deep::forget();
        }
        let c = st.facts.var(q);
        lo = lo.max(c.0);
        hi = hi.min(c.1);
        if lo > hi {
            return unsup("empty quotient range");
        }
        if (lo, hi) != c {
            st.facts.set_var(q, lo, hi);
        }
        if a.t.is_empty() && !b.t.is_empty() && a.c > 0 && lo >= 1 && deep::on() {
            // least multiple: for quotient q the divisor exceeds a/(q+1)
            let mut l = lo * bb.0.max(a.c / (lo + 1) + 1);
            if hi > lo {
                l = l.min((lo + 1) * a.c / (lo + 2));
            }
            if let Some(p) = Poly::var(q).mul(b) {
                st.facts.assume(&p, l, a.c);
            }
        }
        let kt = self.ktest(&st.facts, a, b);
        for e in kt {
            if let Some(p) = Poly::var(q).sub(&e) {
                st.facts.assume(&p, -INF, 0);
            }
        }
        let c = st.facts.var(m);
        let want = (0.max(c.0), (bb.1 - 1).min(c.1));
        if want.0 > want.1 {
            return unsup("empty remainder range");
        }
        st.facts.set_var(m, want.0, want.1);
        if !b.t.is_empty() {
            if let Some(p) = Poly::var(m).sub(b) {
                st.facts.assume(&p, -INF, -1);
            }
        }
        Ok((q, m))
    }
    /// bring a mathematical result into the range of a type; returns (value, overflowed)
    pub fn wrap(&self, f: &Facts, p: Poly, bits: u32, signed: bool) -> R<(Poly, bool)> {
        let (lo, hi) = irange(bits, signed);
        if p.t.is_empty() {
            let w = wrapc(p.c, bits, signed);
            return Ok((Poly::cst(w), w != p.c));
        }
        let b = f.range(&p, (lo, hi));
        if b.0 >= lo && b.1 <= hi {
            return Ok((p, false));
        }
        if deep::hot() {
            let l = b.0 >= lo || p.scale(-1).and_then(|q| q.addc(lo)).map_or(false, |q| deep::le0(f, &q));
            if l && (b.1 <= hi || p.addc(-hi).map_or(false, |q| deep::le0(f, &q))) {
                return Ok((p, false));
            }
        }
        let m = 1i128 << bits;
        let k0 = div_floor(b.0 - lo, m);
        let k1 = div_floor(b.1 - lo, m);
        if k0 == k1 {
            return Ok((p.addc(-k0 * m).unwrap(), k0 != 0));
        }
        if b.0 <= -INF || b.1 >= INF {
            return unsup("unbounded value");
        }
        if k1 - k0 <= 4 {
            let rs: Vec<_> = (k0..=k1).map(|k| (lo + k * m, hi + k * m)).collect();
            return self.split_ranges(f, &p, &rs);
        }
        self.split_ranges(f, &p, &[(-INF, lo - 1), (lo, hi), (hi + 1, INF)])
    }

    // ------------------------------------------------------------ memory
    fn obj<'s>(&'s self, st: &'s State<'tcx>, o: ObjId) -> R<ObjRef<'s>> {
        match o {
            ObjId::L(d, l) => match st.frames.get(d as usize) {
                Some(f) => Ok(ObjRef::O(&f.locals[l as usize])),
                None => ub("dangling pointer to a local"),
            },
            ObjId::H(h) => match st.heap.get(h as usize) {
                Some(Some(o)) => Ok(ObjRef::O(o)),
                _ => ub("use of freed memory"),
            },
            ObjId::C(c) => Ok(ObjRef::C(&self.lw.allocs[c as usize])),
        }
    }
    fn obj_mut<'s>(&self, st: &'s mut State<'tcx>, o: ObjId) -> R<&'s mut Obj> {
        match o {
            ObjId::L(d, l) => match st.frames.get_mut(d as usize) {
                Some(f) => Ok(&mut Rc::make_mut(&mut f.locals)[l as usize]),
                None => ub("dangling pointer to a local"),
            },
            ObjId::H(h) => match st.heap.get_mut(h as usize) {
                Some(Some(_)) if self.ro.contains(&h) => ub(crate::props::RO),
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => ub("use of freed memory"),
            },
            ObjId::C(_) => ub("write to constant memory"),
        }
    }
    fn const_read(&mut self, a: &Rc<AllocInfo>, off: i64, size: u8, signed: bool) -> R<Val> {
        if off < 0 || off as usize + size as usize > a.bytes.len() {
            return ub("out-of-bounds read of constant data");
        }
        if size == 8 {
            if let Some((_, id)) = a.relocs.iter().find(|r| r.0 == off as u64) {
                let add = u64::from_le_bytes(a.bytes[off as usize..off as usize + 8].try_into().unwrap());
                return match self.lw.ptr_to(*id, add) {
                    Ok(c) => Ok(self.cval(&c)),
                    Err(e) => unsup(e),
                };
            }
        }
        if a.relocs.iter().any(|r| r.0 < off as u64 + size as u64 && off as u64 + 0 < r.0 + 8) {
            return unsup("partial read of a constant pointer");
        }
        Ok(Val::C(blob_int(&a.bytes, off as usize, size as usize, signed)))
    }
    fn cval(&self, c: &CVal) -> Val {
        match c {
            CVal::Zst => Val::Undef,
            CVal::Int(i) => Val::C(*i),
            CVal::Ptr(a, o) => Val::Ptr(ObjId::C(*a), *o, None),
            CVal::Fn(f) => Val::Fn(*f),
            CVal::Slice(a, o, _) => Val::Ptr(ObjId::C(*a), *o, None),
            CVal::Mem(a, o) => Val::Ptr(ObjId::C(*a), *o, None),
        }
    }
    /// read a scalar
    pub fn read(&mut self, st: &State<'tcx>, a: &Addr, size: u8, signed: bool) -> R<Val> {
        if let Some(s) = &a.sym {
            return self.read_sym(st, a, s, size, signed);
        }
        let or = self.obj(st, a.o)?;
        match or {
            ObjRef::C(c) => {
                let c = c.clone();
                self.const_read(&c, a.off, size, signed)
            }
            ObjRef::O(o) => {
                if a.off < 0 || (a.off as u64 + size as u64 > o.size && o.len.is_none()) {
                    return ub("out-of-bounds read");
                }
                if let Some(c) = o.get(a.off as u32, size) {
                    let v = c.v.clone();
                    return Ok(match self.norm(&st.facts, v) {
                        Val::C(x) if size <= 8 => {
                            let w = wrapc(x, size as u32 * 8, signed);
                            Val::C(w)
                        }
                        v => v,
                    });
                }
                match &o.bg {
                    Bg::Blob(b) if !o.overlaps(a.off as u32, size as u64) => {
                        let b = b.clone();
                        self.const_read(&b, a.off, size, signed)
                    }
                    Bg::Lazy(id) if size == 1 => {
                        let (id, len) = (*id, o.len.clone());
                        if let Some(n) = len {
                            // off < len
                            let p = Poly::cst(a.off as i128 + 1).sub(&n).unwrap();
                            if !self.le(&st.facts, &p)? {
                                return ub("read beyond the end of the input");
                            }
                        }
                        Ok(Val::P(Rc::new(Poly::var(memo_named(0x1a2_0000 + id as u64, &Poly::cst(a.off as i128), 0, 255, &format!("byte[{}]", a.off))))))
                    }
                    _ => {
                        // assemble from constant bytes
                        if size > 1 {
                            let cs = o.range(a.off as u32, size as u64);
                            let mut x: i128 = 0;
                            let mut n = 0;
                            for c in &cs {
                                match &c.v {
                                    Val::C(y) => {
                                        x |= (y & ((1i128 << (8 * c.size as u32)) - 1)) << (8 * c.off);
                                        n += c.size;
                                    }
                                    _ => return unsup("partial read of a symbolic value"),
                                }
                            }
                            if n == size {
                                return Ok(Val::C(wrapc(x, size as u32 * 8, signed)));
                            }
                        }
                        if o.overlaps(a.off as u32, size as u64) {
                            return unsup("partial read of a value");
                        }
                        Ok(Val::Undef)
                    }
                }
            }
        }
    }
    fn read_sym(&mut self, st: &State<'tcx>, a: &Addr, s: &Rc<Poly>, size: u8, signed: bool) -> R<Val> {
        let b = st.facts.range(s, (INF, -INF));
        if b.0 == b.1 {
            let a2 = Addr { o: a.o, off: a.off + b.0 as i64, sym: None, meta: None };
            return self.read(st, &a2, size, signed);
        }
        let or = self.obj(st, a.o)?;
        if let ObjRef::O(o) = &or {
            if let (Bg::Lazy(_), Some(n)) = (&o.bg, &o.len) {
                // position known only symbolically: any byte
                let n = n.clone();
                let p = s.addc(a.off as i128 + 1).unwrap().sub(&n).unwrap();
                if !self.le(&st.facts, &p)? {
                    return ub("read beyond the end of the input");
                }
                if b.0 + (a.off as i128) < 0 {
                    return unsup("position before the input");
                }
                let key = s.addc(a.off as i128).unwrap();
                return Ok(Val::P(Rc::new(Poly::var(memo_var(0x1a3, &key, 0, 255)))));
            }
        }
        let blob = match &or {
            ObjRef::C(c) => Some((*c).clone()),
            ObjRef::O(o) => match &o.bg {
                Bg::Blob(b) if o.cells.is_empty() => Some(b.clone()),
                _ => None,
            },
        };
        if let Some(c) = blob {
            if c.relocs.is_empty() {
                // index step
                let g = s.t.iter().fold(0, |x, t| gcd(x, t.1)).max(1);
                let base = a.off as i128 + s.c;
                let mut q = s.as_ref().clone();
                q.c = 0;
                for t in q.t.iter_mut() {
                    t.1 /= g;
                }
                let f = |x: i128| -> Option<i128> {
                    let o = base + x * g;
                    if o < 0 || o as usize + size as usize > c.bytes.len() {
                        None
                    } else {
                        Some(blob_int(&c.bytes, o as usize, size as usize, signed))
                    }
                };
                let id = match a.o {
                    ObjId::C(i) => i as u64,
                    _ => 0xffff,
                };
                let memo = (id << 40) | ((base as u64 & 0xffffff) << 12) | size as u64;
                return self.fit(&st.facts, &q, memo, &f);
            }
        }
        // constant content
        if let ObjRef::O(o) = &or {
            let g = s.t.iter().fold(0, |x, t| gcd(x, t.1)).max(1);
            if matches!(o.bg, Bg::None) && (b.1 - b.0) / g <= 4096 {
                let first = a.off as i128 + b.0;
                let vals: Option<Vec<Option<i128>>> = (0..=(b.1 - b.0) / g)
                    .map(|i| {
                        let off = first + i * g;
                        if off < 0 || off + size as i128 > o.size as i128 {
                            return Some(None);
                        }
                        match o.get(off as u32, size).map(|c| &c.v) {
                            Some(Val::C(x)) => Some(Some(if size <= 8 { wrapc(*x, size as u32 * 8, signed) } else { *x })),
                            _ => None,
                        }
                    })
                    .collect();
                if let Some(vals) = vals {
                    let mut q = s.as_ref().clone();
                    q.c = 0;
                    for t in q.t.iter_mut() {
                        t.1 /= g;
                    }
                    let q0 = (b.0 - s.c) / g;
                    let f = |x: i128| -> Option<i128> { vals.get((x - q0) as usize).cloned().flatten() };
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    use std::hash::{Hash, Hasher};
                    vals.hash(&mut h);
                    return self.fit(&st.facts, &q, h.finish(), &f);
                }
            }
        }
        // split by position
        let g = s.t.iter().fold(0, |x, t| gcd(x, t.1)).max(1);
        if (b.1 - b.0) / g > 200 {
            return unsup("access at an unknown position");
        }
        let mut rs = vec![];
        let mut x = b.0;
        while x <= b.1 {
            rs.push((x, x));
            x += g;
        }
        self.split_ranges(&st.facts, s, &rs)
    }
    pub fn resolve(&self, st: &State<'tcx>, a: &Addr) -> R<Addr> {
        if let Some(s) = &a.sym {
            let b = st.facts.range(s, (INF, -INF));
            if b.0 == b.1 {
                return Ok(Addr { o: a.o, off: a.off + b.0 as i64, sym: None, meta: a.meta.clone() });
            }
            let g = s.t.iter().fold(0, |x, t| gcd(x, t.1)).max(1);
            if (b.1 - b.0) / g > 200 {
                return unsup("access at an unknown position");
            }
            let mut rs = vec![];
            let mut x = b.0;
            while x <= b.1 {
                rs.push((x, x));
                x += g;
            }
            return self.split_ranges(&st.facts, s, &rs);
        }
        Ok(a.clone())
    }
    /// copy of all cells in a region, offsets relative
    pub fn read_blob(&mut self, st: &State<'tcx>, a: &Addr, size: u64) -> R<Blob> {
        if size == 0 {
            return Ok(Blob::new());
        }
        if a.sym.is_some() {
            let b = st.facts.range(a.sym.as_ref().unwrap(), (INF, -INF));
            if b.0 != b.1 && size <= 16 {
                // byte-wise table lookups
                let byte_ok = match self.obj(st, a.o)? {
                    ObjRef::C(c) => c.relocs.is_empty(),
                    ObjRef::O(o) => matches!(o.bg, Bg::Blob(_) | Bg::Lazy(_)),
                };
                if byte_ok {
                    let mut r = Blob::new();
                    for i in 0..size {
                        let a2 = Addr { o: a.o, off: a.off + i as i64, sym: a.sym.clone(), meta: None };
                        let v = self.read(st, &a2, 1, false)?;
                        r.push(Cell { off: i as u32, size: 1, ctl: false, v });
                    }
                    return Ok(r);
                }
            }
            let a2 = self.resolve(st, a)?;
            return self.read_blob(st, &a2, size);
        }
        match self.obj(st, a.o)? {
            ObjRef::C(c) => {
                let c = c.clone();
                self.blob_cells(&c, a.off, size)
            }
            ObjRef::O(o) => {
                if a.off < 0 || (a.off as u64 + size > o.size && o.len.is_none()) {
                    return ub("out-of-bounds read");
                }
                match &o.bg {
                    Bg::None => Ok(o.range(a.off as u32, size)),
                    Bg::Blob(b) => {
                        if o.cells.is_empty() {
                            let b = b.clone();
                            self.blob_cells(&b, a.off, size)
                        } else {
                            unsup("copy from partially overwritten constant data")
                        }
                    }
                    Bg::Lazy(_) => {
                        if size > 256 {
                            return unsup("large copy of unknown input");
                        }
                        let mut r = Blob::new();
                        for i in 0..size {
                            let a2 = Addr { o: a.o, off: a.off + i as i64, sym: None, meta: None };
                            let v = self.read(st, &a2, 1, false)?;
                            r.push(Cell { off: i as u32, size: 1, ctl: false, v });
                        }
                        Ok(r)
                    }
                }
            }
        }
    }
    /// constant memory of unknown structure: 4-byte granules when aligned arrays of i32, else bytes
    fn blob_cells(&mut self, c: &Rc<AllocInfo>, off: i64, size: u64) -> R<Blob> {
        if off < 0 || off as u64 + size > c.bytes.len() as u64 {
            return ub("out-of-bounds read of constant data");
        }
        let mut r = Blob::new();
        let mut i = 0u64;
        while i < size {
            let o = off as u64 + i;
            if let Some((_, _)) = c.relocs.iter().find(|x| x.0 == o) {
                let v = self.const_read(c, o as i64, 8, false)?;
                r.push(Cell { off: i as u32, size: 8, ctl: true, v });
                i += 8;
                continue;
            }
            r.push(Cell { off: i as u32, size: 1, ctl: false, v: Val::C(c.bytes[o as usize] as i128) });
            i += 1;
        }
        Ok(r)
    }
    pub fn write(&self, st: &mut State<'tcx>, a: &Addr, cells: Blob, size: u64) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        let a = self.resolve(st, a)?;
        if self.watch.is_some() {
            self.note_write(st, a.o);
        }
        let o = self.obj_mut(st, a.o)?;
        if a.off < 0 || a.off as u64 + size > o.size {
            return ub("out-of-bounds write");
        }
        if let (Bg::Blob(b), ObjId::L(..)) = (&o.bg, a.o) {
            // a local copy of a table
            let b = b.clone();
            o.bg = Bg::None;
            o.cells = b.bytes.iter().enumerate().map(|(i, x)| Cell { off: i as u32, size: 1, ctl: false, v: Val::C(*x as i128) }).collect();
        }
        if !matches!(o.bg, Bg::None) {
            return ub("write to read-only input");
        }
        let off = a.off as u32;
        if cells.len() == 1 && cells[0].off == 0 && cells[0].size as u64 == size {
            let mut c = cells.into_iter().next().unwrap();
            c.off = off;
            o.set(c);
            return Ok(());
        }
        if off == 0 && size == o.size {
            o.cells = cells;
            return Ok(());
        }
        o.clear(off, size);
        for mut c in cells {
            c.off += off;
            o.set(c);
        }
        Ok(())
    }
    fn write_scalar(&self, st: &mut State<'tcx>, a: &Addr, t: &TyInfo, v: Val) -> R<()> {
        let c = Cell { off: 0, size: t.size as u8, ctl: isctl(t), v };
        self.write(st, a, smallvec![c], t.size)
    }

    // ------------------------------------------------------------ places and operands
    pub fn ptr_addr(&self, v: &Val) -> R<Addr> {
        match v {
            Val::Ptr(o, off, s) => Ok(Addr { o: *o, off: *off, sym: s.clone(), meta: None }),
            Val::C(_) => Ok(Addr { o: ObjId::H(u32::MAX), off: 0, sym: None, meta: None }),
            Val::Undef => ub("dereference of an uninitialised pointer"),
            _ => unsup("dereference of a non-pointer"),
        }
    }
    fn add_off(&self, a: &mut Addr, p: &Poly) -> R<()> {
        if p.t.is_empty() {
            a.off += p.c as i64;
            return Ok(());
        }
        let s = match &a.sym {
            None => Some(p.clone()),
            Some(s) => s.add(p),
        };
        let Some(mut s) = s else { return unsup("offset overflow") };
        a.off += s.c as i64;
        s.c = 0;
        a.sym = if s.t.is_empty() { None } else { Some(Rc::new(s)) };
        Ok(())
    }
    pub fn place(&mut self, st: &State<'tcx>, p: &Place<'tcx>) -> R<Addr> {
        if p.local == u32::MAX {
            return Ok(Addr { o: ObjId::H(u32::MAX), off: 0, sym: None, meta: None });
        }
        let d = (st.frames.len() - 1) as u16;
        let mut a = Addr { o: ObjId::L(d, p.local), off: 0, sym: None, meta: None };
        for e in &p.proj {
            match e {
                Proj::Deref { fat } => {
                    let v = self.read(st, &a, 8, false)?;
                    let mut b = self.ptr_addr(&v)?;
                    if *fat {
                        let mut ma = a.clone();
                        ma.off += 8;
                        b.meta = Some(self.read(st, &ma, 8, false)?);
                    }
                    a = b;
                }
                Proj::Off(o) => a.off += *o as i64,
                Proj::Idx { local, stride } => {
                    let la = Addr { o: ObjId::L(d, *local), off: 0, sym: None, meta: None };
                    let i = self.read(st, &la, 8, false)?;
                    let p = self.poly(&i)?;
                    let p = p.scale(*stride as i128).unwrap();
                    self.add_off(&mut a, &p)?;
                    a.meta = None;
                }
                Proj::EndIdx { off, stride } => {
                    let Some(m) = a.meta.clone() else { return unsup("slice without length") };
                    let p = self.poly(&m)?;
                    let p = p.addc(-(*off as i128)).unwrap().scale(*stride as i128).unwrap();
                    self.add_off(&mut a, &p)?;
                    a.meta = None;
                }
                Proj::Sub { from, to, from_end, stride } => {
                    let Some(m) = a.meta.clone() else { return unsup("slice without length") };
                    let n = self.poly(&m)?;
                    let nn = if *from_end { n.addc(-((*from + *to) as i128)).unwrap() } else { Poly::cst((*to - *from) as i128) };
                    a.off += (*from * *stride) as i64;
                    a.meta = Some(mk(nn));
                }
            }
        }
        Ok(a)
    }
    fn const_blob(&mut self, c: &CVal, t: &TyInfo<'tcx>) -> R<Blob> {
        Ok(match c {
            CVal::Zst => Blob::new(),
            CVal::Slice(a, o, n) => smallvec![
                Cell { off: 0, size: 8, ctl: true, v: Val::Ptr(ObjId::C(*a), *o, None) },
                Cell { off: 8, size: 8, ctl: true, v: Val::C(*n as i128) }
            ],
            CVal::Mem(a, o) => {
                let al = self.lw.allocs[*a as usize].clone();
                self.typed_cells(&al, *o, t)?
            }
            _ => {
                if t.size == 0 {
                    Blob::new()
                } else {
                    smallvec![Cell { off: 0, size: t.size as u8, ctl: isctl(t), v: self.cval(c) }]
                }
            }
        })
    }
    /// cells of a constant according to the layout of its type
    fn typed_cells(&mut self, al: &Rc<AllocInfo>, off: i64, t: &TyInfo<'tcx>) -> R<Blob> {
        let mut r = Blob::new();
        let mut leaves = vec![];
        self.leaves(t.ty, 0, &mut leaves, 0)?;
        for (o, sz, signed, ctl) in leaves {
            let v = self.const_read(al, off + o as i64, sz, signed)?;
            r.push(Cell { off: o as u32, size: sz, ctl, v });
        }
        r.sort_by_key(|c| c.off);
        r.dedup_by_key(|c| c.off);
        Ok(r)
    }
    pub fn leaves(&mut self, ty: ty::Ty<'tcx>, base: u64, out: &mut Vec<(u64, u8, bool, bool)>, depth: u32) -> R<()> {
        let t = self.lw.ty(ty);
        if t.size == 0 {
            return Ok(());
        }
        if depth > 12 || out.len() > 6000 {
            return unsup("constant too deep");
        }
        if let Some(sc) = t.sc {
            let signed = matches!(sc, Sc::Int { signed: true, .. });
            out.push((base, t.size as u8, signed, isctl(&t)));
            return Ok(());
        }
        if t.fat {
            out.push((base, 8, false, true));
            out.push((base + 8, 8, false, true));
            return Ok(());
        }
        match ty.kind() {
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.lw.tcx).unwrap_or(0);
                let s = self.lw.ty(*e).size;
                for i in 0..n {
                    self.leaves(*e, base + i * s, out, depth + 1)?;
                }
                Ok(())
            }
            ty::Tuple(ts) => {
                let l = self.lw.layout(ty);
                for (i, x) in ts.iter().enumerate() {
                    let o = self.lw.field_off(l, i);
                    self.leaves(x, base + o, out, depth + 1)?;
                }
                Ok(())
            }
            ty::Adt(def, args) if def.is_struct() => {
                let l = self.lw.layout(ty);
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(self.lw.tcx, args);
                    let ft = self.lw.tcx.normalize_erasing_regions(self.lw.env, ft);
                    let o = self.lw.field_off(l, i);
                    self.leaves(ft, base + o, out, depth + 1)?;
                }
                Ok(())
            }
            _ => {
                // enums, unions: tag plus raw words
                if let Ok(VariantTag::Direct { off, sc, .. }) | Ok(VariantTag::Niche { off, sc, .. }) = self.lw.variant_tag(ty) {
                    let signed = matches!(sc, Sc::Int { signed: true, .. });
                    out.push((base + off, sc.size() as u8, signed, true));
                    let mut o = 0;
                    while o < t.size {
                        if o + 8 <= t.size && o % 8 == 0 && !(o <= off && off < o + 8) {
                            out.push((base + o, 8, false, true));
                            o += 8;
                        } else if o < off || o >= off + sc.size() {
                            out.push((base + o, 1, false, false));
                            o += 1;
                        } else {
                            o += 1;
                        }
                    }
                    return Ok(());
                }
                for i in 0..t.size {
                    out.push((base + i, 1, false, false));
                }
                Ok(())
            }
        }
    }
    pub fn op_blob(&mut self, st: &State<'tcx>, o: &Op<'tcx>) -> R<Blob> {
        match o {
            Op::Copy(p) => {
                if p.ty.size == 0 {
                    return Ok(Blob::new());
                }
                if p.ty.sc.is_some() {
                    let v = self.op(st, o)?;
                    return Ok(smallvec![Cell { off: 0, size: p.ty.size as u8, ctl: isctl(&p.ty), v }]);
                }
                let a = self.place(st, p)?;
                if let ObjRef::C(c) = self.obj_or_none(st, a.o)? {
                    if a.sym.is_none() {
                        let c = c.clone();
                        return self.typed_cells(&c, a.off, &p.ty);
                    }
                }
                self.read_blob(st, &a, p.ty.size)
            }
            Op::Const(c, t) => self.const_blob(c, t),
        }
    }
    fn obj_or_none<'s>(&'s self, st: &'s State<'tcx>, o: ObjId) -> R<ObjRef<'s>> {
        self.obj(st, o)
    }
    /// scalar operand
    pub fn op(&mut self, st: &State<'tcx>, o: &Op<'tcx>) -> R<Val> {
        match o {
            Op::Copy(p) => {
                let signed = match p.ty.sc {
                    Some(Sc::Int { signed, .. }) => signed,
                    Some(Sc::Ptr) => false,
                    None => {
                        // newtype around a scalar
                        if p.ty.size > 8 {
                            return unsup(format!("scalar read of {:?}", p.ty.ty));
                        }
                        let a = self.place(st, p)?;
                        let b = self.read_blob(st, &a, p.ty.size)?;
                        if b.len() == 1 && b[0].off == 0 && b[0].size as u64 == p.ty.size {
                            return Ok(b[0].v.clone());
                        }
                        return unsup(format!("scalar read of {:?}", p.ty.ty));
                    }
                };
                let a = self.place(st, p)?;
                self.read(st, &a, p.ty.size as u8, signed)
            }
            Op::Const(c, t) => match c {
                CVal::Mem(..) => {
                    let b = self.const_blob(c, t)?;
                    if b.len() == 1 {
                        Ok(b[0].v.clone())
                    } else {
                        unsup("scalar read of aggregate constant")
                    }
                }
                _ => Ok(self.cval(c)),
            },
        }
    }
}

pub enum ObjRef<'s> {
    O(&'s Obj),
    C(&'s Rc<AllocInfo>),
}
pub fn blob_int(b: &[u8], off: usize, size: usize, signed: bool) -> i128 {
    let mut x: i128 = 0;
    for i in (0..size).rev() {
        x = (x << 8) | b[off + i] as i128;
    }
    wrapc(x, size as u32 * 8, signed)
}
pub fn memo_named(k: u64, p: &Poly, lo: i128, hi: i128, name: &str) -> Var {
    let key = (k, p.clone());
    if let Some(v) = VT.with(|t| t.borrow().memo.get(&key).cloned()) {
        return v;
    }
    let v = fresh(name, lo, hi);
    VT.with(|t| {
        let mut t = t.borrow_mut();
        t.src.entry(v).or_default().push(p.clone());
        t.memo.insert(key, v)
    });
    v
}
pub fn memo_var(k: u64, p: &Poly, lo: i128, hi: i128) -> Var {
    memo_named(k, p, lo, hi, "")
}
#[allow(unused)]
fn _u<'tcx>(_: BTreeMap<u8, Instance<'tcx>>) {}
