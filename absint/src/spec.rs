//! Specification side: abstract decimals, their values and the checks on results.
use crate::dom::*;
use crate::interp::*;
use crate::lower::Lower;
use crate::mem::*;
use crate::poly::*;
use rustc_middle::ty::{self, Instance, TyCtxt};
use smallvec::{smallvec, SmallVec};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const U: i128 = 1_000_000_000;
/// values are scaled by 10^36
pub const E: i32 = 36;

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub size: u64,
    pub intg: u64,
    pub frac: u64,
    pub lsu: u64,
}

pub struct Entries<'tcx> {
    pub map: BTreeMap<String, Instance<'tcx>>,
    pub lay: Layout,
}

pub fn entries<'tcx>(tcx: TyCtxt<'tcx>, lw: &Lower<'tcx>) -> Entries<'tcx> {
    let mut map = BTreeMap::new();
    let mut lay = None;
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        if tcx.def_kind(d) == rustc_hir::def::DefKind::Fn {
            let n = tcx.item_name(d).to_string();
            if n.starts_with("h_") {
                let i = Instance::mono(tcx, d);
                if n == "h_layout" {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    let t = sig.inputs()[0];
                    let l = lw.layout(t);
                    let ty::Adt(ad, _) = t.kind() else { panic!("FixedDecimal is not a struct") };
                    let off = |n: &str| {
                        let i = ad.non_enum_variant().fields.iter().position(|f| f.name.as_str() == n).unwrap_or_else(|| panic!("FixedDecimal has no field {}", n));
                        l.fields.offset(i).bytes()
                    };
                    lay = Some(Layout { size: l.size.bytes(), intg: off("intg"), frac: off("frac"), lsu: off("lsu") });
                }
                map.insert(n, i);
            }
        }
    }
    Entries { map, lay: lay.expect("layout witness") }
}

/// an abstract decimal given as input
#[derive(Clone)]
pub struct Dec {
    pub obj: u32,
    pub iu: usize,
    pub fu: usize,
    pub neg: bool,
    pub ig: Poly,
    pub fg: Poly,
    pub u: Vec<Poly>,
}
impl Dec {
    pub fn n(&self) -> usize {
        self.iu + self.fu
    }
    /// absolute value times 10^E
    pub fn abs(&self) -> BPoly {
        let mut r = BPoly::zero();
        for (i, p) in self.u.iter().enumerate().take(self.n()) {
            let e = 9 * (i as i32 - self.fu as i32) + E;
            r.addk(&BPoly::from(p), &Big::pow10(e as u32));
        }
        r
    }
    pub fn val(&self) -> BPoly {
        let a = self.abs();
        if self.neg {
            a.scale(&Big::from(-1))
        } else {
            a
        }
    }
    /// sum of units
    pub fn sum(&self) -> Poly {
        let mut s = Poly::cst(0);
        for p in self.u.iter().take(self.n()) {
            s = s.add(p).unwrap();
        }
        s
    }
}
/// how an input is constrained
#[derive(Clone)]
pub struct Sp {
    pub iu: usize,
    pub fu: usize,
    pub neg: bool,
    /// digit counts; default: anything with the right number of units
    pub ig: Option<(i128, i128)>,
    pub fg: Option<(i128, i128)>,
    pub zero: bool,
    /// explicit unit ranges (index, lo, hi)
    pub rng: Vec<(usize, i128, i128)>,
    /// reuse of polynomials for units
    pub fix: Vec<(usize, Poly)>,
    /// top unit limited by the digit count (needs an exact digit count)
    pub top: bool,
    /// lowest unit is a multiple of 10^(9fu-frac) (needs an exact digit count)
    pub gran: bool,
    /// lowest unit is a multiple of this
    pub gunit: Option<i128>,
    /// bound on the top integral unit
    pub tmax: Option<i128>,
    /// zero content is not excluded
    pub maybe_zero: bool,
}
pub fn sp(iu: usize, fu: usize, neg: bool) -> Sp {
    Sp { iu, fu, neg, ig: None, fg: None, zero: false, rng: vec![], fix: vec![], top: false, gran: false, gunit: None, tmax: None, maybe_zero: false }
}
pub fn shapes() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for iu in 0..=9 {
        for fu in 0..=4 {
            if iu + fu <= 9 {
                v.push((iu, fu));
            }
        }
    }
    v
}

pub fn bcell(off: u64, size: u8, ctl: bool, v: Val) -> Cell {
    Cell { off: off as u32, size, ctl, v }
}
pub fn ptr(o: u32) -> Blob {
    smallvec![bcell(0, 8, true, Val::Ptr(ObjId::H(o), 0, None))]
}
pub fn int(size: u8, v: i128) -> Blob {
    smallvec![bcell(0, size, true, Val::C(v))]
}
pub fn vint(size: u8, p: Poly) -> Blob {
    smallvec![bcell(0, size, true, mk(p))]
}

/// one analysis case: initial memory and facts
pub struct Case<'tcx> {
    pub st: State<'tcx>,
    pub lay: Layout,
    pub garbage_vars: Vec<Var>,
}
impl<'tcx> Case<'tcx> {
    pub fn new(lay: Layout) -> Self {
        reset_vars();
        // heap object 0 takes the return value
        Case { st: State { frames: vec![], heap: vec![None], facts: Facts::new(), splits: 0 }, lay, garbage_vars: vec![] }
    }
    pub fn obj(&mut self, o: Obj) -> u32 {
        self.st.heap.push(Some(Rc::new(o)));
        (self.st.heap.len() - 1) as u32
    }
    pub fn dec_obj(&mut self, ig: Val, fg: Val, u: Vec<Val>) -> u32 {
        let l = self.lay;
        let mut o = Obj::new(l.size);
        o.set(bcell(l.intg, 1, true, ig));
        o.set(bcell(l.frac, 1, true, fg));
        for (i, v) in u.into_iter().enumerate() {
            o.set(bcell(l.lsu + 4 * i as u64, 4, false, v));
        }
        self.obj(o)
    }
    /// an input decimal
    pub fn dec(&mut self, name: &str, s: &Sp) -> Dec {
        let n = s.iu + s.fu;
        let digits = |units: usize, r: Option<(i128, i128)>, nm: String| -> Poly {
            let (lo, hi) = r.unwrap_or(if units == 0 { (0, 0) } else { (9 * units as i128 - 8, 9 * units as i128) });
            if lo == hi {
                Poly::cst(lo)
            } else {
                Poly::var(fresh(&nm, lo, hi))
            }
        };
        let ig = digits(s.iu, s.ig, format!("{}.intg", name));
        let fg = digits(s.fu, s.fg, format!("{}.frac", name));
        let mut u = vec![];
        for i in 0..9 {
            if i >= n || s.zero {
                u.push(Poly::cst(0));
                continue;
            }
            if let Some((_, p)) = s.fix.iter().find(|x| x.0 == i) {
                u.push(p.clone());
                continue;
            }
            let (mut lo, mut hi) = s.rng.iter().find(|x| x.0 == i).map(|x| (x.1, x.2)).unwrap_or((0, U - 1));
            let mut g = 1;
            if s.gran && s.fu > 0 && i == 0 {
                assert!(fg.is_const());
                g = 10i128.pow((9 * s.fu as i128 - fg.c) as u32);
            }
            if let (Some(x), 0) = (s.gunit, i) {
                g = x;
            }
            if let (Some(t), true) = (s.tmax, i == n - 1) {
                hi = hi.min(t);
            }
            if s.top && i == n - 1 && s.iu > 0 {
                assert!(ig.is_const());
                hi = hi.min(10i128.pow((ig.c - 9 * (s.iu as i128 - 1)) as u32) - 1);
            }
            lo = div_ceil(lo, g);
            hi = div_floor(hi, g);
            if lo == hi {
                u.push(Poly::cst(lo * g));
            } else {
                u.push(Poly::var(fresh(&format!("{}[{}]", name, i), lo, hi)).scale(g).unwrap());
            }
        }
        let cv = |p: &Poly| mk(p.clone());
        let igv = if s.neg { ig.addc(-128).unwrap() } else { ig.clone() };
        let obj = self.dec_obj(cv(&igv), cv(&fg), u.iter().map(|p| cv(p)).collect());
        let d = Dec { obj, iu: s.iu, fu: s.fu, neg: s.neg, ig, fg, u };
        if !s.zero && !s.maybe_zero {
            self.st.facts.assume(&d.sum(), 1, INF);
        }
        d
    }
    /// a destination with arbitrary content
    pub fn garbage(&mut self, name: &str) -> u32 {
        let ig = Poly::var(fresh(&format!("{}.intg", name), -128, 127));
        let fg = Poly::var(fresh(&format!("{}.frac", name), -128, 127));
        let u = (0..9).map(|i| mk(Poly::var(fresh(&format!("{}[{}]", name, i), -(1 << 31), (1 << 31) - 1)))).collect();
        let n = nvars() as Var;
        self.garbage_vars.extend(n - 11..n);
        self.dec_obj(mk(ig), mk(fg), u)
    }
}

/// a result read back from a final state
pub struct Out {
    pub ig: Poly,
    pub fg: Poly,
    pub u: Vec<Poly>,
}
pub fn out(st: &State, lay: Layout, obj: u32) -> Result<Out, String> {
    let o = st.heap[obj as usize].as_ref().ok_or("result object gone")?;
    let g = |off: u64, size: u8| -> Result<Poly, String> {
        match o.get(off as u32, size).map(|c| c.v.clone()) {
            Some(Val::C(x)) => Ok(Poly::cst(x)),
            Some(Val::P(p)) => Ok((*p).clone()),
            _ => Err(format!("result byte {} not initialised", off)),
        }
    };
    let mut u = vec![];
    for i in 0..9 {
        u.push(g(lay.lsu + 4 * i, 4)?);
    }
    Ok(Out { ig: g(lay.intg, 1)?, fg: g(lay.frac, 1)?, u })
}
/// refine facts into the cases of a polynomial's range
pub fn cases(f: &Facts, p: &Poly, rs: &[(i128, i128)]) -> Vec<(usize, Facts)> {
    let b = f.bound_deep(p, 1);
    let mut v = vec![];
    for (i, (lo, hi)) in rs.iter().enumerate() {
        if b.1 < *lo || b.0 > *hi {
            continue;
        }
        if b.0 >= *lo && b.1 <= *hi {
            v.push((i, f.clone()));
            continue;
        }
        let mut g = f.clone();
        if g.assume(p, *lo, *hi) {
            v.push((i, g));
        }
    }
    v
}
pub fn bshow(p: &BPoly) -> String {
    let s = p.show();
    if s.len() > 400 {
        format!("{}...", &s[..400])
    } else {
        s
    }
}
/// p == 0 in all concrete states described by f
pub fn bzero(f: &Facts, p: &BPoly) -> bool {
    if p.is_zero() {
        return true;
    }
    let q = f.expand(p);
    if q.is_zero() {
        return true;
    }
    let (lo, hi) = f.bbound(&q);
    if lo.is_zero() && hi.is_zero() {
        return true;
    }
    let r = reduce(f, &q);
    r.is_zero() || bool_split(f, &r, 4)
}
/// case distinction on the 0/1 variables of a residual
fn bool_split(f: &Facts, r: &BPoly, depth: u32) -> bool {
    if depth == 0 || r.0.len() > 12 {
        return false;
    }
    let b = r.0.keys().flat_map(|m| m.iter().cloned()).find(|v| f.var(*v) == (0, 1));
    let Some(b) = b else { return false };
    for x in 0..2 {
        let mut g = f.clone();
        if !g.assume(&Poly::var(b), x, x) || !g.tighten() {
            continue;
        }
        let q = g.expand(r);
        if q.is_zero() {
            continue;
        }
        let q = reduce(&g, &q);
        if !q.is_zero() && !bool_split(&g, &q, depth - 1) {
            return false;
        }
    }
    true
}
/// use the equations known in f to eliminate variables
pub fn reduce(f: &Facts, p: &BPoly) -> BPoly {
    let mut p = p.clone();
    let mut eqs: Vec<BPoly> = vec![];
    for c in f.cons.iter() {
        if c.lo == c.hi {
            eqs.push(f.expand(&BPoly::from(&c.p.addc(-c.lo).unwrap())));
        }
    }
    for v in 1..nvars() as Var {
        let b = f.var(v);
        if b.0 == b.1 {
            if let Some(d) = vdef(v) {
                eqs.push(f.expand(&BPoly::from(&d.addc(-b.0).unwrap())));
            }
        }
    }
    let cut = cut();
    if cut > 0 {
        eqs.retain(|e| e.0.keys().any(|m| m.iter().any(|v| *v >= cut)));
    }
    let one = Big::from(1);
    let mone = Big::from(-1);
    for i in 0..eqs.len() {
        let e = eqs[i].clone();
        // newest variable occurring linearly with a unit coefficient
        let mut pick: Option<(Var, bool)> = None;
        for (m, k) in &e.0 {
            if m.len() == 1 && (*k == one || *k == mone) && pick.map_or(true, |x| x.0 < m[0]) && e.0.keys().filter(|n| n.contains(&m[0])).count() == 1 {
                pick = Some((m[0], *k == one));
            }
        }
        let Some((v, pos)) = pick else { continue };
        let mut d = e.clone();
        d.0.retain(|m, _| !(m.len() == 1 && m[0] == v));
        if pos {
            d = d.scale(&mone);
        }
        for x in eqs[i + 1..].iter_mut() {
            *x = bsubst(x, v, &d);
        }
        p = bsubst(&p, v, &d);
    }
    p
}
/// products of variables forced to vanish by the equations and bounds in f
pub fn zero_monos(f: &Facts) -> BTreeSet<SmallVec<[Var; 4]>> {
    let mut zs: BTreeSet<SmallVec<[Var; 4]>> = BTreeSet::new();
    let mut eqs: Vec<BPoly> = vec![];
    for c in f.cons.iter() {
        let b = f.bound(&c.p);
        let (lo, hi) = (c.lo.max(b.0), c.hi.min(b.1));
        if lo == hi {
            eqs.push(f.expand(&BPoly::from(&c.p.addc(-lo).unwrap())));
        }
    }
    for v in 1..nvars() as Var {
        let b = f.var(v);
        if b.0 == b.1 {
            if let Some(d) = vdef(v) {
                eqs.push(f.expand(&BPoly::from(&d.addc(-b.0).unwrap())));
            }
        }
    }
    loop {
        let mut more = false;
        for e in eqs.iter_mut() {
            e.0.retain(|m, _| !zs.contains(m));
            if e.0.is_empty() || e.0.keys().any(|m| m.is_empty()) {
                continue;
            }
            let neg = e.0.values().next().unwrap().is_neg();
            if e.0.iter().all(|(m, k)| k.is_neg() == neg && m.iter().all(|v| f.var(*v).0 >= 0)) {
                zs.extend(e.0.keys().cloned());
                more = true;
            }
        }
        if !more {
            break;
        }
    }
    zs
}
/// f forces the product of the factors to vanish although neither factor is zero
pub fn no_product(f: &Facts, l: &Dec, r: &Dec) -> bool {
    let zs = zero_monos(f);
    let p = f.expand(&BPoly::from(&l.sum()).mul(&BPoly::from(&r.sum())));
    p.0.keys().all(|m| zs.contains(m))
}
pub fn units_ranges() -> Vec<(i128, i128)> {
    let mut v = vec![(0, 0)];
    for k in 1..=14 {
        v.push((9 * k - 8, 9 * k));
    }
    v
}

/// a result in one fully decided class: sign and unit counts fixed
pub struct Shaped {
    pub neg: bool,
    pub iu: usize,
    pub fu: usize,
    pub ig: Poly,
    pub fg: Poly,
    pub u: Vec<Poly>,
    pub f: Facts,
}
impl Shaped {
    pub fn abs(&self) -> BPoly {
        let mut r = BPoly::zero();
        for (i, p) in self.u.iter().enumerate() {
            let e = 9 * (i as i32 - self.fu as i32) + E;
            if p.is_const() && p.c == 0 {
                continue;
            }
            r.addk(&BPoly::from(p), &Big::pow10(e.max(0) as u32));
        }
        r
    }
    pub fn val(&self) -> BPoly {
        let a = self.abs();
        if self.neg {
            a.scale(&Big::from(-1))
        } else {
            a
        }
    }
}
pub fn shaped(f: &Facts, o: &Out) -> Result<Vec<Shaped>, String> {
    let mut v = vec![];
    let mut f = f.clone();
    if !f.tighten() {
        return Ok(v);
    }
    let f = &f;
    for (s, g) in cases(f, &o.ig, &[(0, 127), (-128, -1)]) {
        let neg = s == 1;
        let ig = if neg { o.ig.addc(128).unwrap() } else { o.ig.clone() };
        for (iu, g) in cases(&g, &ig, &units_ranges()) {
            let b = g.bound(&o.fg);
            if b.0 < 0 {
                return Err(format!("result scale may be negative: {}", b.0));
            }
            for (fu, g) in cases(&g, &o.fg, &units_ranges()) {
                v.push(Shaped { neg, iu, fu, ig: ig.clone(), fg: o.fg.clone(), u: o.u.clone(), f: g });
            }
        }
    }
    Ok(v)
}
#[derive(Clone, Copy)]
pub struct Validity {
    /// nothing below the scale (needs an exact scale)
    pub gran: bool,
    /// top group within the integral digit count (needs exact count)
    pub top: bool,
}
/// structural validity of a result
pub fn valid(s: &Shaped, nonzero: bool, w: Validity) -> Result<(), String> {
    if s.fu > 4 || s.iu + s.fu > 9 {
        return Err(format!("result has {} integral and {} fractional groups", s.iu, s.fu));
    }
    for (i, p) in s.u.iter().enumerate() {
        let b = s.f.range(p, (0, if i < s.iu + s.fu { U - 1 } else { 0 }));
        if i < s.iu + s.fu {
            if b.0 < 0 || b.1 >= U {
                return Err(format!("group {} of the result may be outside 0..999999999: [{}, {}]", i, b.0, b.1));
            }
        } else if b != (0, 0) {
            return Err(format!("group {} beyond the result's {} groups may be non-zero: [{}, {}]", i, s.iu + s.fu, b.0, b.1));
        }
    }
    if s.neg && !nonzero {
        let mut t = Poly::cst(0);
        for p in &s.u {
            t = t.add(p).ok_or("sum")?;
        }
        let b = s.f.range(&t, (1, INF));
        let dom = || s.f.cons.iter().any(|c| c.lo >= 1 && t.sub(&c.p).map_or(false, |d| s.f.range(&d, (0, INF)).0 >= 0));
        if b.0 < 1 && bounds(&s.f, &s.abs()).0.le(&Big::ZERO) && !dom() {
            return Err("the result may be a negative zero".into());
        }
    }
    if w.gran && s.fu > 0 {
        let b = s.f.range(&s.fg, (INF, -INF));
        if b.0 != b.1 {
            return Err(format!("result scale not determined: [{}, {}]", b.0, b.1));
        }
        let g = 10i128.pow((9 * s.fu as i128 - b.0) as u32);
        if g > 1 {
            let e = s.f.expand(&BPoly::from(&s.u[0]));
            let gb = Big::from(g);
            for (_, k) in &e.0 {
                if !k.divisible(&gb) {
                    return Err(format!("digits below scale {} may be non-zero: lowest group = {}", b.0, bshow(&e)));
                }
            }
        }
    }
    if w.top && s.iu > 0 {
        let b = s.f.range(&s.ig, (INF, -INF));
        if b.0 % 9 != 0 || b.0 != b.1 {
            let lim = 10i128.pow((b.0 - 9 * (s.iu as i128 - 1)) as u32);
            let t = &s.u[s.iu + s.fu - 1];
            let r = s.f.range(t, (0, lim - 1));
            if r.1 >= lim {
                return Err(format!("top group may have more digits than the integral digit count {} allows: up to {}", b.0, r.1));
            }
        }
    }
    Ok(())
}
pub fn dump(f: &Facts) {
    if std::env::var("ABS_DUMP").is_err() {
        return;
    }
    for v in 1..nvars() as Var {
        let (lo, hi) = f.var(v);
        eprintln!("  {} ({}) in [{}, {}] {}", v, vname(v), lo, hi, vdef(v).map_or(String::new(), |d| format!("= {}", d.show())));
    }
    for c in f.cons.iter() {
        eprintln!("  {} in [{}, {}]", c.p.show(), c.lo, c.hi);
    }
}
/// bounds of p, rewriting older variables through the definitions of newer ones
pub fn bounds(f: &Facts, p: &BPoly) -> (Big, Big) {
    let e = f.expand(p);
    let (mut lo, mut hi) = f.bbound(&e);
    let mut q = e.clone();
    let one = Big::from(1);
    for w in 1..f.iv.len() as Var {
        let Some(d) = vdef(w) else { continue };
        let b = f.var(w);
        if b.0 <= -INF || b.1 >= INF {
            continue;
        }
        // w = d; replace the oldest free variable of d
        let mut pick: Option<(Var, i128)> = None;
        for (m, k) in &d.t {
            if let Some(v) = mono_single(*m) {
                let x = f.var(v);
                let lin = || {
                    let kb = Big::from(k.abs());
                    q.0.iter().filter(|n| n.0.contains(&v)).all(|n| n.0.len() == 1 && n.1.divisible(&kb))
                };
                if x.0 != x.1 && (k.abs() == 1 || lin()) && q.0.keys().any(|n| n.contains(&v)) && d.t.iter().filter(|y| mono_vars(y.0).contains(&v)).count() == 1 && pick.map_or(true, |y| v < y.0) {
                    pick = Some((v, *k));
                }
            }
        }
        let Some((v, k)) = pick else { continue };
        if k.abs() > 1 {
            let c = q.0.iter().find(|n| n.0.contains(&v)).map(|n| *n.1).unwrap();
            let c = c.div_exact(&Big::from(k.abs())).unwrap();
            let mut e = BPoly::from(&Poly::var(w)).sub(&BPoly::from(&d)).scale(&c);
            if k < 0 {
                e = e.scale(&Big::from(-1));
            }
            q = q.add(&e);
        }
        // v = (w - rest) / k
        let mut rest = d.clone();
        rest.t.retain(|x| x.0 != mono_var(v));
        let mut r = BPoly::from(&Poly::var(w)).sub(&BPoly::from(&rest));
        if k < 0 {
            r = r.scale(&Big::from(-1));
        }
        if k.abs() == 1 {
            q = bsubst(&q, v, &r);
        }
        // fixed variables
        let fx: Vec<Var> = q.0.keys().flat_map(|m| m.iter().cloned()).filter(|v| f.var(*v).0 == f.var(*v).1).collect();
        for v in fx {
            q = bsubst(&q, v, &BPoly::cst(Big::from(f.var(v).0)));
        }
        let b = f.bbound(&q);
        if lo.lt(&b.0) {
            lo = b.0;
        }
        if b.1.lt(&hi) {
            hi = b.1;
        }
    }
    let _ = one;
    (lo, hi)
}

/// rewrite products through the variables defined by them
pub fn unprod(f: &Facts, p: &BPoly) -> BPoly {
    let mut p = f.expand(p);
    for w in 1..f.iv.len() as Var {
        let Some(d) = vdef(w) else { continue };
        let d = BPoly::from(&d);
        let one = Big::from(1);
        let pick = d.0.iter().find(|(m, k)| m.len() == 2 && !k.is_neg() && k.lt(&Big::from(U)) && p.0.get(*m).map_or(false, |x| x.divisible(k))).map(|x| (x.0.clone(), *x.1));
        let Some((m, dk)) = pick else { continue };
        let k = p.0.remove(&m).unwrap();
        let div = dk.0[0];
        let k = if k.is_neg() { k.neg().divrem_u64(div).0.neg() } else { k.divrem_u64(div).0 };
        let mut r = BPoly::from(&Poly::var(w));
        let mut rest = d.clone();
        rest.0.remove(&m);
        r.addk(&rest, &one.neg());
        p.addk(&r, &k);
        let fx: Vec<Var> = p.0.keys().flat_map(|m| m.iter().cloned()).filter(|v| f.var(*v).0 == f.var(*v).1).collect();
        for v in fx {
            p = bsubst(&p, v, &BPoly::cst(Big::from(f.var(v).0)));
        }
    }
    p
}
/// weaker facts in which computed variables are not fixed, so that they are not substituted
pub fn relax(f: &Facts) -> Facts {
    let mut g = f.clone();
    for v in 1..f.iv.len() as Var {
        let b = f.var(v);
        if b.0 == b.1 && (vdef(v).is_some() || qinfo(v).is_some()) {
            g.set_var(v, b.0, b.1 + 1);
        }
    }
    g
}
/// replace quotient variables whose coefficient is a multiple of the divisor by dividend and remainder
pub fn unquot(f: &Facts, p: &BPoly) -> BPoly {
    let mut p = f.expand(p);
    loop {
        let mut hit = None;
        for (m, k) in &p.0 {
            if m.len() == 1 {
                if let Some((r, d)) = qinfo(m[0]) {
                    if d.is_const() && k.divisible(&Big::from(d.c)) {
                        hit = Some((m[0], *k, r, d.c));
                    }
                }
            }
        }
        let Some((v, k, r, d)) = hit else { return p };
        let (x, _) = if k.is_neg() { k.neg().divrem_u64(d as u64) } else { k.divrem_u64(d as u64) };
        let x = if k.is_neg() { x.neg() } else { x };
        let m = fresh("", 0, d - 1);
        let mut q = p.clone();
        q.0.retain(|m, _| !(m.len() == 1 && m[0] == v));
        let t = BPoly::from(&r).sub(&BPoly::from(&Poly::var(m)));
        q.addk(&t, &x);
        p = f.expand(&q);
    }
}
/// the object is a valid zero
pub fn is_zero_obj(st: &State, lay: Layout, d: u32) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    for (i, p) in o.u.iter().enumerate() {
        let b = st.facts.range(p, (0, 0));
        if b != (0, 0) {
            return Err(format!("destination not zero after an error: group {} may be {}..{}", i, b.0, b.1));
        }
    }
    for s in shaped(&st.facts, &o)? {
        valid(&s, false, Validity { gran: false, top: false })?;
    }
    Ok(1)
}
pub fn valid_obj(st: &State, lay: Layout, d: u32, w: Validity) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    let mut n = 0;
    for s in shaped(&st.facts, &o)? {
        if let Err(e) = valid(&s, false, w) {
            dump(&s.f);
            return Err(e);
        }
        n += 1;
    }
    Ok(n)
}
/// the object's final content does not depend on the given variables (dependent branches are
/// reported by the interpreter itself)
pub fn independent(st: &State, lay: Layout, d: u32, vs: &[Var]) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    let names = |i: usize| match i {
        0 => "integral digit count or sign".to_string(),
        1 => "scale".to_string(),
        i => format!("group {}", i - 2),
    };
    for (i, p) in [&o.ig, &o.fg].into_iter().chain(o.u.iter()).enumerate() {
        let e = BPoly::from(p);
        if tainted(&st.facts, &e, vs) {
            return Err(format!("{} of the result depends on the destination's previous content: {}", names(i), bshow(&st.facts.expand(&e))));
        }
    }
    Ok(11)
}
