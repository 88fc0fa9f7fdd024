//! Abstract memory: typed cells, objects, frames, states and their join.
use crate::dom::*;
use crate::ir::*;
use crate::lower::AllocInfo;
use crate::poly::*;
use smallvec::SmallVec;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum ObjId {
    /// local of the frame at a stack depth
    L(u16, u32),
    /// heap object
    H(u32),
    /// constant allocation
    C(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    C(i128),
    P(Rc<Poly>),
    Ptr(ObjId, i64, Option<Rc<Poly>>),
    Fn(u32),
    Undef,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub off: u32,
    pub size: u8,
    pub ctl: bool,
    pub v: Val,
}
pub type Blob = SmallVec<[Cell; 2]>;

#[derive(Clone, Debug)]
pub enum Bg {
    None,
    Blob(Rc<AllocInfo>),
    /// bytes of unknown content, materialised on first read of a constant offset
    Lazy(u32),
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub cells: Blob,
    pub bg: Bg,
    /// symbolic length (bytes) for Lazy objects
    pub len: Option<Rc<Poly>>,
}
impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, cells: SmallVec::new(), bg: Bg::None, len: None }
    }
    pub fn is_clear(&self) -> bool {
        self.cells.is_empty() && matches!(self.bg, Bg::None)
    }
    pub fn reset(&mut self) {
        self.cells.clear();
        self.bg = Bg::None;
    }
    fn idx(&self, off: u32) -> usize {
        // first cell whose end is beyond off
        if self.cells.len() <= 4 {
            let mut i = 0;
            while i < self.cells.len() && self.cells[i].off + self.cells[i].size as u32 <= off {
                i += 1;
            }
            i
        } else {
            self.cells.partition_point(|c| c.off + c.size as u32 <= off)
        }
    }
    pub fn get(&self, off: u32, size: u8) -> Option<&Cell> {
        let i = self.idx(off);
        let c = self.cells.get(i)?;
        if c.off == off && c.size == size {
            Some(c)
        } else {
            None
        }
    }
    pub fn overlaps(&self, off: u32, size: u64) -> bool {
        let i = self.idx(off);
        self.cells.get(i).map_or(false, |c| (c.off as u64) < off as u64 + size)
    }
    pub fn clear(&mut self, off: u32, size: u64) {
        if size == 0 || self.cells.is_empty() {
            return;
        }
        let i = self.idx(off);
        let mut j = i;
        while j < self.cells.len() && (self.cells[j].off as u64) < off as u64 + size {
            j += 1;
        }
        self.cells.drain(i..j);
    }
    pub fn set(&mut self, c: Cell) {
        let i = self.idx(c.off);
        if i < self.cells.len() && self.cells[i].off == c.off && self.cells[i].size == c.size {
            self.cells[i] = c;
            return;
        }
        self.clear(c.off, c.size as u64);
        let i = self.idx(c.off);
        self.cells.insert(i, c);
    }
    /// cells inside a range (relative to off); cells cut by the border become byte cells or undefined
    pub fn range(&self, off: u32, size: u64) -> Blob {
        let mut r = Blob::new();
        let mut i = self.idx(off);
        while i < self.cells.len() && (self.cells[i].off as u64) < off as u64 + size {
            let c = &self.cells[i];
            if c.off >= off && c.off as u64 + c.size as u64 <= off as u64 + size {
                let mut c = c.clone();
                c.off -= off;
                r.push(c);
            } else if let Val::C(x) = c.v {
                for b in 0..c.size as u32 {
                    let o = c.off + b;
                    if o >= off && (o as u64) < off as u64 + size {
                        r.push(Cell { off: o - off, size: 1, ctl: false, v: Val::C((x >> (8 * b)) & 255) });
                    }
                }
            }
            i += 1;
        }
        r
    }
}

pub struct Frame<'tcx> {
    pub f: Rc<Func<'tcx>>,
    pub bb: u32,
    pub si: u32,
    pub locals: Rc<Vec<Obj>>,
    pub dest: (ObjId, i64, u64),
    pub ret: Option<u32>,
    pub loops: SmallVec<[(u32, u32); 3]>,
}
impl<'tcx> Clone for Frame<'tcx> {
    fn clone(&self) -> Self {
        Frame { f: self.f.clone(), bb: self.bb, si: self.si, locals: self.locals.clone(), dest: self.dest, ret: self.ret, loops: self.loops.clone() }
    }
}
#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub facts: Facts,
    pub splits: u32,
}
pub type Key = SmallVec<[u32; 16]>;

impl<'tcx> State<'tcx> {
    pub fn key(&self) -> Key {
        let mut k = Key::new();
        for f in &self.frames {
            for (h, n) in &f.loops {
                k.push(f.f.pos[*h as usize]);
                k.push(*n);
            }
            k.push(f.f.pos[f.bb as usize]);
        }
        k.push(u32::MAX);
        k
    }
    pub fn enter(&mut self, bb: u32) {
        let f = self.frames.last_mut().unwrap();
        let ch = &f.f.chain[bb as usize];
        let mut n = 0;
        while n < f.loops.len() && n < ch.len() && f.loops[n].0 == ch[n] {
            n += 1;
        }
        f.loops.truncate(n);
        if f.f.head[bb as usize] && n == ch.len() && n > 0 {
            // back at the head of the innermost remaining loop
            f.loops[n - 1].1 += 1;
        } else {
            for h in &ch[n..] {
                f.loops.push((*h, 0));
            }
        }
        f.bb = bb;
        f.si = 0;
    }
    /// forget locals that are dead at the current block
    pub fn kill_dead(&mut self) {
        let f = self.frames.last_mut().unwrap();
        let live = &f.f.live_in[f.bb as usize];
        let dead: SmallVec<[usize; 16]> = (0..f.locals.len()).filter(|i| !live[*i] && !f.locals[*i].is_clear()).collect();
        if !dead.is_empty() {
            let l = Rc::make_mut(&mut f.locals);
            for i in dead {
                l[i].reset();
            }
        }
    }
    /// put the values of determined variables into control cells
    pub fn norm_ctl(&mut self, vars: &[Var]) {
        let f = &self.facts;
        let known: SmallVec<[Var; 4]> = vars
            .iter()
            .cloned()
            .filter(|v| {
                let b = f.var(*v);
                b.0 == b.1
            })
            .collect();
        if known.is_empty() {
            return;
        }
        let sub = |f: &Facts, p: &Rc<Poly>| -> Option<Poly> {
            let vs: SmallVec<[Var; 8]> = p.vars().into_iter().filter(|v| known.contains(v)).collect();
            if vs.is_empty() {
                return None;
            }
            let mut q = (**p).clone();
            for v in vs {
                q = q.subst(v, &Poly::cst(f.var(v).0))?;
            }
            Some(q)
        };
        let cell = |f: &Facts, v: &Val| -> Option<Val> {
            match v {
                Val::P(p) => sub(f, p).map(|q| if q.t.is_empty() { Val::C(q.c) } else { Val::P(Rc::new(q)) }),
                Val::Ptr(o, off, Some(p)) => sub(f, p).map(|q| {
                    if q.t.is_empty() {
                        Val::Ptr(*o, off + q.c as i64, None)
                    } else {
                        Val::Ptr(*o, *off, Some(Rc::new(q)))
                    }
                }),
                _ => None,
            }
        };
        let upd = |o: &Obj| -> Vec<(usize, Val)> { o.cells.iter().enumerate().filter(|c| c.1.ctl).filter_map(|(i, c)| cell(f, &c.v).map(|v| (i, v))).collect() };
        for fr in self.frames.iter_mut() {
            for i in 0..fr.locals.len() {
                let u = upd(&fr.locals[i]);
                if !u.is_empty() {
                    let l = &mut Rc::make_mut(&mut fr.locals)[i];
                    for (j, v) in u {
                        l.cells[j].v = v;
                    }
                }
            }
        }
        for o in self.heap.iter_mut().flatten() {
            let u = upd(o);
            if !u.is_empty() {
                let l = Rc::make_mut(o);
                for (j, v) in u {
                    l.cells[j].v = v;
                }
            }
        }
    }
    pub fn obj_sig(o: &Obj, h: &mut DefaultHasher) {
        if let Bg::Blob(b) = &o.bg {
            (Rc::as_ptr(b) as usize).hash(h);
        }
        for c in &o.cells {
            if c.ctl && c.v != Val::Undef {
                c.off.hash(h);
                c.v.hash(h);
            }
        }
    }
    pub fn sig(&self) -> u64 {
        let mut h = DefaultHasher::new();
        for f in &self.frames {
            f.f.id.hash(&mut h);
            f.bb.hash(&mut h);
            for (i, o) in f.locals.iter().enumerate() {
                if !o.is_clear() {
                    i.hash(&mut h);
                    Self::obj_sig(o, &mut h);
                }
            }
        }
        for (i, o) in self.heap.iter().enumerate() {
            if let Some(o) = o {
                i.hash(&mut h);
                Self::obj_sig(o, &mut h);
            }
        }
        h.finish()
    }
}

fn ctl_eq(a: &Obj, b: &Obj) -> bool {
    match (&a.bg, &b.bg) {
        (Bg::None, Bg::None) => (),
        (Bg::Blob(x), Bg::Blob(y)) if Rc::ptr_eq(x, y) => (),
        (Bg::Lazy(x), Bg::Lazy(y)) if x == y => (),
        _ => return false,
    }
    let (mut i, mut j) = (0, 0);
    let skip = |o: &Obj, i: &mut usize| {
        while *i < o.cells.len() && (!o.cells[*i].ctl || o.cells[*i].v == Val::Undef) {
            *i += 1
        }
    };
    loop {
        skip(a, &mut i);
        skip(b, &mut j);
        match (a.cells.get(i), b.cells.get(j)) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                if x.off != y.off || x.size != y.size || x.v != y.v {
                    return false;
                }
            }
            _ => return false,
        }
        i += 1;
        j += 1;
    }
}

pub struct Joiner<'a> {
    a: &'a Facts,
    b: &'a Facts,
    /// selector: 0 when coming from a, 1 from b
    t: Option<Poly>,
    hulls: Vec<(Var, i128, i128)>,
    memo: Vec<(Val, Val, Val)>,
    /// a product of the selector with a variable was needed
    nonlin: bool,
    linear_only: bool,
}
fn topoly(v: &Val) -> Option<Poly> {
    match v {
        Val::C(x) => Some(Poly::cst(*x)),
        Val::P(p) => Some((**p).clone()),
        _ => None,
    }
}
pub fn mk(p: Poly) -> Val {
    if p.t.is_empty() {
        Val::C(p.c)
    } else {
        let p = alias(p);
        Val::P(Rc::new(p))
    }
}
/// bounds of a variable that this state did not compute, from what it would be computed from
fn settle(f: &mut Facts, v: Var, depth: u32) {
    if f.var(v).1 < INF || depth == 0 {
        return;
    }
    let b = if let Some(d) = vdef(v) {
        for w in d.vars() {
            settle(f, w, depth - 1);
        }
        f.bound(&d)
    } else if let Some((r, d)) = qinfo(v) {
        if !d.t.is_empty() || d.c <= 0 {
            return;
        }
        for w in r.vars() {
            settle(f, w, depth - 1);
        }
        let b = f.bound_deep(&r, 1);
        (div_floor(b.0, d.c), div_floor(b.1, d.c))
    } else {
        return;
    };
    if b.0 > -INF / 4 && b.1 < INF / 4 {
        f.set_var(v, b.0, b.1);
    }
}
impl<'a> Joiner<'a> {
    fn val(&mut self, x: &Val, y: &Val) -> Val {
        if x == y {
            return x.clone();
        }
        if self.nonlin && self.linear_only {
            return Val::Undef;
        }
        if let Some(m) = self.memo.iter().find(|m| m.0 == *x && m.1 == *y) {
            return m.2.clone();
        }
        let (Some(p), Some(q)) = (topoly(x), topoly(y)) else { return Val::Undef };
        let r = self.num(&p, &q, x, y);
        self.memo.push((x.clone(), y.clone(), r.clone()));
        r
    }
    fn num(&mut self, p: &Poly, q: &Poly, x: &Val, y: &Val) -> Val {
        let d = q.sub(p);
        if let Some(d) = &d {
            // the two expressions differ by a constant on one side: keep a linear form
            let ca = self.constant(self.a, d);
            if ca == Some(0) {
                self.definite(q);
                return y.clone();
            }
            let cb = self.constant(self.b, d);
            if cb == Some(0) {
                self.definite(p);
                return x.clone();
            }
            if !d.is_const() {
                if let Some(c) = ca {
                    // p = q - c in a
                    let p = q.addc(-c).unwrap();
                    return self.lin(&p, &Poly::cst(c), &p, q);
                }
                if let Some(c) = cb {
                    let q = p.addc(c).unwrap();
                    return self.lin(p, &Poly::cst(c), p, &q);
                }
            }
        }
        match d {
            Some(d) => self.lin(p, &d, p, q),
            None => {
                self.nonlin = true;
                let ba = self.a.bound_deep(p, 1);
                let bb = self.b.bound_deep(q, 1);
                let w = fresh("", -INF, INF);
                derive(w, vec![p.clone(), q.clone()]);
                self.hulls.push((w, ba.0.min(bb.0), ba.1.max(bb.1)));
                Val::P(Rc::new(Poly::var(w)))
            }
        }
    }
    /// p + t*d with the hull of p (in a) and q (in b)
    fn lin(&mut self, base: &Poly, d: &Poly, p: &Poly, q: &Poly) -> Val {
        let d = Some(d.clone());
        let pq = (p, q);
        let p = base;
        let ba = self.a.bound_deep(pq.0, 1);
        let bb = self.b.bound_deep(pq.1, 1);
        let (lo, hi) = (ba.0.min(bb.0), ba.1.max(bb.1));
        if d.as_ref().map_or(true, |d| !d.is_const()) {
            self.nonlin = true;
            if self.linear_only {
                if std::env::var("ABS_JOINDBG").is_ok() {
                    eprintln!("nonlinear: {} | {}", pq.0.show(), pq.1.show());
                    for x in pq.0.vars().into_iter().chain(pq.1.vars()) {
                        eprintln!("   {} {:?} {:?} def {:?} q {:?}", x, self.a.var(x), self.b.var(x), vdef(x).map(|d| d.show()), qinfo(x).map(|d| d.0.show()));
                    }
                }
                return Val::Undef;
            }
        }
        let t = match &self.t {
            Some(t) => t.clone(),
            None => {
                let t = self.selector();
                self.t = Some(t.clone());
                t
            }
        };
        if let Some(d) = d {
            if let Some(e) = d.mul(&t).and_then(|e| p.add(&e)) {
                if e.t.len() <= 40 {
                    if let Some((m, k)) = if e.t.len() == 1 { Some(e.t[0]) } else { None } {
                        if mono_single(m).is_some() {
                            let _ = k;
                            return Val::P(Rc::new(e));
                        }
                    }
                    let w = name_poly("", &e, -INF, INF);
                    // name_poly may return an existing variable
                    self.hulls.push((w, lo, hi));
                    return Val::P(Rc::new(Poly::var(w)));
                }
            }
        }
        let w = fresh("", -INF, INF);
        derive(w, vec![pq.0.clone(), pq.1.clone()]);
        self.hulls.push((w, lo, hi));
        Val::P(Rc::new(Poly::var(w)))
    }
    /// expression that is 0 in a and 1 in b
    fn selector(&self) -> Poly {
        let n = self.a.iv.len().max(self.b.iv.len());
        let mut best = None;
        for v in (1..n as Var).rev() {
            let (x, y) = (self.a.var(v), self.b.var(v));
            if x.0 == x.1 && y.0 == y.1 && (x.0 - y.0).abs() == 1 {
                best = Some((v, x.0, y.0));
                break;
            }
        }
        match best {
            Some((v, x, y)) => Poly::var(v).addc(-x).unwrap().scale(y - x).unwrap(),
            None => Poly::var(fresh("", 0, 1)),
        }
    }
    /// quotients computed on one side only: bounds valid on both
    fn definite(&mut self, p: &Poly) {
        for v in p.vars() {
            let (x, y) = (self.a.var(v), self.b.var(v));
            if x.1 < INF && y.1 < INF {
                continue;
            }
            let Some((r, dv)) = qinfo(v) else { continue };
            if !dv.t.is_empty() {
                continue;
            }
            let get = |f: &Facts, b: (i128, i128)| {
                if b.1 < INF {
                    b
                } else {
                    let b = f.bound_deep(&r, 1);
                    (div_floor(b.0, dv.c), div_floor(b.1, dv.c))
                }
            };
            let (x, y) = (get(self.a, x), get(self.b, y));
            self.hulls.push((v, x.0.min(y.0), x.1.max(y.1)));
        }
    }
    /// the constant value of d under f, if it has one
    fn constant(&self, f: &Facts, d: &Poly) -> Option<i128> {
        let mut g;
        let mut e;
        let (mut f, mut d) = (f, d);
        // quotients and remainders have definite bounds even where they were not computed
        let open = |v: &Var| f.var(*v).1 >= INF || vdef(*v).map_or(false, |e| e.vars().iter().any(|w| f.var(*w).1 >= INF));
        if d.vars().iter().any(open) {
            g = f.clone();
            e = d.clone();
            for _ in 0..12 {
                let mut vs = e.vars();
                vs.sort();
                let Some(v) = vs.into_iter().rev().find(|v| open(v) && vdef(*v).is_some()) else { break };
                match e.subst(v, &vdef(v).unwrap()) {
                    Some(x) => e = x,
                    None => break,
                }
            }
            for v in e.vars() {
                settle(&mut g, v, 12);
            }
            f = &g;
            d = &e;
        }
        let b = f.bound(d);
        if b.0 == b.1 {
            return Some(b.0);
        }
        let b = f.bound_deep(d, 1);
        if b.0 == b.1 {
            return Some(b.0);
        }
        None
    }
    fn obj(&mut self, a: &Obj, b: &Obj) -> Obj {
        let mut r = Obj { size: a.size, cells: Blob::new(), bg: a.bg.clone(), len: a.len.clone() };
        let (mut i, mut j) = (0, 0);
        while i < a.cells.len() && j < b.cells.len() {
            let (x, y) = (&a.cells[i], &b.cells[j]);
            if x.off == y.off && x.size == y.size {
                let v = self.val(&x.v, &y.v);
                if v != Val::Undef {
                    r.cells.push(Cell { off: x.off, size: x.size, ctl: x.ctl, v });
                } else if !matches!(a.bg, Bg::None) {
                    r.cells.push(Cell { off: x.off, size: x.size, ctl: x.ctl, v });
                }
                i += 1;
                j += 1;
            } else if x.off + x.size as u32 <= y.off {
                if !matches!(a.bg, Bg::None) {
                    r.cells.push(x.clone());
                }
                i += 1
            } else if y.off + y.size as u32 <= x.off {
                if !matches!(a.bg, Bg::None) {
                    r.cells.push(y.clone());
                }
                j += 1
            } else {
                i += 1;
                j += 1;
            }
        }
        if !matches!(a.bg, Bg::None) {
            r.cells.extend(a.cells[i..].iter().cloned());
            r.cells.extend(b.cells[j..].iter().cloned());
        }
        r
    }
}

/// (debugging) the first control cell in which two states differ
pub fn ctl_diff(a: &State, b: &State) -> String {
    for (i, (f, g)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
        for (j, (x, y)) in f.locals.iter().zip(g.locals.iter()).enumerate() {
            if !ctl_eq(x, y) {
                return format!("frame {} {} bb{} local {}: {:?} | {:?}", i, f.f.name, f.bb, j, x.cells.iter().filter(|c| c.ctl).collect::<Vec<_>>(), y.cells.iter().filter(|c| c.ctl).collect::<Vec<_>>());
            }
        }
    }
    for (j, (x, y)) in a.heap.iter().zip(b.heap.iter()).enumerate() {
        if let (Some(x), Some(y)) = (x, y) {
            if !ctl_eq(x, y) {
                return format!("heap {}", j);
            }
        }
    }
    "none".into()
}

/// constraints that exclude each other on the two sides, tied to the selector
fn guards(a: &Facts, b: &Facts, t: &Poly, r: &mut Facts, maxlen: usize) {
    let mut n = 0;
    let mut seen: Vec<&Poly> = vec![];
    for c in a.cons.iter().rev().chain(b.cons.iter().rev()) {
        if n >= 2 || seen.contains(&&c.p) || c.p.t.len() > maxlen || c.p.t.len() < 2 {
            continue;
        }
        let get = |f: &Facts| {
            let x = f.bound(&c.p);
            match f.cons.iter().find(|d| d.p == c.p) {
                Some(d) => (x.0.max(d.lo), x.1.min(d.hi)),
                None => x,
            }
        };
        let (x, y) = (get(a), get(b));
        if !(x.0 > y.1 || y.0 > x.1) || [x.0, x.1, y.0, y.1].iter().any(|k| k.abs() >= INF / 64) {
            continue;
        }
        seen.push(&c.p);
        n += 1;
        // x.0 + t (y.0 - x.0) <= p <= x.1 + t (y.1 - x.1)
        let w = name_poly("", &c.p, -INF, INF);
        let z = r.var(w);
        r.set_var(w, z.0.max(x.0.min(y.0)), z.1.min(x.1.max(y.1)));
        for (k, up) in [(y.0 - x.0, false), (y.1 - x.1, true)] {
            let Some(q) = t.scale(-k).and_then(|e| Poly::var(w).add(&e)) else { continue };
            let _ = if up { r.assume(&q, -INF, x.1) } else { r.assume(&q, x.0, INF) };
        }
    }
}
/// facts in which two states differ: (excluding each other, otherwise)
fn lost(a: &Facts, b: &Facts) -> (usize, usize) {
    let (mut x, mut n) = (0, 0);
    let mut seen: Vec<&Poly> = vec![];
    for (f, g) in [(a, b), (b, a)] {
        for c in f.cons.iter() {
            if seen.contains(&&c.p) {
                continue;
            }
            seen.push(&c.p);
            let d = g.cons.iter().find(|d| d.p == c.p);
            if d.map_or(false, |d| (d.lo, d.hi) == (c.lo, c.hi)) {
                continue;
            }
            let (bf, bg) = (f.bound(&c.p), g.bound(&c.p));
            if d.is_none() && bg.0 >= c.lo && bg.1 <= c.hi {
                // holds anyway
                continue;
            }
            let y = (c.lo.max(bf.0), c.hi.min(bf.1));
            let z = d.map_or(bg, |d| (d.lo.max(bg.0), d.hi.min(bg.1)));
            if (y.0 > z.1 || z.0 > y.1) && c.p.t.len() <= 16 && [y.0, y.1, z.0, z.1].iter().all(|k| k.abs() < INF / 64) {
                x += 1
            } else {
                n += 1
            }
            if std::env::var("ABS_JOINDBG").is_ok() {
                eprintln!("differ {} {:?} {:?}", c.p.show(), y, z);
            }
        }
    }
    if x == 0 {
        // a case distinction on a single variable
        for v in 1..a.iv.len().min(b.iv.len()) as Var {
            let (y, z) = (a.var(v), b.var(v));
            if (y.0 > z.1 || z.0 > y.1) && vdef(v).is_none() && !(y.0 == y.1 && z.0 == z.1 && (y.0 - z.0).abs() == 1) {
                if std::env::var("ABS_JOINDBG").is_ok() {
                    eprintln!("differ {} {:?} {:?}", v, y, z);
                }
                n += 1;
            }
        }
    }
    (x, n)
}
/// join two states at the same location; None when their control parts differ
pub fn join<'tcx>(a: &State<'tcx>, b: &State<'tcx>, linear_only: bool, strict: bool) -> Option<State<'tcx>> {
    if a.frames.len() != b.frames.len() || a.heap.len() != b.heap.len() {
        return None;
    }
    for (f, g) in a.frames.iter().zip(b.frames.iter()) {
        if f.f.id != g.f.id || f.bb != g.bb || f.si != g.si || f.dest != g.dest || f.ret != g.ret {
            return None;
        }
        if Rc::ptr_eq(&f.locals, &g.locals) {
            continue;
        }
        if !f.locals.iter().zip(g.locals.iter()).all(|(x, y)| ctl_eq(x, y)) {
            return None;
        }
    }
    for (x, y) in a.heap.iter().zip(b.heap.iter()) {
        match (x, y) {
            (None, None) => (),
            (Some(x), Some(y)) => {
                if !Rc::ptr_eq(x, y) && !ctl_eq(x, y) {
                    return None;
                }
            }
            _ => return None,
        }
    }
    let mut jn = Joiner { a: &a.facts, b: &b.facts, t: None, hulls: vec![], memo: vec![], nonlin: false, linear_only };
    let mut frames = vec![];
    for (f, g) in a.frames.iter().zip(b.frames.iter()) {
        if Rc::ptr_eq(&f.locals, &g.locals) {
            frames.push(f.clone());
            continue;
        }
        let mut h = f.clone();
        let l: Vec<Obj> = f.locals.iter().zip(g.locals.iter()).map(|(x, y)| jn.obj(x, y)).collect();
        h.locals = Rc::new(l);
        frames.push(h);
    }
    let mut heap = vec![];
    for (x, y) in a.heap.iter().zip(b.heap.iter()) {
        heap.push(match (x, y) {
            (Some(x), Some(y)) => {
                if Rc::ptr_eq(x, y) {
                    Some(x.clone())
                } else {
                    Some(Rc::new(jn.obj(x, y)))
                }
            }
            _ => None,
        });
    }
    if jn.nonlin && linear_only {
        return None;
    }
    if strict && linear_only {
        // nothing may be lost but what the selector can keep
        match lost(&a.facts, &b.facts) {
            (0, 0) => (),
            (1, 0) if jn.t.is_some() => (),
            x => {
                if std::env::var("ABS_JOINDBG").is_ok() {
                    eprintln!("would lose {:?} selector {:?}", x, jn.t.is_some());
                }
                return None;
            }
        }
    }
    let hulls = std::mem::take(&mut jn.hulls);
    let sel = jn.t.take();
    drop(jn);
    let mut facts = join_facts(&a.facts, &b.facts);
    if let Some(t) = sel {
        guards(&a.facts, &b.facts, &t, &mut facts, if strict { 16 } else { 6 });
    }
    for (w, lo, hi) in hulls {
        let c = facts.var(w);
        facts.set_var(w, lo.max(c.0), hi.min(c.1));
    }
    Some(State { frames, heap, facts, splits: 0 })
}
