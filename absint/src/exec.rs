//! Statement, terminator and intrinsic semantics; scheduling.
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use crate::mem::*;
use crate::poly::*;
use rustc_middle::ty::{self, Instance};
use smallvec::{smallvec, SmallVec};
use std::collections::BTreeMap;
use std::rc::Rc;

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Bad(Kind::Unsup, s.into()))
}
fn ub<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Bad(Kind::Ub, s.into()))
}
fn panic<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Bad(Kind::Panic, s.into()))
}
fn bits_of(t: &TyInfo) -> R<(u32, bool)> {
    match t.sc {
        Some(Sc::Int { bits, signed, .. }) => Ok((bits, signed)),
        Some(Sc::Ptr) => Ok((64, false)),
        None => match t.ty.kind() {
            ty::Adt(..) if t.size <= 8 && t.size > 0 => Ok((t.size as u32 * 8, true)),
            _ => unsup(format!("non-scalar type {:?}", t.ty)),
        },
    }
}
fn one(t: &TyInfo, v: Val) -> Blob {
    let ctl = match t.sc {
        Some(Sc::Int { ctl, .. }) => ctl,
        _ => true,
    };
    smallvec![Cell { off: 0, size: t.size as u8, ctl, v }]
}
fn bv(b: bool) -> Val {
    Val::C(b as i128)
}
enum Flow {
    Next,
    Jump(u32),
    Called,
    Ret,
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
    /// difference of two pointers into the same object
    fn ptr_diff(&self, a: &Val, b: &Val) -> R<Option<Poly>> {
        match (a, b) {
            (Val::Ptr(o, x, s), Val::Ptr(p, y, t)) if o == p => {
                let mut d = Poly::cst((*x - *y) as i128);
                if let Some(s) = s {
                    d = d.add(s).unwrap();
                }
                if let Some(t) = t {
                    d = d.sub(t).unwrap();
                }
                Ok(Some(d))
            }
            (Val::C(x), Val::C(y)) => Ok(Some(Poly::cst(x - y))),
            (Val::Fn(x), Val::Fn(y)) => Ok(Some(Poly::cst((x != y) as i128))),
            (Val::Undef, _) | (_, Val::Undef) => ub("use of an uninitialised pointer"),
            _ => Ok(None),
        }
    }
    fn is_ptrish(v: &Val) -> bool {
        matches!(v, Val::Ptr(..) | Val::Fn(_))
    }
    fn ptr_add(&self, v: &Val, d: &Poly) -> R<Val> {
        match v {
            Val::Ptr(o, off, s) => {
                let mut off = *off;
                let mut p = match s {
                    Some(s) => s.add(d).unwrap(),
                    None => d.clone(),
                };
                off += p.c as i64;
                p.c = 0;
                Ok(Val::Ptr(*o, off, if p.t.is_empty() { None } else { Some(Rc::new(p)) }))
            }
            Val::C(x) => {
                if d.t.is_empty() {
                    Ok(Val::C(x + d.c))
                } else {
                    unsup("symbolic offset from an integer pointer")
                }
            }
            Val::Undef => ub("arithmetic on an uninitialised pointer"),
            _ => unsup("pointer arithmetic"),
        }
    }
    pub fn binop(&mut self, st: &mut State<'tcx>, op: Bin, mode: Mode, a: &Val, b: &Val, at: &TyInfo<'tcx>, bt: &TyInfo) -> R<(Val, bool)> {
        let cmp = matches!(op, Bin::Eq | Bin::Ne | Bin::Lt | Bin::Le | Bin::Gt | Bin::Ge | Bin::Cmp);
        if Self::is_ptrish(a) || Self::is_ptrish(b) {
            if op == Bin::Offset {
                let elem = at.ty.builtin_deref(true).map(|t| self.lw.ty(t).size).unwrap_or(1);
                let d = self.poly(b)?.scale(elem as i128).unwrap();
                return Ok((self.ptr_add(a, &d)?, false));
            }
            if cmp {
                let Some(d) = self.ptr_diff(a, b)? else {
                    return match op {
                        Bin::Eq => Ok((bv(false), false)),
                        Bin::Ne => Ok((bv(true), false)),
                        _ => unsup("ordering of unrelated pointers"),
                    };
                };
                return Ok((self.cmpop(&st.facts, op, &d)?, false));
            }
            // integer arithmetic on an address
            match op {
                Bin::Sub => {
                    if let Some(d) = self.ptr_diff(a, b)? {
                        return Ok((mk(d), false));
                    }
                    if let (Val::Ptr(..), Val::C(_) | Val::P(_)) = (a, b) {
                        let d = self.poly(b)?.scale(-1).unwrap();
                        return Ok((self.ptr_add(a, &d)?, false));
                    }
                }
                Bin::Add => {
                    if let (Val::Ptr(..), Val::C(_) | Val::P(_)) = (a, b) {
                        let d = self.poly(b)?;
                        return Ok((self.ptr_add(a, &d)?, false));
                    }
                }
                _ => (),
            }
            return unsup("arithmetic on a pointer");
        }
        if op == Bin::Offset {
            let elem = at.ty.builtin_deref(true).map(|t| self.lw.ty(t).size).unwrap_or(1);
            let d = self.poly(b)?.scale(elem as i128).unwrap();
            return Ok((self.ptr_add(a, &d)?, false));
        }
        let (bits, signed) = bits_of(at)?;
        let p = self.poly(a)?;
        let q = self.poly(b)?;
        if cmp {
            let Some(d) = p.sub(&q) else {
                // far apart: the ranges decide
                let (x, y) = (st.facts.range(&p, (INF, -INF)), st.facts.range(&q, (INF, -INF)));
                if x.0 > y.1 || x.1 < y.0 {
                    let d = Poly::cst(if x.0 > y.1 { 1 } else { -1 });
                    return Ok((self.cmpop(&st.facts, op, &d)?, false));
                }
                return unsup("coefficient overflow");
            };
            return Ok((self.cmpop(&st.facts, op, &d)?, false));
        }
        match op {
            Bin::Add | Bin::Sub | Bin::Mul => {
                let r = match op {
                    Bin::Add => p.add(&q),
                    Bin::Sub => p.sub(&q),
                    _ => p.mul(&q),
                };
                let r = match r {
                    Some(r) => r,
                    None => {
                        // too complex: keep the range only
                        let (x, y) = (st.facts.range(&p, (INF, -INF)), st.facts.range(&q, (INF, -INF)));
                        let (lo, hi) = match op {
                            Bin::Add => (x.0 + y.0, x.1 + y.1),
                            Bin::Sub => (x.0 - y.1, x.1 - y.0),
                            _ => imul(x, y),
                        };
                        let v = fresh("", -INF, INF);
                        derive(v, vec![p.clone(), q.clone()]);
                        st.facts.set_var(v, lo, hi);
                        Poly::var(v)
                    }
                };
                let r = alias(r);
                let (v, o) = self.wrap(&st.facts, r, bits, signed)?;
                if o && mode == Mode::Unchecked {
                    return ub("overflow in unchecked arithmetic");
                }
                Ok((mk(v), o))
            }
            Bin::Div | Bin::Rem => {
                if self.eqz(&st.facts, &q)? {
                    return ub("division by zero");
                }
                let (d, r) = self.divrem(st, &p, &q)?;
                if op == Bin::Div {
                    let (d, _) = self.wrap(&st.facts, d, bits, signed)?;
                    Ok((mk(d), false))
                } else {
                    Ok((mk(r), false))
                }
            }
            Bin::Shl | Bin::Shr => {
                let (sb, _) = bits_of(bt)?;
                let _ = sb;
                let sh = match q.t.is_empty() {
                    true => q.c,
                    false => {
                        let b = st.facts.range(&q, (INF, -INF));
                        if b.0 == b.1 {
                            b.0
                        } else if b.1 - b.0 < 70 {
                            let rs: Vec<_> = (b.0..=b.1).map(|x| (x, x)).collect();
                            return self.split(st, &q, &rs);
                        } else {
                            return unsup("shift by an unknown amount");
                        }
                    }
                };
                let s = sh.rem_euclid(bits as i128) as u32;
                if mode == Mode::Unchecked && (sh < 0 || sh >= bits as i128) {
                    return ub("oversized shift");
                }
                if p.t.is_empty() {
                    let (lo, hi) = irange(bits, signed);
                    let _ = (lo, hi);
                    let x = if op == Bin::Shl { crate::interp::wrap_i(p.c << s, bits, signed) } else { p.c >> s };
                    return Ok((Val::C(x), false));
                }
                if op == Bin::Shl {
                    let Some(r) = p.scale(1i128 << s) else { return unsup("shift") };
                    let (r, _) = self.wrap(&st.facts, r, bits, signed)?;
                    Ok((mk(r), false))
                } else {
                    let r = self.le(&st.facts, &p.scale(-1).unwrap())?;
                    if r {
                        let (d, _) = self.divrem(st, &p, &Poly::cst(1i128 << s))?;
                        Ok((mk(d), false))
                    } else {
                        // floor division of a negative number
                        let x = p.scale(-1).unwrap().addc((1i128 << s) - 1).unwrap();
                        let (d, _) = self.divrem(st, &x, &Poly::cst(1i128 << s))?;
                        Ok((mk(d.scale(-1).unwrap()), false))
                    }
                }
            }
            Bin::And | Bin::Or | Bin::Xor => {
                if let (true, true) = (p.t.is_empty(), q.t.is_empty()) {
                    let x = match op {
                        Bin::And => p.c & q.c,
                        Bin::Or => p.c | q.c,
                        _ => p.c ^ q.c,
                    };
                    return Ok((Val::C(x), false));
                }
                let (p, k) = if q.t.is_empty() {
                    (p, Some(q.c))
                } else if p.t.is_empty() {
                    (q.clone(), Some(p.c))
                } else {
                    (p, None)
                };
                let rp = st.facts.range(&p, (INF, -INF));
                if let Some(k) = k {
                    if op == Bin::And && k >= 0 && (k + 1) & k == 0 && rp.0 >= 0 {
                        let (_, r) = self.divrem(st, &p, &Poly::cst(k + 1))?;
                        return Ok((mk(r), false));
                    }
                    if rp.1 - rp.0 <= 4096 {
                        let f = |x: i128| {
                            Some(match op {
                                Bin::And => x & k,
                                Bin::Or => x | k,
                                _ => x ^ k,
                            })
                        };
                        let memo = 0x5000_0000_0000_0000u64 ^ ((op as u64) << 40) ^ (k as u64 & 0xff_ffff_ffff);
                        let v = self.fit(&st.facts, &p, memo, &f)?;
                        return Ok((v, false));
                    }
                }
                let rq = match k {
                    Some(k) => (k, k),
                    None => st.facts.range(&q, (INF, -INF)),
                };
                if bits == 8 && rp.1 <= 1 && rq.1 <= 1 && rp.0 >= 0 && rq.0 >= 0 {
                    // booleans: decide the first operand
                    let z = self.eqz(&st.facts, &p)?;
                    let x = Poly::cst(!z as i128);
                    let q = match k {
                        Some(k) => Poly::cst(k),
                        None => q,
                    };
                    return self.binop(st, op, mode, &mk(x), &mk(q), at, bt);
                }
                if rp.0 >= 0 && rq.0 >= 0 {
                    let m = rp.1.max(rq.1);
                    let mut h = 1i128;
                    while h <= m {
                        h <<= 1;
                    }
                    let hi = if op == Bin::And { rp.1.min(rq.1) } else { h - 1 };
                    let v = fresh("", -INF, INF);
                    derive(v, vec![p.clone(), q.clone()]);
                    st.facts.set_var(v, 0, hi);
                    return Ok((mk(Poly::var(v)), false));
                }
                let (lo, hi) = irange(bits, signed);
                let v = fresh("", -INF, INF);
                derive(v, vec![p.clone(), q.clone()]);
                st.facts.set_var(v, lo, hi);
                Ok((mk(Poly::var(v)), false))
            }
            _ => unsup("operator"),
        }
    }
    fn split<X>(&self, st: &State<'tcx>, p: &Poly, rs: &[(i128, i128)]) -> R<X> {
        let mut v = vec![];
        for (lo, hi) in rs {
            let mut g = st.facts.clone();
            if g.assume(p, *lo, *hi) {
                v.push(g);
            }
        }
        Err(Stop::Split(v))
    }
    fn cmpop(&self, f: &Facts, op: Bin, d: &Poly) -> R<Val> {
        let neg = |p: &Poly| p.scale(-1).unwrap();
        Ok(match op {
            Bin::Eq => bv(self.eqz(f, d)?),
            Bin::Ne => bv(!self.eqz(f, d)?),
            Bin::Le => bv(self.le(f, d)?),
            Bin::Lt => bv(self.le(f, &d.addc(1).unwrap())?),
            Bin::Ge => bv(self.le(f, &neg(d))?),
            Bin::Gt => bv(self.le(f, &neg(d).addc(1).unwrap())?),
            _ => Val::C(self.sgn(f, d)? as i128),
        })
    }
    fn cast(&mut self, st: &State<'tcx>, v: &Val, from: &TyInfo, to: &TyInfo) -> R<Val> {
        if Self::is_ptrish(v) {
            return Ok(v.clone());
        }
        let _ = from;
        let (bits, signed) = bits_of(to)?;
        let p = self.poly(v)?;
        let (r, _) = self.wrap(&st.facts, p, bits, signed)?;
        Ok(mk(r))
    }

    fn rvalue(&mut self, st: &mut State<'tcx>, r: &Rv<'tcx>, dest: &T<'tcx>) -> R<Blob> {
        Ok(match r {
            Rv::Use(o) => self.op_blob(st, o)?,
            Rv::Bits(o) => {
                let ot = o.ty().clone();
                let mut b = self.op_blob(st, o)?;
                if let (Some(Sc::Int { bits, signed, ctl }), 1) = (dest.sc, b.len()) {
                    b[0].ctl = ctl;
                    match &b[0].v {
                        Val::C(_) | Val::P(_) if b[0].size as u32 * 8 == bits => {
                            let p = self.poly(&b[0].v)?;
                            let (q, _) = self.wrap(&st.facts, p, bits, signed)?;
                            b[0].v = mk(q);
                        }
                        _ => (),
                    }
                    if b[0].size as u64 != dest.size {
                        return unsup("transmute of a padded value");
                    }
                } else if dest.sc.is_some() && b.len() != 1 && dest.size > 0 {
                    // several cells into one scalar
                    let mut x: i128 = 0;
                    let mut n = 0;
                    for c in &b {
                        let Val::C(y) = &c.v else { return unsup(format!("transmute {:?} -> {:?}", ot.ty, dest.ty)) };
                        x |= (y & ((1i128 << (8 * c.size as u32)) - 1)) << (8 * c.off);
                        n += c.size as u64;
                    }
                    if n != dest.size {
                        return unsup("transmute of a padded value");
                    }
                    let (bits, signed) = bits_of(dest)?;
                    return Ok(one(dest, Val::C(crate::interp::wrap_i(x, bits, signed))));
                }
                b
            }
            Rv::Thin(o) => {
                let b = self.op_blob(st, o)?;
                b.into_iter().filter(|c| c.off == 0).collect()
            }
            Rv::Unsize(o, n) => {
                let mut b = self.op_blob(st, o)?;
                b.push(Cell { off: 8, size: 8, ctl: true, v: Val::C(*n as i128) });
                b
            }
            Rv::FnPtr(f) => one(dest, Val::Fn(*f)),
            Rv::Repeat(o, n) => {
                let b = self.op_blob(st, o)?;
                let s = o.ty().size;
                let mut r = Blob::new();
                for i in 0..*n {
                    for c in &b {
                        let mut c = c.clone();
                        c.off += (i * s) as u32;
                        r.push(c);
                    }
                }
                r
            }
            Rv::Ref(p) => {
                let a = self.place(st, p)?;
                let mut r: Blob = smallvec![Cell { off: 0, size: 8, ctl: true, v: self.addr_val(&a) }];
                if dest.fat {
                    let Some(m) = a.meta.clone() else { return unsup("reference to unsized place without metadata") };
                    r.push(Cell { off: 8, size: 8, ctl: true, v: m });
                }
                r
            }
            Rv::Bin(op, mode, x, y) => {
                let (xt, yt) = (x.ty().clone(), y.ty().clone());
                if xt.fat {
                    // comparison of fat pointers: address first, then metadata
                    let (b, c) = (self.op_blob(st, x)?, self.op_blob(st, y)?);
                    let d = match self.ptr_diff(&b[0].v, &c[0].v)? {
                        Some(d) => d,
                        None => Poly::cst(1),
                    };
                    let same = self.eqz(&st.facts, &d)? && {
                        let e = self.poly(&b[1].v)?.sub(&self.poly(&c[1].v)?).unwrap();
                        self.eqz(&st.facts, &e)?
                    };
                    return match op {
                        Bin::Eq => Ok(one(dest, bv(same))),
                        Bin::Ne => Ok(one(dest, bv(!same))),
                        _ => unsup("ordering of fat pointers"),
                    };
                }
                let a = self.op(st, x)?;
                let b = self.op(st, y)?;
                let (v, o) = self.binop(st, *op, *mode, &a, &b, &xt, &yt)?;
                if *mode == Mode::Overflow {
                    let ctl = match xt.sc {
                        Some(Sc::Int { ctl, .. }) => ctl,
                        _ => true,
                    };
                    smallvec![Cell { off: 0, size: xt.size as u8, ctl, v }, Cell { off: xt.size as u32, size: 1, ctl: true, v: bv(o) }]
                } else {
                    one(dest, v)
                }
            }
            Rv::Not(o) => {
                let t = o.ty().clone();
                let v = self.op(st, o)?;
                let p = self.poly(&v)?;
                let (bits, signed) = bits_of(&t)?;
                let r = if t.ty.is_bool() {
                    p.scale(-1).unwrap().addc(1).unwrap()
                } else if signed {
                    p.scale(-1).unwrap().addc(-1).unwrap()
                } else {
                    p.scale(-1).unwrap().addc((1i128 << bits) - 1).unwrap()
                };
                one(dest, mk(r))
            }
            Rv::Neg(o) => {
                let t = o.ty().clone();
                let v = self.op(st, o)?;
                let (bits, signed) = bits_of(&t)?;
                let p = self.poly(&v)?.scale(-1).unwrap();
                let (r, _) = self.wrap(&st.facts, alias(p), bits, signed)?;
                one(dest, mk(r))
            }
            Rv::PtrMeta(o) => {
                if dest.size == 0 {
                    return Ok(Blob::new());
                }
                let b = self.op_blob(st, o)?;
                match b.iter().find(|c| c.off == 8) {
                    Some(c) => one(dest, c.v.clone()),
                    None => return unsup("missing pointer metadata"),
                }
            }
            Rv::IntCast(o) => {
                let t = o.ty().clone();
                let v = self.op(st, o)?;
                let r = self.cast(st, &v, &t, dest)?;
                one(dest, r)
            }
            Rv::Discr(p, vt) => {
                let a = self.place(st, p)?;
                let d = self.discr(st, &a, vt)?;
                one(dest, d)
            }
            Rv::Agg(fs, tag) => {
                let mut r = Blob::new();
                for (off, o) in fs {
                    if o.ty().size == 0 {
                        continue;
                    }
                    let b = self.op_blob(st, o)?;
                    for mut c in b {
                        c.off += *off as u32;
                        r.push(c);
                    }
                }
                if let Some((off, sc, v)) = tag {
                    r.retain(|c| !(c.off as u64 == *off));
                    r.push(Cell { off: *off as u32, size: sc.size() as u8, ctl: true, v: Val::C(*v) });
                }
                r.sort_by_key(|c| c.off);
                r
            }
            Rv::Unsup(s) => return unsup(s.clone()),
        })
    }
    pub fn addr_val(&self, a: &Addr) -> Val {
        if a.o == ObjId::H(u32::MAX) {
            return Val::C(8);
        }
        Val::Ptr(a.o, a.off, a.sym.clone())
    }
    pub fn discr(&mut self, st: &State<'tcx>, a: &Addr, vt: &VariantTag) -> R<Val> {
        match vt {
            VariantTag::None { discr } => Ok(Val::C(*discr)),
            VariantTag::Direct { off, sc, discrs } => {
                let mut b = a.clone();
                b.off += *off as i64;
                let signed = matches!(sc, Sc::Int { signed: true, .. });
                let v = self.read(st, &b, sc.size() as u8, signed)?;
                match v {
                    Val::C(x) => match discrs.iter().find(|d| d.0 == x) {
                        Some(d) => Ok(Val::C(d.1)),
                        None => ub("invalid enum tag"),
                    },
                    Val::Undef => ub("uninitialised enum tag"),
                    Val::P(p) => {
                        let d = discrs.clone();
                        self.fit(&st.facts, &p, 0x77, &|x| d.iter().find(|d| d.0 == x).map(|d| d.1))
                    }
                    _ => unsup("pointer as enum tag"),
                }
            }
            VariantTag::Niche { off, sc, start, lo, hi, untagged, discrs } => {
                let mut b = a.clone();
                b.off += *off as i64;
                let signed = matches!(sc, Sc::Int { signed: true, .. });
                let v = self.read(st, &b, sc.size() as u8, signed)?;
                let bits = sc.size() as u32 * 8;
                let f = |x: i128| -> i128 {
                    let rel = (x as u128).wrapping_sub(*start) & if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                    let var = if rel <= (*hi - *lo) as u128 { *lo + rel as u32 } else { *untagged };
                    discrs[var as usize]
                };
                match v {
                    Val::C(x) => Ok(Val::C(f(x))),
                    Val::Ptr(..) | Val::Fn(_) => Ok(Val::C(discrs[*untagged as usize])),
                    Val::Undef => ub("uninitialised enum tag"),
                    Val::P(p) => {
                        let b = st.facts.range(&p, (INF, -INF));
                        if b.1 - b.0 < 4096 {
                            self.fit(&st.facts, &p, 0x78, &|x| Some(f(x)))
                        } else {
                            // niche values are few: split around them
                            let s0 = crate::interp::wrap_i(*start as i128, bits, signed);
                            let s1 = s0 + (*hi - *lo) as i128;
                            if b.1 < s0 || b.0 > s1 {
                                return Ok(Val::C(discrs[*untagged as usize]));
                            }
                            let mut rs = vec![(-INF, s0 - 1)];
                            for x in s0..=s1 {
                                rs.push((x, x));
                            }
                            rs.push((s1 + 1, INF));
                            self.split(st, &p, &rs)
                        }
                    }
                }
            }
        }
    }
    fn stmt(&mut self, st: &mut State<'tcx>, s: &Stmt<'tcx>) -> R<()> {
        match s {
            Stmt::Assign(p, r) => {
                if p.ty.size == 0 && p.ty.sized {
                    // evaluate nothing: zero-sized
                    if let Rv::Unsup(s) = r {
                        return unsup(s.clone());
                    }
                    return Ok(());
                }
                if let (true, Rv::Use(Op::Const(CVal::Mem(al, 0), t))) = (p.proj.is_empty() && p.ty.size >= 128, r) {
                    // a constant table
                    let al = self.lw.allocs[*al as usize].clone();
                    if al.relocs.is_empty() && al.bytes.len() as u64 == t.size {
                        let d = st.frames.len() - 1;
                        let o = &mut Rc::make_mut(&mut st.frames[d].locals)[p.local as usize];
                        o.cells.clear();
                        o.bg = Bg::Blob(al);
                        return Ok(());
                    }
                }
                let b = self.rvalue(st, r, &p.ty)?;
                if p.proj.is_empty() {
                    let d = st.frames.len() - 1;
                    let o = &mut Rc::make_mut(&mut st.frames[d].locals)[p.local as usize];
                    o.cells = b;
                    o.bg = Bg::None;
                    return Ok(());
                }
                let a = self.place(st, p)?;
                self.write(st, &a, b, p.ty.size)
            }
            Stmt::SetTag(p, t) => {
                if let Some((off, sc, v)) = t {
                    let mut a = self.place(st, p)?;
                    a.off += *off as i64;
                    let c = Cell { off: 0, size: sc.size() as u8, ctl: true, v: Val::C(*v) };
                    self.write(st, &a, smallvec![c], sc.size())?;
                }
                Ok(())
            }
            Stmt::Dead(l) => {
                let f = st.frames.last_mut().unwrap();
                if !f.locals[*l as usize].is_clear() {
                    Rc::make_mut(&mut f.locals)[*l as usize].reset();
                }
                Ok(())
            }
            Stmt::CopyNonOverlapping { src, dst, n, elem } => {
                let (s, d, n) = (self.op(st, src)?, self.op(st, dst)?, self.op(st, n)?);
                self.memcpy(st, &s, &d, &n, elem.size)
            }
            Stmt::Assume(o) => {
                let v = self.op(st, o)?;
                let p = self.poly(&v)?;
                if self.eqz(&st.facts, &p)? {
                    return ub("violated assumption");
                }
                Ok(())
            }
            Stmt::Unsup(s) => unsup(s.clone()),
        }
    }
    fn memcpy(&mut self, st: &mut State<'tcx>, s: &Val, d: &Val, n: &Val, elem: u64) -> R<()> {
        let n = self.poly(n)?;
        let b = st.facts.range(&n, (INF, -INF));
        if b.0 != b.1 {
            if b.1 - b.0 > 200 {
                return unsup("copy of unknown length");
            }
            let rs: Vec<_> = (b.0..=b.1).map(|x| (x, x)).collect();
            return self.split(st, &n, &rs);
        }
        let size = b.0 as u64 * elem;
        if size == 0 {
            return Ok(());
        }
        let sa = self.ptr_addr(s)?;
        let da = self.ptr_addr(d)?;
        let mut blob = self.read_blob(st, &sa, size)?;
        if elem > 1 && blob.len() as u64 == size && blob.iter().all(|c| c.size == 1) {
            // constant bytes copied as wider elements
            let mut r = Blob::new();
            let mut i = 0;
            while i + elem as usize <= blob.len() {
                if elem <= 8 {
                    let mut x: i128 = 0;
                    for j in (0..elem as usize).rev() {
                        let Val::C(y) = blob[i + j].v else { return unsup("copy of symbolic bytes as wider elements") };
                        x = (x << 8) | (y & 255);
                    }
                    r.push(Cell { off: i as u32, size: elem as u8, ctl: false, v: Val::C(x) });
                } else {
                    r.extend(blob[i..i + elem as usize].iter().cloned());
                }
                i += elem as usize;
            }
            blob = r;
        }
        self.write(st, &da, blob, size)
    }

    // ------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, st: &mut State<'tcx>, it: &Rc<Intr<'tcx>>, args: &[Op<'tcx>], dest: &Place<'tcx>) -> R<bool> {
        let tcx = self.lw.tcx;
        let t0 = it.tys.get(0).cloned();
        let set = |me: &mut Self, st: &mut State<'tcx>, v: Val| -> R<bool> {
            if dest.ty.size == 0 {
                return Ok(true);
            }
            let b = one(&dest.ty, v);
            let a = me.place(st, dest)?;
            me.write(st, &a, b, dest.ty.size)?;
            Ok(true)
        };
        let name = it.name.as_str();
        match name {
            "size_of" => set(self, st, Val::C(t0.unwrap().size as i128)),
            "align_of" | "min_align_of" | "pref_align_of" => set(self, st, Val::C(t0.unwrap().align as i128)),
            "size_of_val" if t0.as_ref().unwrap().sized => set(self, st, Val::C(t0.unwrap().size as i128)),
            "size_of_val" | "min_align_of_val" | "align_of_val" => {
                let t = t0.unwrap();
                match t.ty.kind() {
                    ty::Slice(e) => {
                        let es = self.lw.ty(*e);
                        if name != "size_of_val" {
                            return set(self, st, Val::C(es.align as i128));
                        }
                        let b = self.op_blob(st, &args[0])?;
                        let n = self.poly(&b[1].v)?;
                        set(self, st, mk(n.scale(es.size as i128).unwrap()))
                    }
                    ty::Str => {
                        if name != "size_of_val" {
                            return set(self, st, Val::C(1));
                        }
                        let b = self.op_blob(st, &args[0])?;
                        set(self, st, b[1].v.clone())
                    }
                    _ if t.sized => set(self, st, Val::C(t.align as i128)),
                    _ => unsup("size_of_val of an unsized type"),
                }
            }
            "needs_drop" => {
                let b = t0.unwrap().ty.needs_drop(tcx, self.lw.env);
                set(self, st, bv(b))
            }
            "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => {
                if name == "assume" {
                    let v = self.op(st, &args[0])?;
                    let p = self.poly(&v)?;
                    if self.eqz(&st.facts, &p)? {
                        return ub("violated assumption");
                    }
                }
                Ok(true)
            }
            "likely" | "unlikely" | "black_box" | "read_via_copy" | "write_via_move" | "transmute" | "transmute_unchecked" | "ptr_mask" | "forget" => match name {
                "read_via_copy" => {
                    let v = self.op(st, &args[0])?;
                    let a = self.ptr_addr(&v)?;
                    let b = self.read_blob(st, &a, dest.ty.size)?;
                    let d = self.place(st, dest)?;
                    self.write(st, &d, b, dest.ty.size)?;
                    Ok(true)
                }
                "write_via_move" => {
                    let v = self.op(st, &args[0])?;
                    let b = self.op_blob(st, &args[1])?;
                    let sz = args[1].ty().size;
                    if sz > 0 {
                        let a = self.ptr_addr(&v)?;
                        self.write(st, &a, b, sz)?;
                    }
                    Ok(true)
                }
                "forget" => Ok(true),
                "ptr_mask" => unsup("ptr_mask"),
                _ => {
                    let b = self.rvalue(st, &Rv::Bits(args[0].clone()), &dest.ty)?;
                    let a = self.place(st, dest)?;
                    self.write(st, &a, b, dest.ty.size)?;
                    Ok(true)
                }
            },
            "offset" | "arith_offset" => {
                let (a, b) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let e = args[0].ty().ty.builtin_deref(true).unwrap();
                let e = self.lw.ty(e).size;
                let d = self.poly(&b)?.scale(e as i128).unwrap();
                let v = self.ptr_add(&a, &d)?;
                set(self, st, v)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (a, b) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let e = t0.unwrap().size as i128;
                let Some(d) = self.ptr_diff(&a, &b)? else { return ub("offset between unrelated pointers") };
                if d.t.iter().any(|t| t.1 % e != 0) || d.c % e != 0 {
                    return unsup("unaligned pointer difference");
                }
                let mut q = d.clone();
                q.c /= e;
                for t in q.t.iter_mut() {
                    t.1 /= e;
                }
                set(self, st, mk(q))
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" => {
                let (s, d, n) = (self.op(st, &args[0])?, self.op(st, &args[1])?, self.op(st, &args[2])?);
                self.memcpy(st, &s, &d, &n, t0.unwrap().size)?;
                Ok(true)
            }
            "write_bytes" => {
                let (d, v, n) = (self.op(st, &args[0])?, self.op(st, &args[1])?, self.op(st, &args[2])?);
                let t = t0.unwrap();
                let n = self.poly(&n)?;
                let b = st.facts.range(&n, (INF, -INF));
                if b.0 != b.1 {
                    if b.1 - b.0 > 200 {
                        return unsup("fill of unknown length");
                    }
                    let rs: Vec<_> = (b.0..=b.1).map(|x| (x, x)).collect();
                    return self.split(st, &n, &rs);
                }
                let Val::C(byte) = v else { return unsup("fill with a symbolic byte") };
                let size = b.0 as u64 * t.size;
                if size == 0 {
                    return Ok(true);
                }
                let a = self.ptr_addr(&d)?;
                let mut leaves = vec![];
                self.leaves(t.ty, 0, &mut leaves, 0)?;
                let mut blob = Blob::new();
                for i in 0..b.0 as u64 {
                    for (o, sz, signed, ctl) in &leaves {
                        let mut x: i128 = 0;
                        for _ in 0..*sz {
                            x = (x << 8) | byte;
                        }
                        let x = crate::interp::wrap_i(x, *sz as u32 * 8, *signed);
                        blob.push(Cell { off: (i * t.size + o) as u32, size: *sz, ctl: *ctl, v: Val::C(x) });
                    }
                }
                self.write(st, &a, blob, size)?;
                Ok(true)
            }
            "compare_bytes" | "raw_eq" => {
                let (a, b) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let n = if name == "raw_eq" {
                    Poly::cst(t0.unwrap().size as i128)
                } else {
                    let n = self.op(st, &args[2])?;
                    self.poly(&n)?
                };
                let r = st.facts.range(&n, (INF, -INF));
                if r.0 != r.1 {
                    return unsup("comparison of unknown length");
                }
                let (pa, pb) = if r.0 == 0 { return set(self, st, Val::C((name == "raw_eq") as i128)) } else { (self.ptr_addr(&a)?, self.ptr_addr(&b)?) };
                // identical cell structure: compare cell-wise
                let (x, y) = (self.read_blob(st, &pa, r.0 as u64)?, self.read_blob(st, &pb, r.0 as u64)?);
                if x.len() == y.len() && x.iter().zip(y.iter()).all(|(c, d)| c.off == d.off && c.size == d.size) {
                    for (c, d) in x.iter().zip(y.iter()) {
                        let p = self.poly(&c.v)?.sub(&self.poly(&d.v)?).unwrap();
                        let s = self.sgn(&st.facts, &p)?;
                        if s != 0 {
                            if name != "raw_eq" && c.size != 1 {
                                // ordered by the first differing byte: either way
                                let v = Poly::var(fresh("memcmp", 0, 1)).scale(2).and_then(|p| p.addc(-1)).unwrap();
                                return set(self, st, Val::P(Rc::new(v)));
                            }
                            return set(self, st, Val::C(if name == "raw_eq" { 0 } else { s as i128 }));
                        }
                    }
                    return set(self, st, Val::C((name == "raw_eq") as i128));
                }
                // otherwise by the cells of the coarser side, or byte by byte
                let mut cuts: Vec<(u64, u8)> = (0..r.0 as u64).map(|i| (i, 1)).collect();
                if name == "raw_eq" {
                    let big = if x.len() <= y.len() { &x } else { &y };
                    if big.iter().map(|c| c.size as u64).sum::<u64>() == r.0 as u64 {
                        cuts = big.iter().map(|c| (c.off as u64, c.size)).collect();
                    }
                }
                for (i, n) in cuts {
                    let mut c = pa.clone();
                    let mut d = pb.clone();
                    c.off += i as i64;
                    d.off += i as i64;
                    let (x, y) = (self.read(st, &c, n, false)?, self.read(st, &d, n, false)?);
                    let p = self.poly(&x)?.sub(&self.poly(&y)?).unwrap();
                    let s = self.sgn(&st.facts, &p)?;
                    if s != 0 {
                        return set(self, st, Val::C(if name == "raw_eq" { 0 } else { s as i128 }));
                    }
                }
                set(self, st, Val::C((name == "raw_eq") as i128))
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "unchecked_shl"
            | "unchecked_shr" | "exact_div" | "disjoint_bitor" | "three_way_compare" => {
                let (op, m) = match name {
                    "wrapping_add" => (Bin::Add, Mode::Wrap),
                    "wrapping_sub" => (Bin::Sub, Mode::Wrap),
                    "wrapping_mul" => (Bin::Mul, Mode::Wrap),
                    "unchecked_add" => (Bin::Add, Mode::Unchecked),
                    "unchecked_sub" => (Bin::Sub, Mode::Unchecked),
                    "unchecked_mul" => (Bin::Mul, Mode::Unchecked),
                    "unchecked_div" | "exact_div" => (Bin::Div, Mode::Wrap),
                    "unchecked_rem" => (Bin::Rem, Mode::Wrap),
                    "unchecked_shl" => (Bin::Shl, Mode::Unchecked),
                    "unchecked_shr" => (Bin::Shr, Mode::Unchecked),
                    "disjoint_bitor" => (Bin::Or, Mode::Wrap),
                    _ => (Bin::Cmp, Mode::Wrap),
                };
                let (x, y) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let (xt, yt) = (args[0].ty().clone(), args[1].ty().clone());
                let (v, _) = self.binop(st, op, m, &x, &y, &xt, &yt)?;
                set(self, st, v)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &name[..3] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let (x, y) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let (xt, yt) = (args[0].ty().clone(), args[1].ty().clone());
                let (v, o) = self.binop(st, op, Mode::Overflow, &x, &y, &xt, &yt)?;
                let ctl = match xt.sc {
                    Some(Sc::Int { ctl, .. }) => ctl,
                    _ => true,
                };
                let b: Blob = smallvec![Cell { off: 0, size: xt.size as u8, ctl, v }, Cell { off: xt.size as u32, size: 1, ctl: true, v: bv(o) }];
                let a = self.place(st, dest)?;
                self.write(st, &a, b, dest.ty.size)?;
                Ok(true)
            }
            "saturating_add" | "saturating_sub" => {
                let (x, y) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let xt = args[0].ty().clone();
                let (bits, signed) = bits_of(&xt)?;
                let (p, q) = (self.poly(&x)?, self.poly(&y)?);
                let r = if name == "saturating_add" { p.add(&q) } else { p.sub(&q) }.unwrap();
                let (lo, hi) = irange(bits, signed);
                if !self.le(&st.facts, &r.addc(-hi).unwrap())? {
                    return set(self, st, Val::C(hi));
                }
                if !self.le(&st.facts, &r.scale(-1).unwrap().addc(lo).unwrap())? {
                    return set(self, st, Val::C(lo));
                }
                set(self, st, mk(alias(r)))
            }
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "ctpop" => {
                let x = self.op(st, &args[0])?;
                let (bits, _) = bits_of(args[0].ty())?;
                let f = |x: i128| -> Option<i128> {
                    let u = (x as u128) & if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                    Some(match &name[..4] {
                        "ctlz" => u.leading_zeros() as i128 - (128 - bits as i128),
                        "cttz" => {
                            if u == 0 {
                                bits as i128
                            } else {
                                u.trailing_zeros() as i128
                            }
                        }
                        _ => u.count_ones() as i128,
                    })
                };
                let p = self.poly(&x)?;
                if name.starts_with("ctlz") && !p.t.is_empty() {
                    let b = st.facts.range(&p, (INF, -INF));
                    if b.0 >= 0 && f(b.0) == f(b.1) {
                        return set(self, st, Val::C(f(b.0).unwrap()));
                    }
                    if b.0 >= 0 {
                        let mut rs = vec![(0, 0)];
                        for i in 0..bits {
                            rs.push((1i128 << i, (1i128 << (i + 1)) - 1));
                        }
                        return self.split(st, &p, &rs);
                    }
                }
                let v = self.fit(&st.facts, &p, 0x99, &f)?;
                set(self, st, v)
            }
            "ptr_metadata" => {
                let b = self.rvalue(st, &Rv::PtrMeta(args[0].clone()), &dest.ty)?;
                let a = self.place(st, dest)?;
                self.write(st, &a, b, dest.ty.size)?;
                Ok(true)
            }
            "aggregate_raw_ptr" => {
                let mut b = self.op_blob(st, &args[0])?;
                for mut c in self.op_blob(st, &args[1])? {
                    c.off += 8;
                    b.push(c);
                }
                let a = self.place(st, dest)?;
                self.write(st, &a, b, dest.ty.size)?;
                Ok(true)
            }
            "slice_get_unchecked" => {
                let b = self.op_blob(st, &args[0])?;
                let i = self.op(st, &args[1])?;
                let e = it.tys.last().unwrap().size;
                let d = self.poly(&i)?.scale(e as i128).unwrap();
                let v = self.ptr_add(&b[0].v, &d)?;
                set(self, st, v)
            }
            "discriminant_value" => {
                let v = self.op(st, &args[0])?;
                let a = self.ptr_addr(&v)?;
                let vt = match self.lw.variant_tag(t0.unwrap().ty) {
                    Ok(v) => v,
                    Err(e) => return unsup(e),
                };
                let d = self.discr(st, &a, &vt)?;
                set(self, st, d)
            }
            "ub_checks" | "contract_checks" | "is_val_statically_known" => set(self, st, bv(false)),
            "overflow_checks" => set(self, st, bv(true)),
            "type_id_eq" | "type_id" => unsup("type id"),
            "select_unpredictable" => {
                let c = self.op(st, &args[0])?;
                let p = self.poly(&c)?;
                let z = self.eqz(&st.facts, &p)?;
                let b = self.op_blob(st, &args[if z { 2 } else { 1 }])?;
                let a = self.place(st, dest)?;
                self.write(st, &a, b, dest.ty.size)?;
                Ok(true)
            }
            "typed_swap_nonoverlapping" => {
                let (x, y) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
                let (a, b) = (self.ptr_addr(&x)?, self.ptr_addr(&y)?);
                let n = t0.unwrap().size;
                let (p, q) = (self.read_blob(st, &a, n)?, self.read_blob(st, &b, n)?);
                self.write(st, &a, q, n)?;
                self.write(st, &b, p, n)?;
                Ok(true)
            }
            "abort" => panic("abort"),
            "unreachable" => ub("unreachable code reached"),
            "caller_location" => set(self, st, Val::C(8)),
            _ => Ok(false),
        }
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State<'tcx>, fid: u32, args: Vec<(Blob, T<'tcx>)>, rust_call: bool, dest: (ObjId, i64, u64), ret: Option<u32>) -> R<()> {
        let f = match self.lw.func(fid) {
            Ok(f) => f,
            Err(e) => return unsup(e),
        };
        if st.frames.len() > 60 {
            return unsup("call depth");
        }
        let mut locals: Vec<Obj> = f.locals.iter().map(|t| Obj::new(t.size)).collect();
        let mut flat: Vec<Blob> = vec![];
        if rust_call && f.spread.is_none() && !args.is_empty() {
            let n = args.len();
            for (i, (b, t)) in args.into_iter().enumerate() {
                if i + 1 < n {
                    flat.push(b);
                    continue;
                }
                let ty::Tuple(ts) = t.ty.kind() else { return unsup("rust-call without tuple") };
                let l = self.lw.layout(t.ty);
                for (j, x) in ts.iter().enumerate() {
                    let o = self.lw.field_off(l, j) as u32;
                    let s = self.lw.ty(x).size as u32;
                    let mut r = Blob::new();
                    for c in &b {
                        if c.off >= o && c.off < o + s {
                            let mut c = c.clone();
                            c.off -= o;
                            r.push(c);
                        }
                    }
                    flat.push(r);
                }
            }
        } else {
            flat.extend(args.into_iter().map(|x| x.0));
        }
        if flat.len() != f.nargs {
            return unsup(format!("argument count of {}", f.name));
        }
        for (i, b) in flat.into_iter().enumerate() {
            locals[i + 1].cells = b;
        }
        if f.in_target {
            self.cov.entry(fid).or_default();
        }
        st.frames.push(Frame { f, bb: 0, si: 0, locals: Rc::new(locals), dest, ret, loops: SmallVec::new() });
        st.enter(0);
        Ok(())
    }
    fn hook(&mut self, fid: u32) -> Hook {
        if let Some(h) = self.callee_names.get(&fid) {
            return *h;
        }
        let i = self.lw.funcs[fid as usize].0;
        let mut h = Hook::None;
        if let Some(n) = self.lw.tcx.opt_item_name(i.def_id()) {
            let n = n.to_string();
            let n = n.trim_start_matches('_');
            h = match n {
                "rust_alloc" => Hook::Alloc,
                "rust_alloc_zeroed" => Hook::AllocZeroed,
                "rust_dealloc" => Hook::Dealloc,
                "rust_realloc" => Hook::Realloc,
                _ if n.starts_with("rust_no_alloc_shim") => Hook::Nop,
                _ => Hook::None,
            };
        }
        if h == Hook::None {
            let d = i.def_id();
            if let Some(n) = self.lw.tcx.opt_item_name(d) {
                let n = n.as_str();
                if (n == "div_euclid" || n == "rem_euclid") && self.lw.tcx.crate_name(d.krate).as_str() == "core" {
                    if self.lw.tcx.def_path_str(d).starts_with("core::num::<impl ") {
                        h = if n == "div_euclid" { Hook::DivEuclid } else { Hook::RemEuclid };
                    }
                }
            }
        }
        self.callee_names.insert(fid, h);
        h
    }
    /// floor division of integers by a positive constant
    fn euclid(&mut self, st: &mut State<'tcx>, h: Hook, args: &[Op<'tcx>], dest: &Place<'tcx>) -> R<bool> {
        if !matches!(h, Hook::DivEuclid | Hook::RemEuclid) || args.len() != 2 {
            return Ok(false);
        }
        let (a, b) = (self.op(st, &args[0])?, self.op(st, &args[1])?);
        let (Ok(a), Ok(b)) = (self.poly(&a), self.poly(&b)) else { return Ok(false) };
        if !b.t.is_empty() || b.c <= 0 {
            return Ok(false);
        }
        let (q, r) = self.floor_div(st, &a, b.c)?;
        let v = if h == Hook::DivEuclid { q } else { r };
        let at = self.place(st, dest)?;
        let cells = one(&dest.ty, if v.t.is_empty() { Val::C(v.c) } else { Val::P(Rc::new(v)) });
        self.write(st, &at, cells, dest.ty.size)?;
        Ok(true)
    }
    fn usz(&self, st: &State<'tcx>, v: &Val) -> R<u64> {
        let p = self.poly(v)?;
        let b = st.facts.range(&p, (INF, -INF));
        if b.0 == b.1 && b.0 >= 0 {
            Ok(b.0 as u64)
        } else if b.0 >= 0 && b.1 - b.0 < 64 {
            let rs: Vec<(i128, i128)> = (b.0..=b.1).map(|i| (i, i)).collect();
            self.split_ranges(&st.facts, &p, &rs)
        } else {
            unsup("allocation of unknown size")
        }
    }
    fn run_hook(&mut self, st: &mut State<'tcx>, h: Hook, args: &[Op<'tcx>], dest: &Place<'tcx>) -> R<()> {
        let vals: R<Vec<Val>> = args.iter().map(|a| { let b = self.op_blob(st, a)?; Ok(b.get(0).map(|c| c.v.clone()).unwrap_or(Val::Undef)) }).collect();
        let vals = vals?;
        let r = match h {
            Hook::Nop | Hook::None | Hook::DivEuclid | Hook::RemEuclid => None,
            Hook::Alloc | Hook::AllocZeroed => {
                let n = self.usz(st, &vals[0])?;
                let id = st.heap.len() as u32;
                let mut o = Obj::new(n);
                if h == Hook::AllocZeroed {
                    for i in 0..n as u32 {
                        o.cells.push(Cell { off: i, size: 1, ctl: false, v: Val::C(0) });
                    }
                }
                st.heap.push(Some(Rc::new(o)));
                Some(Val::Ptr(ObjId::H(id), 0, None))
            }
            Hook::Dealloc => {
                match &vals[0] {
                    Val::Ptr(ObjId::H(i), 0, None) if st.heap.get(*i as usize).map_or(false, |x| x.is_some()) => st.heap[*i as usize] = None,
                    _ => return ub("invalid deallocation"),
                }
                None
            }
            Hook::Realloc => {
                // ptr, old size, align, new size
                let n = self.usz(st, &vals[3])?;
                let old = self.usz(st, &vals[1])?;
                let a = self.ptr_addr(&vals[0])?;
                let b = self.read_blob(st, &a, old.min(n))?;
                let id = st.heap.len() as u32;
                let mut o = Obj::new(n);
                o.cells = b;
                st.heap.push(Some(Rc::new(o)));
                if let ObjId::H(i) = a.o {
                    st.heap[i as usize] = None;
                }
                Some(Val::Ptr(ObjId::H(id), 0, None))
            }
        };
        if let Some(v) = r {
            let a = self.place(st, dest)?;
            let b = one(&dest.ty, v);
            self.write(st, &a, b, dest.ty.size)?;
        }
        Ok(())
    }
    fn term(&mut self, st: &mut State<'tcx>, t: &Term<'tcx>) -> R<Flow> {
        match t {
            Term::Goto(b) => Ok(Flow::Jump(*b)),
            Term::Switch { d, vals, other } => {
                let v = self.op(st, d)?;
                if let Val::C(x) = v {
                    for (k, b) in vals {
                        if *k == x {
                            return Ok(Flow::Jump(*b));
                        }
                    }
                    return Ok(Flow::Jump(*other));
                }
                let p = self.poly(&v)?;
                for (k, b) in vals {
                    if self.eqz(&st.facts, &p.addc(-k).unwrap())? {
                        return Ok(Flow::Jump(*b));
                    }
                }
                Ok(Flow::Jump(*other))
            }
            Term::Return => Ok(Flow::Ret),
            Term::Unreachable => ub("unreachable code reached"),
            Term::Assert { cond, expected, target, msg } => {
                let v = self.op(st, cond)?;
                let p = self.poly(&v)?;
                let z = self.eqz(&st.facts, &p)?;
                if z != *expected {
                    Ok(Flow::Jump(*target))
                } else {
                    panic(msg.clone())
                }
            }
            Term::Unwind => unsup("unwinding"),
            Term::Unsup(s) => unsup(s.clone()),
            Term::Call { f, args, rust_call, dest, target, never, name } => {
                if *never {
                    if let Callee::Intrinsic(it) = f {
                        if it.name == "unreachable" {
                            return ub("unreachable code reached");
                        }
                    }
                    return panic(format!("call of {}", name));
                }
                match f {
                    Callee::Nop => Ok(Flow::Jump(target.unwrap())),
                    Callee::Unsup(s) => unsup(s.clone()),
                    Callee::Intrinsic(it) => {
                        if self.intrinsic(st, it, args, dest)? {
                            return Ok(Flow::Jump(target.unwrap()));
                        }
                        if it.name == "const_eval_select" {
                            // run-time branch
                            let g = it.tys[2].ty;
                            let ty::FnDef(d, ga) = g.kind() else { return unsup("const_eval_select") };
                            let Some(ga) = ga.no_bound_vars() else { return unsup("const_eval_select") };
                            let Ok(Some(i)) = Instance::try_resolve(self.lw.tcx, self.lw.env, *d, ga) else { return unsup("const_eval_select") };
                            let fid = self.lw.inst(i);
                            let b = self.op_blob(st, &args[0])?;
                            let at = args[0].ty().clone();
                            let da = self.place(st, dest)?;
                            let da = self.resolve(st, &da)?;
                            self.pre_call(st, *target);
                            self.call(st, fid, vec![(b, at)], true, (da.o, da.off, dest.ty.size), *target)?;
                            return Ok(Flow::Called);
                        }
                        // intrinsics with a fallback body
                        let d = it.inst.def_id();
                        if self.lw.tcx.intrinsic(d).map_or(false, |i| !i.must_be_overridden) {
                            let fi = Instance { def: ty::InstanceKind::Item(d), args: it.inst.args };
                            let fid = self.lw.inst(fi);
                            return self.do_call(st, fid, args, *rust_call, dest, *target, false);
                        }
                        unsup(format!("intrinsic {}", it.name))
                    }
                    Callee::Inst(fid) => {
                        let h = self.hook(*fid);
                        if matches!(h, Hook::DivEuclid | Hook::RemEuclid) {
                            if self.euclid(st, h, args, dest)? {
                                return Ok(Flow::Jump(target.unwrap()));
                            }
                        } else if h != Hook::None {
                            self.run_hook(st, h, args, dest)?;
                            return Ok(Flow::Jump(target.unwrap()));
                        }
                        self.do_call(st, *fid, args, *rust_call, dest, *target, name.starts_with("drop:"))
                    }
                    Callee::Ptr(o) => {
                        let v = self.op(st, o)?;
                        let Val::Fn(fid) = v else { return unsup("call through an unknown function pointer") };
                        self.do_call(st, fid, args, false, dest, *target, false)
                    }
                }
            }
        }
    }
    fn pre_call(&mut self, st: &mut State<'tcx>, target: Option<u32>) {
        let Some(t) = target else { return };
        let f = st.frames.last_mut().unwrap();
        let live = &f.f.live_in[t as usize];
        let dead: SmallVec<[usize; 16]> = (0..f.locals.len()).filter(|i| !live[*i] && !f.locals[*i].is_clear()).collect();
        if !dead.is_empty() {
            let l = Rc::make_mut(&mut f.locals);
            for i in dead {
                l[i].reset();
            }
        }
    }
    fn do_call(&mut self, st: &mut State<'tcx>, fid: u32, args: &[Op<'tcx>], rust_call: bool, dest: &Place<'tcx>, target: Option<u32>, drop: bool) -> R<Flow> {
        let mut av = vec![];
        for a in args {
            if drop {
                let Op::Copy(p) = a else { return unsup("drop of constant") };
                let ad = self.place(st, p)?;
                let mut b: Blob = smallvec![Cell { off: 0, size: 8, ctl: true, v: self.addr_val(&ad) }];
                if let Some(m) = ad.meta {
                    b.push(Cell { off: 8, size: 8, ctl: true, v: m });
                }
                av.push((b, a.ty().clone()));
            } else {
                let b = self.op_blob(st, a)?;
                av.push((b, a.ty().clone()));
            }
        }
        if self.uf.contains(&fid) {
            self.opaque_call(st, fid, &av, dest)?;
            return Ok(Flow::Jump(target.unwrap()));
        }
        let da = self.place(st, dest)?;
        let da = self.resolve(st, &da)?;
        self.pre_call(st, target);
        self.call(st, fid, av, rust_call, (da.o, da.off, dest.ty.size), target)?;
        Ok(Flow::Called)
    }
    /// a call whose outcome is an unknown function of the arguments' values: equal arguments,
    /// equal outcome
    fn opaque_call(&mut self, st: &mut State<'tcx>, fid: u32, av: &[(Blob, T<'tcx>)], dest: &Place<'tcx>) -> R<()> {
        let mut key = format!("{}", fid);
        let mut outs = vec![];
        for (b, t) in av {
            match t.ty.kind() {
                ty::Ref(_, inner, m) => {
                    let it = self.lw.ty(*inner);
                    let mut leaves = vec![];
                    self.leaves(it.ty, 0, &mut leaves, 0)?;
                    let a = self.ptr_addr(&b[0].v)?;
                    if m.is_mut() {
                        outs.push((a, leaves));
                        continue;
                    }
                    for (o, sz, signed, _) in leaves {
                        let mut x = a.clone();
                        x.off += o as i64;
                        let v = self.read(st, &x, sz, signed)?;
                        key.push_str(&format!(" {:?}", v));
                    }
                }
                _ => key.push_str(&format!(" {:?}", b.iter().map(|c| (c.off, c.v.clone())).collect::<Vec<_>>())),
            }
        }
        let mut nth = 0u64;
        let mut next = |lo: i128, hi: i128, me: &mut Self| -> Var {
            nth += 1;
            *me.uf_memo.entry((key.clone(), nth)).or_insert_with(|| fresh("outcome", lo, hi))
        };
        let rt = dest.ty.clone();
        if rt.size > 0 {
            let Some(vals) = self.lw.scalar_values(rt.ty) else { return unsup("opaque call with a structured result") };
            let v = next(0, vals.len() as i128 - 1, self);
            let b = st.facts.var(v);
            if b.0 != b.1 {
                return self.split(st, &Poly::var(v), &(0..vals.len() as i128).map(|x| (x, x)).collect::<Vec<_>>());
            }
            let b = (vals[b.0 as usize], 0);
            let da = self.place(st, dest)?;
            self.write(st, &da, smallvec![Cell { off: 0, size: rt.size as u8, ctl: true, v: Val::C(b.0) }], rt.size)?;
        }
        for (a, leaves) in outs {
            for (o, sz, signed, ctl) in leaves {
                let (lo, hi) = irange(sz as u32 * 8, signed);
                let v = next(lo, hi, self);
                let mut x = a.clone();
                x.off += o as i64;
                self.write(st, &x, smallvec![Cell { off: 0, size: sz, ctl, v: mk(Poly::var(v)) }], sz as u64)?;
            }
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State<'tcx>) -> R<bool> {
        let f = st.frames.last().unwrap();
        let b = f.locals[0].cells.clone();
        let (o, off, size) = f.dest;
        let ret = f.ret;
        st.frames.pop();
        if size > 0 {
            self.write(st, &Addr { o, off, sym: None, meta: None }, b, size)?;
        }
        if st.frames.is_empty() {
            return Ok(true);
        }
        match ret {
            Some(b) => {
                st.enter(b);
                Ok(false)
            }
            None => ub("return from a diverging call"),
        }
    }

    // ------------------------------------------------------------ driver
    /// start a function with given argument blobs; result goes to heap object `ret`
    pub fn start(&mut self, mut st: State<'tcx>, fid: u32, args: Vec<Blob>, ret: u32) -> R<()> {
        let f = match self.lw.func(fid) {
            Ok(f) => f,
            Err(e) => return unsup(e),
        };
        let n = f.locals[0].size;
        let av = args.into_iter().enumerate().map(|(i, b)| (b, f.locals[i + 1].clone())).collect();
        st.heap[ret as usize] = Some(Rc::new(Obj::new(n)));
        self.call(&mut st, fid, av, false, (ObjId::H(ret), 0, n), None)?;
        let mut work: BTreeMap<Key, Vec<State<'tcx>>> = BTreeMap::new();
        work.insert(st.key(), vec![st]);
        while let Some((_, states)) = work.pop_first() {
            let n0 = states.len();
            let states = self.generalise(states);
            let states = self.join_all(states);
            if std::env::var("ABS_HEAD").is_ok() && crate::deep::hot() {
                let f = states[0].frames.last().unwrap();
                eprintln!("@ {} bb{} loops {:?} {}->{} nvars {}", f.f.name, f.bb, f.loops, n0, states.len(), nvars());
            }
            for s in states {
                self.run(s, &mut work);
                if self.bad.len() >= self.max_bad {
                    return Ok(());
                }
            }
        }
        Ok(())
    }
    /// replace the results of a completed division step by their loop invariant
    fn generalise(&mut self, mut v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        if self.owners.is_empty() || !crate::deep::hot() {
            return v;
        }
        let over: Vec<_> = self.owners.iter().filter(|o| o.over(&v[0])).collect();
        let Some(last) = over.iter().map(|o| o.trips()).max() else { return v };
        let q = over.iter().filter(|o| o.trips() == last).map(|o| o.q).min().unwrap();
        if v.len() > 1 {
            let n = v.len();
            v.retain(|s| !crate::loopinv::infeasible(&s.facts, q));
            if self.joindbg {
                eprintln!("infeasible at v{}: {} of {}", q, n - v.len(), n);
            }
        }
        v.sort_by_cached_key(|s| s.sig());
        let mut i = 0;
        while i < v.len() {
            let h = v[i].sig();
            let mut j = i + 1;
            while j < v.len() && v[j].sig() == h {
                j += 1;
            }
            crate::loopinv::generalise(&mut v[i..j], q, self.joindbg);
            i = j;
        }
        v
    }
    fn join_all(&mut self, mut v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        if v.len() == 1 {
            return v;
        }
        let mut out: Vec<(u64, State<'tcx>)> = vec![];
        let strict = crate::deep::hot() && self.owners.iter().any(|o| o.inside(&v[0]));
        let max_apart = if strict { 64 } else { self.max_apart };
        v.reverse();
        while let Some(s) = v.pop() {
            let h = s.sig();
            let mut cur = Some(s);
            // keep states apart when their join would lose a linear relation, within a limit
            for linear in [true, false] {
                if !linear && out.iter().filter(|x| x.0 == h).count() < max_apart {
                    break;
                }
                for (g, o) in out.iter_mut() {
                    if *g == h {
                        if let Some(j) = join(o, cur.as_ref().unwrap(), linear, strict) {
                            self.joins += 1;
                            *o = j;
                            cur = None;
                            break;
                        }
                    }
                }
                if cur.is_none() {
                    break;
                }
            }
            if let Some(c) = cur {
                if self.joindbg {
                    if let Some(o) = out.last() {
                        eprintln!("apart: {}", ctl_diff(&o.1, &c).chars().take(600).collect::<String>());
                    }
                }
                out.push((h, c));
            }
        }
        out.into_iter().map(|x| x.1).collect()
    }
    /// a case distinction that involves a secret variable
    fn secret_split(&self, f: &Facts, alts: &[Facts]) -> Option<String> {
        for v in &self.secret {
            if alts.iter().any(|g| g.var(*v) != f.var(*v)) {
                return Some(vname(*v));
            }
        }
        if !self.secret.is_empty() {
            for g in alts {
                for c in g.cons.iter() {
                    if !f.cons.iter().any(|d| d.p == c.p && d.lo == c.lo && d.hi == c.hi) && tainted(f, &BPoly::from(&c.p), &self.secret) {
                        return Some(c.p.show());
                    }
                }
                for v in 1..g.iv.len() as Var {
                    if g.var(v) != f.var(v) && derived(v).is_some() && tainted(f, &BPoly::from(&Poly::var(v)), &self.secret) {
                        return Some(vname(v));
                    }
                }
            }
        }
        None
    }
    fn report(&mut self, st: &State<'tcx>, kind: Kind, msg: String) {
        let mut trace = vec![];
        let mut span = String::new();
        let mut func = String::new();
        for f in st.frames.iter().rev() {
            let b = &f.f.blocks[f.bb as usize];
            let sp = if (f.si as usize) < b.stmts.len() { b.stmts[f.si as usize].1 } else { b.term_span };
            let s = &f.f.spans[sp as usize];
            trace.push(format!("{} at {}", f.f.name, s));
            if f.f.in_target && span.is_empty() {
                span = s.clone();
                func = f.f.name.clone();
            }
        }
        if span.is_empty() {
            span = trace.get(0).cloned().unwrap_or_default();
        }
        self.bad.push(Bad { kind, msg, span, func, trace, st: st.clone() });
    }
    fn run(&mut self, st: State<'tcx>, work: &mut BTreeMap<Key, Vec<State<'tcx>>>) {
        let mut stack = vec![(st, true)];
        'outer: while let Some((mut st, mut first)) = stack.pop() {
            loop {
                let fr = st.frames.last().unwrap();
                let f = fr.f.clone();
                let (bb, si) = (fr.bb, fr.si as usize);
                let depth = st.frames.len();
                if si == 0 && !first && f.merge[bb as usize] && st.splits == 0 {
                    st.kill_dead();
                    if !self.norm.is_empty() {
                        st.norm_ctl(&self.norm);
                    }
                    let k = st.key();
                    work.entry(k).or_default().push(st);
                    continue 'outer;
                }
                first = false;
                self.steps += 1;
                if self.steps > self.limit || (self.steps & 255 == 0 && crate::pool::expired()) {
                    self.report(&st, Kind::Unsup, "too many steps or too much time for one case".into());
                    return;
                }
                let b = &f.blocks[bb as usize];
                if si == 0 && f.in_target {
                    self.cov.entry(f.id).or_default().insert(bb);
                }
                let r = if si < b.stmts.len() {
                    if self.debug {
                        eprintln!("{:w$}{} bb{}[{}] {:?}", "", f.name, bb, si, b.stmts[si].0, w = depth);
                    }
                    self.stmt(&mut st, &b.stmts[si].0).map(|_| Flow::Next)
                } else {
                    if self.debug {
                        eprintln!("{:w$}{} bb{} {:?}", "", f.name, bb, b.term, w = depth);
                    }
                    self.term(&mut st, &b.term)
                };
                match r {
                    Ok(Flow::Next) => {
                        st.splits = 0;
                        st.frames.last_mut().unwrap().si += 1;
                    }
                    Ok(Flow::Jump(t)) => {
                        st.splits = 0;
                        st.enter(t);
                    }
                    Ok(Flow::Called) => {
                        st.splits = 0;
                    }
                    Ok(Flow::Ret) => {
                        st.splits = 0;
                        let snap = if st.frames.len() == 1 { None } else { Some(()) };
                        let _ = snap;
                        match self.ret(&mut st) {
                            Ok(true) => {
                                self.done.push(st);
                                continue 'outer;
                            }
                            Ok(false) => (),
                            Err(Stop::Bad(k, m)) => {
                                self.report(&st, k, m);
                                continue 'outer;
                            }
                            Err(Stop::Split(_)) => {
                                self.report(&st, Kind::Unsup, "return through a symbolic pointer".into());
                                continue 'outer;
                            }
                        }
                    }
                    Err(Stop::Split(alts)) => {
                        let n = alts.len();
                        if let Some(v) = self.secret_split(&st.facts, &alts) {
                            self.report(&st, Kind::Dep, format!("branch on the destination's previous content ({})", v));
                            continue 'outer;
                        }
                        if st.splits > 64 {
                            self.report(&st, Kind::Unsup, "undecidable case distinction".into());
                            continue 'outer;
                        }
                        for (i, a) in alts.into_iter().enumerate() {
                            let mut s = if i + 1 == n { std::mem::replace(&mut st, State { frames: vec![], heap: vec![], facts: Facts::new(), splits: 0 }) } else { st.clone() };
                            s.facts = a;
                            s.splits += 1;
                            stack.push((s, true));
                        }
                        continue 'outer;
                    }
                    Err(Stop::Bad(k, m)) => {
                        self.report(&st, k, m);
                        if self.bad.len() >= self.max_bad {
                            return;
                        }
                        continue 'outer;
                    }
                }
            }
        }
    }
}
