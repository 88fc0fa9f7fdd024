//! Integer polynomials over bounded variables and wide integers.
use smallvec::SmallVec;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub type Var = u32;
/// up to three variables, 21 bits each, sorted descending; 0 is the constant monomial
pub type Mono = u64;
const VB: u32 = 21;
const VM: u64 = (1 << VB) - 1;
pub const MAXVAR: u32 = (1 << VB) - 1;

pub fn mono_vars(m: Mono) -> SmallVec<[Var; 3]> {
    let mut r = SmallVec::new();
    for s in [2 * VB, VB, 0] {
        let v = (m >> s) & VM;
        if v != 0 {
            r.push(v as Var)
        }
    }
    r
}
fn mono_of(vs: &[Var]) -> Mono {
    let mut m = 0;
    for (i, v) in vs.iter().enumerate() {
        m |= (*v as u64) << (VB * (2 - i as u32));
    }
    m
}
pub fn mono_var(v: Var) -> Mono {
    mono_of(&[v])
}
pub fn mono_single(m: Mono) -> Option<Var> {
    if m != 0 && m & ((1 << (2 * VB)) - 1) == 0 {
        Some((m >> (2 * VB)) as Var)
    } else {
        None
    }
}
pub fn mono_mul(a: Mono, b: Mono) -> Option<Mono> {
    let mut v = mono_vars(a);
    v.extend(mono_vars(b));
    if v.len() > 3 {
        return None;
    }
    v.sort_by(|x, y| y.cmp(x));
    Some(mono_of(&v))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub c: i128,
    pub t: SmallVec<[(Mono, i128); 2]>,
}

impl Poly {
    pub fn cst(c: i128) -> Poly {
        Poly { c, t: SmallVec::new() }
    }
    pub fn var(v: Var) -> Poly {
        let mut t = SmallVec::new();
        t.push((mono_var(v), 1));
        Poly { c: 0, t }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_var(&self) -> Option<Var> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            mono_single(self.t[0].0)
        } else {
            None
        }
    }
    /// self + k*o
    pub fn addk(&self, o: &Poly, k: i128) -> Option<Poly> {
        let c = self.c.checked_add(o.c.checked_mul(k)?)?;
        let mut t: SmallVec<[(Mono, i128); 2]> = SmallVec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let ord = if i == self.t.len() {
                Ordering::Greater
            } else if j == o.t.len() {
                Ordering::Less
            } else {
                self.t[i].0.cmp(&o.t[j].0)
            };
            match ord {
                Ordering::Less => {
                    t.push(self.t[i]);
                    i += 1
                }
                Ordering::Greater => {
                    let x = o.t[j].1.checked_mul(k)?;
                    if x != 0 {
                        t.push((o.t[j].0, x));
                    }
                    j += 1
                }
                Ordering::Equal => {
                    let x = self.t[i].1.checked_add(o.t[j].1.checked_mul(k)?)?;
                    if x != 0 {
                        t.push((self.t[i].0, x))
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        Some(Poly { c, t })
    }
    pub fn add(&self, o: &Poly) -> Option<Poly> {
        self.addk(o, 1)
    }
    pub fn sub(&self, o: &Poly) -> Option<Poly> {
        self.addk(o, -1)
    }
    pub fn addc(&self, k: i128) -> Option<Poly> {
        let mut r = self.clone();
        r.c = r.c.checked_add(k)?;
        Some(r)
    }
    pub fn scale(&self, k: i128) -> Option<Poly> {
        if k == 0 {
            return Some(Poly::cst(0));
        }
        let mut r = self.clone();
        r.c = r.c.checked_mul(k)?;
        for x in r.t.iter_mut() {
            x.1 = x.1.checked_mul(k)?;
        }
        Some(r)
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        let mut acc = self.scale(o.c)?;
        for (m, k) in o.t.iter() {
            let mut p = Poly::cst(0);
            let mut tm: Vec<(Mono, i128)> = Vec::with_capacity(self.t.len() + 1);
            for (m2, k2) in self.t.iter() {
                tm.push((mono_mul(*m, *m2)?, k.checked_mul(*k2)?));
            }
            if self.c != 0 {
                tm.push((*m, k.checked_mul(self.c)?));
            }
            tm.sort();
            // distinct monomials map to distinct products with the same m
            for x in tm {
                p.t.push(x);
            }
            acc = acc.add(&p)?;
        }
        Some(acc)
    }
    pub fn vars(&self) -> SmallVec<[Var; 8]> {
        let mut r: SmallVec<[Var; 8]> = SmallVec::new();
        for (m, _) in &self.t {
            for v in mono_vars(*m) {
                if !r.contains(&v) {
                    r.push(v)
                }
            }
        }
        r
    }
    pub fn has_var(&self, v: Var) -> bool {
        self.t.iter().any(|(m, _)| mono_vars(*m).contains(&v))
    }
    /// substitute v := p
    pub fn subst(&self, v: Var, p: &Poly) -> Option<Poly> {
        let mut acc = Poly::cst(self.c);
        for (m, k) in &self.t {
            let vs = mono_vars(*m);
            let mut t = Poly::cst(*k);
            for x in vs {
                t = if x == v { t.mul(p)? } else { t.mul(&Poly::var(x))? };
            }
            acc = acc.add(&t)?;
        }
        Some(acc)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (m, k) in &self.t {
            let vs: Vec<String> = mono_vars(*m).iter().map(|v| crate::dom::vname(*v)).collect();
            if !s.is_empty() {
                s += " + ";
            }
            if *k == 1 {
                s += &vs.join("*");
            } else {
                s += &format!("{}*{}", k, vs.join("*"));
            }
            if s.len() > 300 {
                s += "...";
                break;
            }
        }
        if self.c != 0 || s.is_empty() {
            if !s.is_empty() {
                s += " + ";
            }
            s += &format!("{}", self.c);
        }
        s
    }
}

// ---------------------------------------------------------------- wide integers

const L: usize = 14;
/// 896-bit two's complement integer
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(pub [u64; L]);

impl Big {
    pub const ZERO: Big = Big([0; L]);
    pub fn from(x: i128) -> Big {
        let mut r = [if x < 0 { u64::MAX } else { 0 }; L];
        r[0] = x as u64;
        r[1] = (x >> 64) as u64;
        Big(r)
    }
    pub fn is_neg(&self) -> bool {
        self.0[L - 1] >> 63 == 1
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = [0; L];
        let mut c = 0u128;
        for i in 0..L {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        Big(r)
    }
    pub fn neg(&self) -> Big {
        let mut r = self.0;
        for x in r.iter_mut() {
            *x = !*x;
        }
        Big(r).add(&Big::from(1))
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn bits(&self) -> usize {
        let a = if self.is_neg() { self.neg() } else { *self };
        for i in (0..L).rev() {
            if a.0[i] != 0 {
                return i * 64 + 64 - a.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    pub fn mul(&self, o: &Big) -> Big {
        assert!(self.bits() + o.bits() < L * 64 - 8, "wide integer overflow");
        let neg = self.is_neg() != o.is_neg();
        let a = if self.is_neg() { self.neg() } else { *self };
        let b = if o.is_neg() { o.neg() } else { *o };
        let mut r = [0u64; L];
        for i in 0..L {
            if a.0[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            for j in 0..L - i {
                let s = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = s as u64;
                c = s >> 64;
            }
        }
        let r = Big(r);
        if neg {
            r.neg()
        } else {
            r
        }
    }
    pub fn divrem_u64(&self, d: u64) -> (Big, u64) {
        assert!(!self.is_neg());
        let mut a = *self;
        let mut rem = 0u128;
        for i in (0..L).rev() {
            let x = (rem << 64) | a.0[i] as u128;
            a.0[i] = (x / d as u128) as u64;
            rem = x % d as u128;
        }
        (a, rem as u64)
    }
    /// exact quotient, if there is one (positive divisor)
    pub fn div_exact(&self, o: &Big) -> Option<Big> {
        let neg = self.is_neg();
        let mut a = if neg { self.neg() } else { *self };
        if o.0[1..].iter().all(|x| *x == 0) {
            let (q, r) = a.divrem_u64(o.0[0]);
            return if r != 0 {
                None
            } else if neg {
                Some(q.neg())
            } else {
                Some(q)
            };
        }
        let mut o = *o;
        let g = 1_000_000_000u64;
        loop {
            let (q, r) = o.divrem_u64(g);
            if r != 0 {
                break;
            }
            let (p, r) = a.divrem_u64(g);
            if r != 0 {
                return None;
            }
            o = q;
            a = p;
        }
        if !o.0[1..].iter().all(|x| *x == 0) {
            return None;
        }
        let (q, r) = a.divrem_u64(o.0[0]);
        if r != 0 {
            return None;
        }
        Some(if neg { q.neg() } else { q })
    }
    pub fn divisible(&self, o: &Big) -> bool {
        assert!(o.0[1..].iter().all(|x| *x == 0));
        let a = if self.is_neg() { self.neg() } else { *self };
        a.divrem_u64(o.0[0]).1 == 0
    }
    pub fn pow10(e: u32) -> Big {
        let mut r = Big::from(1);
        for _ in 0..e {
            r = r.mul(&Big::from(10));
        }
        r
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.is_neg(), o.is_neg()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => {
                for i in (0..L).rev() {
                    match self.0[i].cmp(&o.0[i]) {
                        Ordering::Equal => (),
                        x => return x,
                    }
                }
                Ordering::Equal
            }
        }
    }
    pub fn le(&self, o: &Big) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn lt(&self, o: &Big) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn show(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut a = if self.is_neg() { self.neg() } else { *self };
        let mut ds = vec![];
        while !a.is_zero() {
            let mut rem = 0u128;
            for i in (0..L).rev() {
                let x = (rem << 64) | a.0[i] as u128;
                a.0[i] = (x / 10) as u64;
                rem = x % 10;
            }
            ds.push((b'0' + rem as u8) as char);
        }
        if self.is_neg() {
            ds.push('-')
        }
        ds.iter().rev().collect()
    }
}

/// polynomial with wide coefficients and unbounded degree
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BPoly(pub BTreeMap<SmallVec<[Var; 4]>, Big>);

impl BPoly {
    pub fn zero() -> BPoly {
        BPoly(BTreeMap::new())
    }
    pub fn cst(x: Big) -> BPoly {
        let mut r = BPoly::zero();
        r.add_term(SmallVec::new(), x);
        r
    }
    pub fn from(p: &Poly) -> BPoly {
        let mut r = BPoly::cst(Big::from(p.c));
        for (m, k) in &p.t {
            let mut vs: SmallVec<[Var; 4]> = mono_vars(*m).iter().cloned().collect();
            vs.sort();
            r.add_term(vs, Big::from(*k));
        }
        r
    }
    fn add_term(&mut self, vs: SmallVec<[Var; 4]>, k: Big) {
        if k.is_zero() {
            return;
        }
        let e = self.0.entry(vs).or_insert(Big::ZERO);
        *e = e.add(&k);
        if e.is_zero() {
            let key: Vec<_> = self.0.iter().filter(|x| x.1.is_zero()).map(|x| x.0.clone()).collect();
            for k in key {
                self.0.remove(&k);
            }
        }
    }
    pub fn addk(&mut self, o: &BPoly, k: &Big) {
        for (m, c) in &o.0 {
            let x = c.mul(k);
            let e = self.0.entry(m.clone()).or_insert(Big::ZERO);
            *e = e.add(&x);
        }
        self.0.retain(|_, v| !v.is_zero());
    }
    pub fn add(&self, o: &BPoly) -> BPoly {
        let mut r = self.clone();
        r.addk(o, &Big::from(1));
        r
    }
    pub fn sub(&self, o: &BPoly) -> BPoly {
        let mut r = self.clone();
        r.addk(o, &Big::from(-1));
        r
    }
    pub fn scale(&self, k: &Big) -> BPoly {
        let mut r = BPoly::zero();
        r.addk(self, k);
        r
    }
    pub fn mul(&self, o: &BPoly) -> BPoly {
        let mut r: BTreeMap<SmallVec<[Var; 4]>, Big> = BTreeMap::new();
        for (m, c) in &self.0 {
            for (m2, c2) in &o.0 {
                let mut vs = m.clone();
                vs.extend(m2.iter().cloned());
                vs.sort();
                let e = r.entry(vs).or_insert(Big::ZERO);
                *e = e.add(&c.mul(c2));
            }
        }
        r.retain(|_, v| !v.is_zero());
        BPoly(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (m, k) in self.0.iter().rev() {
            if !s.is_empty() {
                s += " + ";
            }
            s += &k.show();
            for v in m {
                s += "*";
                s += &crate::dom::vname(*v);
            }
            if s.len() > 400 {
                s += " + ...";
                break;
            }
        }
        if s.is_empty() {
            s += "0";
        }
        s
    }
}
