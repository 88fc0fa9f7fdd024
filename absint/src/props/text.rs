//! Rendering (C09, C19).
use super::*;
use std::rc::Rc;

/// length of the buffer before the operation: unknown, up to this
const PRIOR: i128 = 1 << 60;
/// room behind it
const ROOM: u64 = 400;

/// a decimal with digit-wise symbolic content
#[derive(Clone)]
pub struct Dg {
    pub neg: bool,
    pub iu: usize,
    /// digits below the point
    pub f: usize,
    /// position of the leading integral digit (0: integral part zero)
    pub lead: usize,
}
pub fn dshow(d: &Dg) -> String {
    format!("{}{} groups, {} leading digit, scale {}", sgn(d.neg), d.iu, if d.lead == 0 { "no".to_string() } else { format!("{}th", d.lead) }, d.f)
}
/// the decimal and its digits, highest integral first (from the leading one), then the fractional ones
pub fn digits<'tcx>(c: &mut Case<'tcx>, g: &Dg) -> (Dec, Vec<Poly>, Vec<Poly>) {
    let fu = (g.f + 8) / 9;
    let mut s = sp(g.iu, fu, g.neg);
    let mut ip = vec![];
    for j in (1..=g.lead).rev() {
        ip.push(Poly::var(fresh(&format!("i{}", j), (j == g.lead) as i128, 9)));
    }
    let fp: Vec<Poly> = (1..=g.f).map(|j| Poly::var(fresh(&format!("f{}", j), 0, 9))).collect();
    let mut us = vec![Poly::cst(0); g.iu + fu];
    for (k, p) in ip.iter().rev().enumerate() {
        let u = &mut us[fu + k / 9];
        *u = u.add(&p.scale(10i128.pow((k % 9) as u32)).unwrap()).unwrap();
    }
    for (k, p) in fp.iter().enumerate() {
        let u = &mut us[fu - 1 - k / 9];
        *u = u.add(&p.scale(10i128.pow(8 - (k % 9) as u32)).unwrap()).unwrap();
    }
    s.fix = us.into_iter().enumerate().collect();
    s.fg = Some((g.f as i128, g.f as i128));
    s.maybe_zero = !g.neg;
    if g.iu > 0 {
        s.ig = Some(((g.lead as i128).max(9 * g.iu as i128 - 8), 9 * g.iu as i128));
    }
    let d = c.dec("value", &s);
    (d, ip, fp)
}
fn want(g: &Dg, ip: &[Poly], fp: &[Poly], n: i128) -> Vec<Poly> {
    let ch = |c: u8| Poly::cst(c as i128);
    let dg = |p: &Poly| p.addc(48).unwrap();
    let mut w = vec![];
    if g.neg {
        w.push(ch(b'-'));
    }
    if ip.is_empty() {
        w.push(ch(b'0'));
    }
    w.extend(ip.iter().map(dg));
    let k = if n < 0 { g.f } else { n.min(2000) as usize };
    if k > 0 {
        w.push(ch(b'.'));
    }
    for j in 0..k {
        w.push(fp.get(j).map(dg).unwrap_or(ch(b'0')));
    }
    w
}
fn byte(o: &Obj, i: usize) -> Option<Poly> {
    match &o.get(i as u32, 1)?.v {
        Val::C(x) => Some(Poly::cst(*x)),
        Val::P(p) => Some((**p).clone()),
        _ => None,
    }
}
/// the first bytes of o are w
fn same(f: &Facts, o: &Obj, w: &[Poly]) -> Result<u64, String> {
    for (i, p) in w.iter().enumerate() {
        let b = byte(o, i).ok_or_else(|| format!("character {} of the output not determined", i))?;
        if b != *p && !bzero(f, &BPoly::from(&b.sub(p).unwrap())) {
            return Err(format!("character {} of the output is {} (range {:?}), expected {} (range {:?})", i, b.show(), f.bound_deep(&b, 1), p.show(), f.bound(p)));
        }
    }
    Ok(w.len() as u64)
}
fn ascii(f: &Facts, o: &Obj, n: usize) -> Result<u64, String> {
    for i in 0..n {
        let b = byte(o, i).ok_or_else(|| format!("character {} of the output not determined", i))?;
        let r = f.bound_deep(&b, 1);
        let ok = r.0 >= 48 && r.1 <= 57 || r == (45, 45) || r == (46, 46);
        if !ok && f.range(&b, (48, 57)) != (48, 57) && f.range(&b, (INF, -INF)).0 < 45 {
            return Err(format!("character {} of the output may be {:?}", i, r));
        }
        if !ok && (r.0 < 45 || r.1 > 57 || (r.0 <= 47 && 47 <= r.1)) {
            return Err(format!("character {} of the output may be {:?}", i, r));
        }
    }
    Ok(n as u64)
}
/// what was written: object and length
fn read_buf(st: &State, out: u32, base: Option<(u32, Var)>) -> Result<(Rc<Obj>, Poly), String> {
    let o = st.heap[out as usize].as_ref().ok_or("result gone")?;
    let p = o.get(0, 8).map(|c| c.v.clone());
    let n = match o.get(8, 8).map(|c| c.v.clone()) {
        Some(Val::C(x)) => Poly::cst(x),
        Some(Val::P(p)) => (*p).clone(),
        _ => return Err("length not determined".into()),
    };
    match (base, p) {
        (Some((b, v)), Some(Val::Ptr(ObjId::H(h), 0, Some(s)))) if h == b && *s == Poly::var(v).scale(-1).unwrap() => {
            let o = st.heap[h as usize].as_ref().ok_or("buffer gone")?;
            Ok((o.clone(), n.sub(&Poly::var(v)).unwrap()))
        }
        (None, Some(Val::Ptr(ObjId::H(h), 0, None))) => {
            let o = st.heap[h as usize].as_ref().ok_or("buffer gone")?;
            Ok((o.clone(), n))
        }
        _ => Err("the buffer was replaced".into()),
    }
}
fn run(cx: &mut Ctx, g: &Dg, n: (i128, i128), string: bool) {
    let mut c = cx.case();
    let (d, ip, fp) = digits(&mut c, g);
    let nv = if n.0 == n.1 { Poly::cst(n.0) } else { Poly::var(fresh("n", n.0, n.1)) };
    let mut o = Obj::new(16);
    o.set(bcell(0, 8, true, Val::C(0)));
    o.set(bcell(8, 8, true, Val::C(0)));
    let out = c.obj(o);
    let (mut args, mut base) = (vec![ptr(d.obj)], None);
    if !string {
        let v = fresh("before", 0, PRIOR);
        let room = if n.0 == n.1 && n.0 > 300 { 2048 } else { ROOM };
        let b = c.obj(Obj::new(room));
        base = Some((b, v));
        let m = Rc::new(Poly::var(v).scale(-1).unwrap());
        args.push(std::iter::once(bcell(0, 8, true, Val::Ptr(ObjId::H(b), 0, Some(m)))).collect());
        args.push(vint(8, Poly::var(v)));
        args.push(vint(8, Poly::var(v).addc(room as i128).unwrap()));
    }
    args.push(vint(8, nv.clone()));
    args.push(ptr(out));
    let full = want(g, &ip, &fp, n.1);
    let (c09, c19) = (cx.wants("C09"), cx.wants("C19"));
    // long runs of zeros are followed until the buffer has to grow by an unknown amount: everything
    // written up to there must be right
    let cut = n.0 >= ROOM as i128 && n.0 < n.1;
    let allow = |b: &Bad| {
        let grow = b.msg == "allocation of unknown size" || b.kind == Kind::Panic && b.msg.contains("alloc::raw_vec::");
        cut && grow && {
            let o = b.st.heap[base.unwrap().0 as usize].as_ref();
            o.map_or(false, |o| {
                let k = (0..ROOM as usize).take_while(|i| o.get(*i as u32, 1).is_some()).count();
                (!c09 || same(&b.st.facts, o, &full[..k]).is_ok()) && (!c19 || ascii(&b.st.facts, o, k).is_ok())
            })
        }
    };
    // states with different numbers of requested digits stay apart
    if let Some(v) = nv.as_var() {
        cx.norm = vec![v];
        let mut o = Obj::new(8);
        o.set(bcell(0, 8, true, mk(nv.clone())));
        c.obj(o);
    }
    let done = cx.exec(c, if string { "h_to_string" } else { "h_append" }, args, base.map(|b| b.0), &allow);
    for st in &done {
        if !c09 && !c19 {
            continue;
        }
        let x = read_buf(st, out, base).and_then(|(o, len)| {
            let l = st.facts.range(&len, (INF, -INF));
            if l.0 != l.1 || l.0 < 0 {
                return Err(format!("number of characters appended not determined: {:?}", l));
            }
            let l = l.0 as usize;
            if c19 {
                return ascii(&st.facts, &o, l);
            }
            let b = st.facts.range(&nv, (INF, -INF));
            let mut k = 0;
            let mut m = b.1;
            while m >= b.0.max(-1) {
                let w = want(g, &ip, &fp, m);
                if w.len() != l {
                    dump(&st.facts);
                    return Err(format!("{} characters appended instead of {} when {} fractional digits are requested", l, w.len(), m));
                }
                k += same(&st.facts, &o, &w)?;
                m -= 1;
            }
            Ok(k.max(1))
        });
        cx.check(x);
    }
}
pub fn jobs<'tcx>(_id: &str, tier: Tier) -> Vec<Job<'tcx>> {
    let mut v = vec![];
    let mut add = |g: Dg, n: (i128, i128), string: bool| {
        v.push(job(format!("{} {} to {}..{}", if string { "string of" } else { "append" }, dshow(&g), n.0, n.1), move |cx: &mut Ctx| run(cx, &g, n, string)));
    };
    let min = i64::MIN as i128;
    for (iu, fu) in shapes() {
        let fs: Vec<usize> = if fu == 0 { vec![0] } else { (9 * fu - 8..=9 * fu).collect() };
        for f in fs.iter().copied() {
            for lead in 0..=9 * iu {
                for neg in [false, true] {
                    if neg && lead == 0 && f == 0 {
                        continue;
                    }
                    let g = Dg { neg, iu, f, lead };
                    // quick: every leading digit with two scales, every scale with two leading digits
                    let full_l = lead == 0 || lead + 1 == 9 * iu;
                    let full_f = f % 9 == 0 || f % 9 == 4;
                    if tier == Tier::Thorough || full_l || full_f && neg == (lead % 2 == 0) {
                        add(g.clone(), (min, 40), false);
                    }
                    if full_l && (f % 9 == 0 || f % 9 == 4 || tier == Tier::Thorough) {
                        for n in [(41, 41), (64, 64), (127, 127), (128, 128), (129, 129), (255, 255), (256, 256), (257, 257), (300, 300)] {
                            add(g.clone(), n, false);
                        }
                        if fs.len() == 1 || f % 9 == 4 && lead == 0 {
                            add(g.clone(), (512, 512), false);
                            add(g.clone(), (1000, 1000), false);
                        }
                        add(g.clone(), (ROOM as i128, i64::MAX as i128), false);
                        add(g.clone(), (min, 37), true);
                    }
                }
            }
        }
    }
    v
}
