//! Division and remainder (C04, C05) and their share of C14, C15, C17, C22.
use super::*;
use crate::deep;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Div,
    Rem,
}
/// how the leading groups compare, both numbers aligned at their first non-zero group
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    /// equal above position k (counted from the top), dividend larger at k (or equal when last)
    Ge(usize),
    Lt(usize),
    None,
}
#[derive(Clone)]
pub struct Dv {
    pub op: Op,
    pub l: Sp,
    pub r: Sp,
    pub ln: usize,
    pub rn: usize,
    pub rel: Rel,
    pub incr: (i128, i128),
}
pub fn digits(d: u32) -> (i128, i128) {
    (10i128.pow(d - 1), 10i128.pow(d) - 1)
}
/// exactly n significant groups, fu fractional ones, top group in a range
pub fn shape(n: usize, fu: usize, neg: bool, top: (i128, i128)) -> Sp {
    let mut s = sp(n.saturating_sub(fu), fu, neg);
    s.fg = Some((9 * fu as i128, 9 * fu as i128));
    s.rng.push((n - 1, top.0, top.1));
    for i in n..s.iu + s.fu {
        s.rng.push((i, 0, 0));
    }
    s
}
pub fn run<'tcx>(cx: &mut Ctx<'_, 'tcx>, b: &Dv) {
    let mut b = b.clone();
    if cx.wants("C15") {
        // integral digit counts no smaller than the leading group's digits
        for s in [&mut b.l, &mut b.r] {
            if let Some(x) = s.rng.iter().find(|x| x.1 > 0 && x.0 + 1 == s.iu + s.fu && s.iu > 0) {
                let g = 9 * (s.iu as i128 - 1) + x.2.to_string().len() as i128;
                s.ig = Some((g, 9 * s.iu as i128));
            }
        }
    }
    let b = &b;
    let mut c = cx.case();
    deep::reset(true);
    let l = c.dec("lhs", &b.l);
    let mut rs = b.r.clone();
    let (ln, rn) = (b.ln, b.rn);
    if let Rel::Ge(k) | Rel::Lt(k) = b.rel {
        for i in 0..k.min(ln).min(rn) {
            rs.fix.push((rn - 1 - i, l.u[ln - 1 - i].clone()));
        }
    }
    let r = c.dec("rhs", &rs);
    if let Rel::Ge(k) | Rel::Lt(k) = b.rel {
        let get = |d: &Dec, n: usize, i: usize| if i < n { d.u[n - 1 - i].clone() } else { Poly::cst(0) };
        let d = get(&l, ln, k).sub(&get(&r, rn, k)).unwrap();
        let (lo, hi) = match b.rel {
            Rel::Lt(_) => (-INF, -1),
            _ if k + 1 >= rn => (0, INF),
            _ => (1, INF),
        };
        // positions beyond the shorter number
        for i in k.min(ln).min(rn)..k {
            let x = get(&l, ln, i).add(&get(&r, rn, i)).unwrap();
            if !c.st.facts.assume(&x, 0, 0) {
                return;
            }
        }
        if !c.st.facts.assume(&d, lo, hi) {
            return;
        }
    }
    let d = c.garbage("dest");
    let dv = c.garbage_vars.clone();
    let mut args = vec![ptr(l.obj), ptr(r.obj), ptr(d)];
    let mut incr = Poly::cst(b.incr.0);
    if b.op == Op::Div {
        if b.incr.0 != b.incr.1 {
            incr = Poly::var(fresh("increment", b.incr.0, b.incr.1));
        }
        args.push(vint(8, incr.clone()));
    }
    let done = cx.exec(c, if b.op == Op::Div { "h_div" } else { "h_rem" }, args, Some(d), &no_bad);
    set_cut(0);
    deep::forget();
    for st in &done {
        post(cx, st, &dv, b, &l, &r, d, &incr);
    }
}
fn post(cx: &mut Ctx, st: &State, dv: &[Var], b: &Dv, l: &Dec, r: &Dec, d: u32, incr: &Poly) {
    let lay = cx.lay();
    let code = match ret_int(st, 8) {
        Ok(c) => c,
        Err(e) => return cx.fail(e),
    };
    let own = if b.op == Op::Div { "C04" } else { "C05" };
    if cx.wants(own) {
        let x = match (code, b.op) {
            (0, _) if b.r.zero => Err("division by zero succeeds".into()),
            (0, Op::Div) => quotient(st, lay, b, l, r, d, incr),
            (0, Op::Rem) => remainder(st, lay, b, l, r, d),
            _ => error(code, b),
        };
        cx.check(x);
    }
    if cx.wants("C22") {
        let x = if code == 0 {
            if b.r.zero {
                Err("division by zero succeeds".into())
            } else if b.op == Op::Div && groups(b).map_or(false, |g| g > 9) {
                Err("no overflow although the quotient needs more than nine integral groups".into())
            } else {
                Ok(1)
            }
        } else {
            error(code, b).and_then(|_| is_zero_obj(st, lay, d))
        };
        cx.check(x);
    }
    if cx.wants("C15") && code == 0 {
        let x = valid_obj(st, lay, d, Validity { gran: b.op == Op::Rem, top: true });
        cx.check(x);
    }
    if cx.wants("C17") {
        let x = independent(st, lay, d, dv);
        cx.check(x);
    }
}
/// integral groups of the exact quotient
fn groups(b: &Dv) -> Option<i128> {
    let delta = (b.ln as i128 - b.l.fu as i128) - (b.rn as i128 - b.r.fu as i128);
    match b.rel {
        Rel::Ge(_) => Some((delta + 1).max(0)),
        Rel::Lt(_) => Some(delta.max(0)),
        Rel::None => None,
    }
}
fn error(code: i128, b: &Dv) -> Result<u64, String> {
    if b.r.zero {
        return if code == 2 { Ok(1) } else { Err(format!("division by zero fails with error code {}", code)) };
    }
    if code == 2 {
        return Err("reports division by zero although the divisor is not zero".into());
    }
    if b.op == Op::Rem || code != 1 {
        return Err(format!("fails with error code {}", code));
    }
    if b.l.zero || groups(b).map_or(false, |g| g <= 9) {
        return Err("reports overflow although the quotient fits nine integral groups".into());
    }
    Ok(1)
}
fn limbs(d: &Dec, shift: i32) -> BPoly {
    let mut r = BPoly::zero();
    for (i, p) in d.u.iter().enumerate().take(d.n()) {
        r.addk(&BPoly::from(p), &Big::pow10((9 * (i as i32 + shift)) as u32));
    }
    r
}
fn units(x: i128) -> i128 {
    (x + 8) / 9
}
fn quotient(st: &State, lay: Layout, b: &Dv, l: &Dec, r: &Dec, d: u32, incr: &Poly) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    let mut n = 0;
    if b.l.zero {
        is_zero_obj(st, lay, d)?;
        return Ok(1);
    }
    let g = groups(b).unwrap();
    if g > 9 {
        return Err("no overflow although the quotient needs more than nine integral groups".into());
    }
    // scale
    let (lf, rf) = (st.facts.range(&l.fg, (INF, -INF)), st.facts.range(&r.fg, (INF, -INF)));
    assert!(lf.0 == lf.1 && rf.0 == rf.1);
    let slack = 9 * (l.fu + r.fu) as i128 - lf.0 - rf.0;
    let want = |x: i128| ((l.fu + r.fu) as i128 + units((x - slack).max(0))).min(4).min(9 - g);
    let ir = st.facts.range(incr, (INF, -INF));
    let mut rs = vec![];
    let mut x = ir.0;
    while x <= ir.1 {
        let w = want(x);
        let mut y = x;
        while y < ir.1 && want(y + 1) == w {
            if want(ir.1) == w {
                y = ir.1;
                break;
            }
            y += 1;
        }
        rs.push((x, y, w));
        x = y + 1;
    }
    for (i, f) in cases(&st.facts, incr, &rs.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()) {
        let w = rs[i].2;
        for s in shaped(&f, &o)? {
            valid(&s, false, Validity { gran: false, top: false }).map_err(|e| {
                dump(&s.f);
                e
            })?;
            let fr = s.f.range(&s.fg, (INF, -INF));
            if fr != (9 * w, 9 * w) {
                return Err(format!("scale of the quotient is {}..{} instead of {}", fr.0, fr.1, 9 * w));
            }
            if s.iu as i128 != g {
                return Err(format!("the quotient has {} integral groups instead of {}", s.iu, g));
            }
            let a = limbs(l, r.fu as i32 + w as i32);
            let bb = limbs(r, l.fu as i32);
            let mut q = BPoly::zero();
            for (i, p) in s.u.iter().enumerate() {
                q.addk(&BPoly::from(p), &Big::pow10(9 * i as u32));
            }
            let e = a.sub(&q.mul(&bb));
            let mut k = deep::Known::new();
            let one = BPoly::cst(Big::from(1));
            if let Some((x, nf)) = chain(&s.f, &e) {
                // nf e = x
                let nb = s.f.expand(&bb.mul(&nf));
                if !k.le0(&s.f, &x.scale(&Big::from(-1))) {
                    return Err(format!("the quotient may be too large: remainder {}", bshow(&x)));
                }
                if !k.le0(&s.f, &x.sub(&nb).add(&one)) {
                    return Err(format!("the quotient may be too small: remainder {}", bshow(&x)));
                }
            } else if !k.le0(&s.f, &e.scale(&Big::from(-1))) {
                dump(&s.f);
                return Err(format!("the quotient may be too large: remainder {}", bshow(&s.f.expand(&e))));
            } else if !k.le0(&s.f, &e.sub(&bb).add(&one)) {
                dump(&s.f);
                return Err(format!("the quotient may be too small: remainder {}", bshow(&s.f.expand(&e))));
            }
            if s.neg != (l.neg != r.neg) && !(!s.neg && k.le0(&s.f, &q)) {
                return Err("the quotient may have the wrong sign".into());
            }
            n += 5;
        }
    }
    Ok(n)
}
fn remainder(st: &State, lay: Layout, b: &Dv, l: &Dec, r: &Dec, d: u32) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    if b.l.zero {
        is_zero_obj(st, lay, d)?;
        return Ok(1);
    }
    let mut n = 0;
    for s in shaped(&st.facts, &o)? {
        valid(&s, false, Validity { gran: false, top: false }).map_err(|e| {
            dump(&s.f);
            e
        })?;
        let mut x = BPoly::zero();
        for (i, p) in s.u.iter().enumerate() {
            x.addk(&BPoly::from(p), &Big::pow10(9 * i as u32));
        }
        let f = l.fu.max(r.fu);
        let a = limbs(l, (f - l.fu) as i32);
        let bb = limbs(r, (f - r.fu) as i32);
        let mut k = deep::Known::new();
        let zero = k.le0(&s.f, &x);
        if !zero {
            super::arith::scale_is_max(&s, &[l.fg.clone(), r.fg.clone()])?;
            if s.fu != f {
                return Err(format!("the remainder has {} fractional groups instead of {}", s.fu, f));
            }
            if s.neg != l.neg && s.neg {
                return Err("the remainder does not have the sign of the dividend".into());
            }
            if s.neg != l.neg {
                return Err("the remainder of a negative dividend may be positive".into());
            }
        }
        let c = cut();
        let less = k.le0(&s.f, &x.sub(&bb).add(&BPoly::cst(Big::from(1)))) || {
            set_cut(0);
            deep::below(&s.f, &x, &bb)
        };
        set_cut(c);
        if !less {
            dump(&s.f);
            return Err(format!("the remainder may not be smaller than the divisor: {}", bshow(&s.f.expand(&x))));
        }
        let e = a.sub(&x);
        let mult = multiple(&s.f, &e, &bb) || 'm: {
            set_cut(0);
            if multiple(&s.f, &e, &bb) {
                break 'm true;
            }
            let e = s.f.expand(&e);
            let b = s.f.expand(&bb);
            let e2 = deep::through(&s.f, &reduce(&s.f, &e));
            let zs = deep::vanishing(&s.f);
            [e, e2].iter().any(|e| zs.iter().any(|z| {
                z.0.iter().filter(|(m, _)| m.len() == 1).any(|(m, k)| {
                    let hit = e.0.get(m).and_then(|x| if k.is_neg() { Some(x.div_exact(&k.neg())?.neg()) } else { x.div_exact(k) });
                    hit.map_or(false, |k| {
                        let mut e = e.clone();
                        e.addk(z, &k.neg());
                        multiple(&s.f, &e, &b)
                    })
                })
            }))
        };
        set_cut(c);
        if !mult {
            dump(&s.f);
            return Err(format!("dividend minus remainder may not be a multiple of the divisor: {}", bshow(&s.f.expand(&e))));
        }
        n += 5;
    }
    Ok(n)
}
/// with the digit equations of long division, a positive multiple of e is written without the
/// digits: returns (x, n) with n e = x
fn chain(f: &Facts, e: &BPoly) -> Option<(BPoly, BPoly)> {
    let eqs: Vec<(Var, BPoly)> = f.deep.iter().filter(|d| d.eq).map(|d| (d.pivot - 1, reduce(f, &f.expand(&d.p)))).collect();
    eqs.last()?;
    let e = f.expand(e);
    let has = |p: &BPoly, v: Var| p.0.keys().any(|m| m.contains(&v));
    // the factor both numbers were multiplied by: it goes with every digit, or where they are known
    // with the oldest variable
    let mut ns = vec![BPoly::cst(Big::from(1))];
    for (q, d) in eqs.iter().rev() {
        let Some(q) = (if has(d, *q) { Some(*q) } else { d.0.keys().flat_map(|m| m.iter().cloned()).min() }) else { continue };
        let mut common: Option<Vec<Var>> = None;
        for m in d.0.keys().filter(|m| m.contains(&q)) {
            let vs: Vec<Var> = m.iter().cloned().filter(|x| *x != q).collect();
            common = Some(match common {
                None => vs,
                Some(c) => c.into_iter().filter(|x| vs.contains(x)).collect(),
            });
        }
        let mut new = vec![];
        for v in common.unwrap_or_default() {
            if f.var(v).0 >= 1 {
                new.push(BPoly::from(&Poly::var(v)));
            }
        }
        for (m, k) in &d.0 {
            if m.contains(&q) {
                let mut k = if k.is_neg() { k.neg() } else { *k };
                while let (false, Some(x)) = (k.lt(&Big::from(U)), k.div_exact(&Big::from(U))) {
                    k = x;
                }
                if k.lt(&Big::from(U)) && Big::from(1).lt(&k) {
                    new.push(BPoly::cst(k));
                }
            }
        }
        for n in new {
            if !ns.iter().any(|x| x.sub(&n).is_zero()) {
                ns.push(n);
            }
        }
    }
    if std::env::var("ABS_DEEP").is_ok() {
        for (q, d) in &eqs {
            eprintln!("eq v{}: {}", q, bshow(d));
        }
        for n in &ns {
            eprintln!("n: {}", bshow(n));
        }
    }
    'n: for n in ns {
        let mut x = e.mul(&n);
        for (q, d) in &eqs {
            let q = *q;
            // a digit that is known: any product of the oldest variable
            let lead = d.0.iter().find(|(m, _)| m.contains(&q)).or_else(|| if has(&x, q) { None } else { d.0.iter().filter(|(m, _)| !m.is_empty()).min_by_key(|(m, _)| (m.iter().min().cloned(), std::cmp::Reverse(m.len()))) });
            let Some((m, k)) = lead else { continue 'n };
            let Some(c) = x.0.get(m) else {
                if has(&x, q) || !m.contains(&q) {
                    continue 'n;
                }
                continue;
            };
            let neg = c.is_neg() != k.is_neg();
            let (ca, ka) = (if c.is_neg() { c.neg() } else { *c }, if k.is_neg() { k.neg() } else { *k });
            let Some(t) = ca.div_exact(&ka) else { continue 'n };
            x.addk(d, &if neg { t } else { t.neg() });
            if has(&x, q) {
                continue 'n;
            }
        }
        return Some((x, n));
    }
    None
}
/// e is a multiple of b
fn multiple(f: &Facts, e: &BPoly, b: &BPoly) -> bool {
    let mut e = f.expand(e);
    let mut b = f.expand(b);
    // equations known in the state
    if e.is_zero() {
        return true;
    }
    for _ in 0..3 {
        // the quotient is the coefficient of a variable of the divisor
        for (m, kb) in &b.0 {
            if m.len() != 1 || kb.is_neg() {
                continue;
            }
            let v = m[0];
            let mut q = BPoly::zero();
            let mut ok = true;
            for (n, k) in &e.0 {
                if let Some(i) = n.iter().position(|x| *x == v) {
                    let mut r = n.clone();
                    r.remove(i);
                    match k.div_exact(kb) {
                        Some(x) => {
                            q.0.insert(r, x);
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
            }
            if ok && e.sub(&q.mul(&b)).is_zero() {
                return true;
            }
        }
        for v in 1..nvars() as Var {
            let x = f.var(v);
            let (true, Some(d)) = (x.0 == x.1, vdef(v)) else { continue };
            let q = f.expand(&BPoly::from(&d.addc(-x.0).unwrap()));
            let hit = q.0.iter().find_map(|(m, k)| {
                let x = e.0.get(m)?;
                if m.len() != 1 {
                    return None;
                }
                if k.is_neg() {
                    x.div_exact(&k.neg()).map(|y| y.neg())
                } else {
                    x.div_exact(k)
                }
            });
            if let Some(l) = hit {
                e.addk(&q, &l.neg());
            }
        }
        let r = reduce(f, &e);
        if r.is_zero() {
            return true;
        }
        e = r;
        b = reduce(f, &b);
    }
    false
}
fn show(b: &Dv) -> String {
    let rng = |s: &Sp| s.rng.iter().find(|x| x.1 > 0).map_or(String::new(), |x| format!(" top {}..{}", x.1, x.2));
    format!(
        "{} lhs {} ({} groups){} rhs {} ({} groups){} {:?}{}",
        if b.op == Op::Div { "div" } else { "rem" },
        super::arith::show(&b.l),
        b.ln,
        rng(&b.l),
        super::arith::show(&b.r),
        b.rn,
        rng(&b.r),
        b.rel,
        if b.op == Op::Rem {
            String::new()
        } else if b.incr.0 == b.incr.1 {
            format!(" incr {}", b.incr.0)
        } else {
            format!(" incr {}..{}", b.incr.0, b.incr.1)
        }
    )
}
/// ranges of a divisor's top group in which it can be normalised by one range of factors
pub fn divisor_boxes() -> Vec<(i128, i128)> {
    let mut v = vec![(1, 1), (2, 9)];
    for d in 2..=8 {
        v.push(digits(d));
    }
    v.extend([(U / 10, U / 4 - 1), (U / 4, U / 3 - 1), (U / 3, U / 2 - 1), (U / 2, U - 1)]);
    v
}
pub fn jobs<'tcx>(op: Op, id: &str, tier: Tier) -> Vec<Job<'tcx>> {
    let mut bs: Vec<Dv> = vec![];
    let full = tier == Tier::Thorough;
    let mut rot = 0usize;
    // zero operands
    for (li, lf) in shapes() {
        for (ri, rf) in [(0, 0), (1, 0), (2, 3), (5, 4), (9, 0)] {
            let mut l = sp(li, lf, false);
            let mut r = sp(ri, rf, false);
            r.zero = true;
            l.zero = true;
            bs.push(Dv { op, l: l.clone(), r: r.clone(), ln: 0, rn: 0, rel: Rel::None, incr: (0, (1 << 64) - 1) });
            if li + lf > 0 {
                l.zero = false;
                bs.push(Dv { op, l: l.clone(), r: r.clone(), ln: 0, rn: 0, rel: Rel::None, incr: (0, (1 << 64) - 1) });
            }
            if ri + rf > 0 {
                l.zero = true;
                r.zero = false;
                bs.push(Dv { op, l, r, ln: 0, rn: 0, rel: Rel::None, incr: (0, (1 << 64) - 1) });
            }
        }
    }
    // one-group divisors
    for ln in 1..=9usize {
        for lf in 0..=4usize {
            for rf in 0..=4usize {
                if ln.max(lf) > 9 {
                    continue;
                }
                for ge in [true, false] {
                    let incs: Vec<(i128, i128)> = if op == Op::Rem { vec![(0, 0)] } else { vec![(0, 0), (1, 9), (10, 1 << 40)] };
                    for inc in incs {
                        let mut cl: Vec<(u32, u32)> = vec![];
                        for dl in 1..=9 {
                            for dr in 1..=9 {
                                if ge && dl >= dr || !ge && dl <= dr {
                                    cl.push((dl, dr));
                                }
                            }
                        }
                        if !full {
                            cl = vec![cl[rot * 7 % cl.len()]];
                        }
                        for (dl, dr) in cl {
                            rot += 1;
                            let sg: Vec<usize> = if full { vec![0, 1, 2, 3] } else { vec![rot % 4] };
                            for s in sg {
                                let l = shape(ln, lf, s & 1 == 1, digits(dl));
                                let r = shape(1, rf, s & 2 == 2, digits(dr));
                                bs.push(Dv { op, l, r, ln, rn: 1, rel: if ge { Rel::Ge(0) } else { Rel::Lt(0) }, incr: inc });
                            }
                        }
                    }
                }
            }
        }
    }
    if id == "C04" || id == "C05" {
        // the longest first
        let v = std::mem::take(&mut bs);
        bs = long(op, tier);
        bs.extend(v);
    }
    bs.into_iter().map(|b| job(show(&b), move |cx| run(cx, &b))).collect()
}

/// divisors of several groups: a fixed sample of shapes, comparisons and increments, each of which
/// stands for all values of the groups
fn long(op: Op, tier: Tier) -> Vec<Dv> {
    let (count, cap) = if tier == Tier::Thorough { (600, 9) } else { (48, 3) };
    let boxes = divisor_boxes();
    let mut x: u64 = if op == Op::Div { 0x9e3779b97f4a7c15 } else { 0xd1b54a32d192ed03 };
    let mut next = move |n: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((x >> 20) % n as u64) as usize
    };
    let mut r: Vec<Dv> = vec![];
    let mut tries = 0;
    while r.len() < count && tries < 1_000_000 {
        tries += 1;
        let (ln, rn) = (1 + next(9), 2 + next(8));
        let (lf, rf) = (next(5), next(5));
        let (lz, rz) = (next(4) / 3, next(4) / 3);
        let bx = boxes[next(boxes.len())];
        let dl = digits(1 + next(9) as u32);
        let ge = next(2) == 0;
        let k = if next(3) == 0 { 1 + next(rn) } else { 0 };
        let sg = next(4);
        let (la, ra) = (next(9), next(9));
        let inc = [0, 0, 4, 9, 13, 20, 30, 1 << 40][next(8)];
        let incr = if op == Op::Rem { (0, 0) } else { (inc, inc) };
        // groups of the quotient
        let delta = (ln as i128 - lf as i128) - (rn as i128 - rf as i128);
        let g = (delta + ge as i128).max(0);
        let m = if op == Op::Div {
            g + ((lf + rf) as i128 + units(incr.0)).min(4).min((9 - g).max(0))
        } else {
            let f = lf.max(rf) as i128;
            (ln as i128 + f - lf as i128) - (rn as i128 + f - rf as i128) + ge as i128
        };
        if op == Op::Rem && (ln + lf.max(rf) - lf > 7 || lf.max(rf) - rf > 2 || rn > 5) {
            continue;
        }
        // few that fail or have nothing to do
        if (g > 9 || m <= 0) && next(4) != 0 {
            continue;
        }
        // equal leading groups: only where no digit of the quotient is computed
        if k > 0 && m > 0 {
            continue;
        }
        if tier != Tier::Thorough && m > cap && m * rn as i128 > 15 {
            continue;
        }
        if m > cap && next(if tier == Tier::Thorough { 2 } else { 24 }) != 0 {
            continue;
        }
        let lt = if k > 0 { bx } else { dl };
        if k == 0 && (ge && lt.1 <= bx.0 || !ge && lt.0 >= bx.1) {
            continue;
        }
        let mut l = shape(ln, lf, sg & 1 == 1, lt);
        let mut d = shape(rn, rf, sg & 2 == 2, bx);
        for (s, z, n, a) in [(&mut l, lz, ln, la), (&mut d, rz, rn, ra)] {
            if s.iu > 0 && s.iu + s.fu + z <= 9 {
                s.iu += z;
                for i in n..s.iu + s.fu {
                    s.rng.push((i, 0, 0));
                }
            }
            if s.fu > 0 && op == Op::Div {
                let g = 9 * s.fu as i128 - a as i128;
                s.fg = Some((g, g));
            }
        }
        if l.iu + l.fu > 9 || d.iu + d.fu > 9 || k > 0 && k >= ln.max(rn) {
            continue;
        }
        r.push(Dv { op, l, r: d, ln, rn, rel: if ge { Rel::Ge(k) } else { Rel::Lt(k) }, incr });
    }
    r
}
