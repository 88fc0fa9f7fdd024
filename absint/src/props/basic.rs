//! Comparison, hashing, integer conversions, constants and accessors (C07, C08, C12, C13, C21).
use super::*;

/// all signs, shapes and zero flags of one decimal
pub fn singles() -> Vec<Sp> {
    let mut v = vec![];
    for (iu, fu) in shapes() {
        for neg in [false, true] {
            for zero in [false, true] {
                if zero && neg || iu + fu == 0 && !zero {
                    continue;
                }
                let mut s = sp(iu, fu, neg);
                s.zero = zero;
                v.push(s);
            }
        }
    }
    v
}
pub fn show(s: &Sp) -> String {
    super::arith::show(s)
}

// ---------------------------------------------------------------- comparison

/// what each entry must return for an order of the operands
fn expect(entry: &str, o: i128) -> i128 {
    match entry {
        "h_eq" => (o == 0) as i128,
        "h_ne" => (o != 0) as i128,
        "h_lt" => (o < 0) as i128,
        "h_le" => (o <= 0) as i128,
        "h_gt" => (o > 0) as i128,
        "h_ge" => (o >= 0) as i128,
        _ => o,
    }
}
const CMPS: [&str; 8] = ["h_cmp", "h_pcmp", "h_eq", "h_ne", "h_lt", "h_le", "h_gt", "h_ge"];
/// an ordering case: where the magnitudes first differ (group exponent) and in which direction
#[derive(Clone, Copy)]
enum Differ {
    /// signs differ
    Sign,
    Never,
    At(i32, bool),
}
fn order(cx: &mut Ctx, li: (usize, usize), ri: (usize, usize), ln: bool, rn: bool, df: Differ, entry: &str) {
    let mut c = cx.case();
    let (mut ls, mut rs) = (sp(li.0, li.1, ln), sp(ri.0, ri.1, rn));
    let mut want = 0;
    let idx = |s: &Sp, e: i32| -> Option<usize> {
        let i = e + s.fu as i32;
        if i >= 0 && (i as usize) < s.iu + s.fu {
            Some(i as usize)
        } else {
            None
        }
    };
    let mut diff = None;
    if let Differ::Sign = df {
        want = if ln { -1 } else { 1 };
    } else {
        let at = if let Differ::At(e, _) = df { e } else { -100 };
        for e in (-4..9).rev() {
            if e < at {
                break;
            }
            let (i, j) = (idx(&ls, e), idx(&rs, e));
            if e == at {
                let Differ::At(_, greater) = df else { unreachable!() };
                want = if greater != ln { 1 } else { -1 };
                let one = (i, j, greater);
                match one {
                    (Some(i), None, true) => ls.rng.push((i, 1, U - 1)),
                    (None, Some(j), false) => rs.rng.push((j, 1, U - 1)),
                    (Some(i), Some(j), g) => {
                        let (p, q) = (Poly::var(fresh(&format!("lhs[{}]", i), 0, U - 1)), Poly::var(fresh(&format!("rhs[{}]", j), 0, U - 1)));
                        diff = Some(if g { p.sub(&q).unwrap() } else { q.sub(&p).unwrap() });
                        ls.fix.push((i, p));
                        rs.fix.push((j, q));
                    }
                    _ => return,
                }
            } else {
                let p = match (i, j) {
                    (Some(_), Some(_)) => Poly::var(fresh(&format!("both[{}]", e), 0, U - 1)),
                    _ => Poly::cst(0),
                };
                if let Some(i) = i {
                    ls.fix.push((i, p.clone()));
                }
                if let Some(j) = j {
                    rs.fix.push((j, p));
                }
            }
        }
    }
    ls.maybe_zero = !ln;
    rs.maybe_zero = !rn;
    let l = c.dec("lhs", &ls);
    let r = c.dec("rhs", &rs);
    if let Some(d) = diff {
        if !c.st.facts.assume(&d, 1, INF) {
            return;
        }
    }
    for d in [&l, &r] {
        let s = d.sum();
        if d.neg && s.is_const() && s.c == 0 {
            return;
        }
    }
    let done = cx.exec(c, entry, vec![ptr(l.obj), ptr(r.obj)], None, &no_bad);
    if !cx.wants("C07") {
        return;
    }
    for st in &done {
        let x = ret_int(st, 8).and_then(|got| {
            if expect(entry, want) == got {
                Ok(1)
            } else {
                dump(&st.facts);
                Err(format!("{} returns {} where the operands' order is {}", &entry[2..], got, want))
            }
        });
        cx.check(x);
    }
}
pub fn cmp_jobs<'tcx>(_id: &str) -> Vec<Job<'tcx>> {
    let mut v = vec![];
    for l in shapes() {
        for r in shapes() {
            for (ln, rn) in [(false, false), (false, true), (true, false), (true, true)] {
                v.push(job(format!("cmp lhs {}{}.{} rhs {}{}.{}", sgn(ln), l.0, l.1, sgn(rn), r.0, r.1), move |cx| {
                    let mut ds = vec![];
                    if ln != rn {
                        ds.push(Differ::Sign);
                    } else {
                        ds.push(Differ::Never);
                        for e in -(l.1.max(r.1) as i32)..l.0.max(r.0) as i32 {
                            ds.push(Differ::At(e, true));
                            ds.push(Differ::At(e, false));
                        }
                    }
                    for e in CMPS {
                        for d in &ds {
                            order(cx, l, r, ln, rn, *d, e);
                        }
                    }
                }));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- hashing

const REC_N: usize = 64;
/// canonical decimal and the same value with extra zero groups
fn hash(cx: &mut Ctx, s: &Sp, more_i: usize, more_f: usize) {
    let mut c = cx.case();
    let a = c.dec("value", s);
    let mut t = sp(s.iu + more_i, s.fu + more_f, s.neg);
    t.zero = s.zero;
    for i in 0..t.iu + t.fu {
        let p = if i < more_f || i - more_f >= a.n() { Poly::cst(0) } else { a.u[i - more_f].clone() };
        t.fix.push((i, p));
    }
    let b = c.dec("padded", &t);
    let size = 8 + 16 * REC_N as u64;
    let mut recs = vec![];
    for _ in 0..2 {
        let mut o = Obj::new(size);
        for i in 0..1 + 2 * REC_N as u64 {
            o.set(bcell(8 * i, 8, false, Val::C(0)));
        }
        recs.push(c.obj(o));
    }
    let done = cx.exec(c, "h_hash2", vec![ptr(a.obj), ptr(b.obj), ptr(recs[0]), ptr(recs[1])], None, &no_bad);
    if !cx.wants("C08") {
        return;
    }
    for st in &done {
        let x = same_words(st, recs[0], recs[1], size);
        cx.check(x);
    }
}
fn same_words(st: &State, a: u32, b: u32, size: u64) -> Result<u64, String> {
    let (x, y) = (st.heap[a as usize].as_ref().ok_or("gone")?, st.heap[b as usize].as_ref().ok_or("gone")?);
    let get = |o: &Obj, off: u64| -> Result<Poly, String> {
        match o.get(off as u32, 8).map(|c| c.v.clone()) {
            Some(Val::C(x)) => Ok(Poly::cst(x)),
            Some(Val::P(p)) => Ok((*p).clone()),
            v => Err(format!("hash feed not determined: {:?}", v)),
        }
    };
    let mut n = 0;
    for i in 0..size / 8 {
        let (p, q) = (get(x, 8 * i)?, get(y, 8 * i)?);
        if p == q {
            n += 1;
            continue;
        }
        let d = p.sub(&q).ok_or("hash words")?;
        if !bzero(&st.facts, &BPoly::from(&d)) {
            dump(&st.facts);
            return Err(format!("hash feeds of equal decimals differ in word {}: {} and {}", i, p.show(), q.show()));
        }
        n += 1;
    }
    Ok(n)
}
pub fn hash_jobs<'tcx>(_id: &str) -> Vec<Job<'tcx>> {
    let mut v = vec![];
    for (iu, fu) in shapes() {
        for neg in [false, true] {
            let mut s = sp(iu, fu, neg);
            if iu + fu == 0 {
                if neg {
                    continue;
                }
                s.zero = true;
            }
            // canonical: outermost groups not zero
            if iu > 0 {
                s.rng.push((iu + fu - 1, 1, U - 1));
            }
            if fu > 0 && iu + fu > 1 || fu > 0 && iu == 0 {
                s.rng.retain(|x| x.0 != 0);
                s.rng.push((0, 1, U - 1));
            }
            for mi in 0..=9 - iu - fu {
                for mf in 0..=(4 - fu).min(9 - iu - fu - mi) {
                    let s = s.clone();
                    v.push(job(format!("hash {} with {} more integral and {} more fractional groups", show(&s), mi, mf), move |cx| hash(cx, &s, mi, mf)));
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- conversion from integers

fn from_int(cx: &mut Ctx, signed: bool, lo: i128, hi: i128) {
    let mut c = cx.case();
    let v = if lo == hi { Poly::cst(lo) } else { Poly::var(fresh("int", lo, hi)) };
    let d = c.garbage("dest");
    let dv = c.garbage_vars.clone();
    let lay = cx.lay();
    let done = cx.exec(c, if signed { "h_from_i64" } else { "h_from_u64" }, vec![vint(8, v.clone()), ptr(d)], Some(d), &no_bad);
    for st in &done {
        if cx.wants("C12") {
            let x = out(st, lay, d).and_then(|o| {
                let mut n = 0;
                for s in shaped(&st.facts, &o)? {
                    valid(&s, false, Validity { gran: false, top: false })?;
                    let want = BPoly::from(&v).scale(&Big::pow10(E as u32));
                    let e = s.val().sub(&want);
                    if !bzero(&s.f, &e) {
                        dump(&s.f);
                        return Err(format!("conversion from the integer is off by {}", bshow(&s.f.expand(&e))));
                    }
                    if s.f.range(&s.fg, (0, 0)) != (0, 0) {
                        return Err("conversion from an integer has a scale".into());
                    }
                    n += 3;
                }
                Ok(n)
            });
            cx.check(x);
        }
        if cx.wants("C15") {
            let x = valid_obj(st, lay, d, Validity { gran: true, top: true });
            cx.check(x);
        }
        if cx.wants("C17") {
            let x = independent(st, lay, d, &dv);
            cx.check(x);
        }
    }
}
pub fn from_jobs<'tcx>(_id: &str) -> Vec<Job<'tcx>> {
    let mut v = vec![];
    let (imin, imax, umax) = (i64::MIN as i128, i64::MAX as i128, u64::MAX as i128);
    let mut bs = vec![(false, 0, 0), (true, 0, 0), (true, imin, imin), (true, -1, -1), (false, umax, umax), (true, imax, imax)];
    let cuts = [1, U, U * U, umax + 1];
    for w in cuts.windows(2) {
        bs.push((false, w[0], w[1] - 1));
        bs.push((true, w[0], (w[1] - 1).min(imax)));
        bs.push((true, (1 - w[1]).max(imin + 1), -w[0]));
    }
    for (s, lo, hi) in bs {
        v.push(job(format!("from {} {}..{}", if s { "i64" } else { "u64" }, lo, hi), move |cx| from_int(cx, s, lo, hi)));
    }
    v
}

// ---------------------------------------------------------------- constants, accessors, sign changes

fn same_dec(st: &State, lay: Layout, d: u32, want: &Dec, neg: bool) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    let ig = if neg { want.ig.addc(-128).unwrap() } else { want.ig.clone() };
    let f = &st.facts;
    let eq = |a: &Poly, b: &Poly, what: String| -> Result<(), String> {
        let e = a.sub(b).ok_or("difference")?;
        if e.t.is_empty() && e.c == 0 || bzero(f, &BPoly::from(&e)) {
            Ok(())
        } else {
            Err(format!("{} is {} instead of {}", what, a.show(), b.show()))
        }
    };
    eq(&o.ig, &ig, "sign and integral digit count".into())?;
    eq(&o.fg, &want.fg, "scale".into())?;
    for i in 0..9 {
        eq(&o.u[i], &want.u[i], format!("group {}", i))?;
    }
    Ok(11)
}
fn number(st: &State, lay: Layout, d: u32, want: i128) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    let mut n = 0;
    for s in shaped(&st.facts, &o)? {
        valid(&s, false, Validity { gran: true, top: true })?;
        let e = s.val().sub(&BPoly::cst(Big::from(want).mul(&Big::pow10(E as u32))));
        if !bzero(&s.f, &e) {
            return Err(format!("value is not {}: {}", want, bshow(&s.val())));
        }
        if s.f.range(&s.fg, (0, 0)) != (0, 0) {
            return Err("scale is not 0".into());
        }
        n += 3;
    }
    Ok(n)
}
fn constant(cx: &mut Ctx, entry: &'static str, want: i128) {
    let mut c = cx.case();
    let d = c.garbage("dest");
    let lay = cx.lay();
    let dv = c.garbage_vars.clone();
    let done = cx.exec(c, entry, vec![ptr(d)], Some(d), &no_bad);
    for st in &done {
        if cx.wants("C21") {
            let x = number(st, lay, d, want);
            cx.check(x);
        }
        if cx.wants("C15") {
            let x = valid_obj(st, lay, d, Validity { gran: true, top: true });
            cx.check(x);
        }
        if cx.wants("C17") {
            let x = independent(st, lay, d, &dv);
            cx.check(x);
        }
    }
}
fn sign_change(cx: &mut Ctx, s: &Sp, entry: &'static str) {
    let mut c = cx.case();
    let d = c.dec("value", s);
    let lay = cx.lay();
    let done = cx.exec(c, entry, vec![ptr(d.obj)], Some(d.obj), &no_bad);
    for st in &done {
        if cx.wants("C21") {
            let x = same_dec(st, lay, d.obj, &d, entry == "h_set_neg" && !s.zero);
            cx.check(x);
        }
        if cx.wants("C15") {
            let x = valid_obj(st, lay, d.obj, Validity { gran: false, top: false });
            cx.check(x);
        }
    }
}
fn copy(cx: &mut Ctx, s: &Sp) {
    let mut c = cx.case();
    let d = c.dec("value", s);
    let r = c.garbage("dest");
    let lay = cx.lay();
    let done = cx.exec(c, "h_clone", vec![ptr(d.obj), ptr(r)], Some(r), &no_bad);
    for st in &done {
        if cx.wants("C21") {
            let x = same_dec(st, lay, r, &d, s.neg);
            cx.check(x);
        }
    }
}
fn accessor(cx: &mut Ctx, s: &Sp, entry: &'static str) {
    let mut c = cx.case();
    let d = c.dec("value", s);
    let done = cx.exec(c, entry, vec![ptr(d.obj)], None, &no_bad);
    let want = match entry {
        "h_is_zero" => Poly::cst(s.zero as i128),
        "h_is_neg" => Poly::cst(s.neg as i128),
        "h_intg" => d.ig.clone(),
        "h_frac" => d.fg.clone(),
        "h_intg_units" => Poly::cst(s.iu as i128),
        _ => Poly::cst(s.fu as i128),
    };
    for st in &done {
        if !cx.wants("C21") {
            continue;
        }
        let x = match st.heap[0].as_ref().and_then(|o| o.get(0, 8)).map(|c| c.v.clone()) {
            Some(Val::C(x)) => Ok(Poly::cst(x)),
            Some(Val::P(p)) => Ok((*p).clone()),
            v => Err(format!("return value not determined: {:?}", v)),
        }
        .and_then(|got| {
            if bzero(&st.facts, &BPoly::from(&got.sub(&want).unwrap())) {
                Ok(1)
            } else {
                Err(format!("{} reports {} instead of {}", &entry[2..], got.show(), want.show()))
            }
        });
        cx.check(x);
    }
}
pub fn basic_jobs<'tcx>(id: &str) -> Vec<Job<'tcx>> {
    let mut v: Vec<Job> = vec![];
    for (e, n) in [("h_zero", 0), ("h_one", 1), ("h_set_zero", 0), ("h_set_one", 1)] {
        v.push(job(format!("{} over any content", &e[2..]), move |cx| constant(cx, e, n)));
    }
    for s in singles() {
        for e in ["h_set_neg", "h_set_pos"] {
            let s = s.clone();
            v.push(job(format!("{} {}", &e[2..], show(&s)), move |cx| sign_change(cx, &s, e)));
        }
        if id == "C15" || id == "C17" {
            continue;
        }
        for e in ["h_is_zero", "h_is_neg", "h_intg", "h_frac", "h_intg_units", "h_frac_units"] {
            let s = s.clone();
            v.push(job(format!("{} {}", &e[2..], show(&s)), move |cx| accessor(cx, &s, e)));
        }
        v.push(job(format!("clone {}", show(&s)), move |cx| copy(cx, &s)));
    }
    v
}
