//! Rounding (C06) and conversion to integers (C13).
use super::*;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
    /// requested scale not below the current one
    Keep,
    /// digits are dropped, the first dropped digit is below 5
    Down,
    /// digits are dropped, the first dropped digit is 5 or more
    Up,
    /// everything is dropped
    Zero,
}
#[derive(Clone)]
struct Rd {
    s: Sp,
    n: (i128, i128),
    mode: Mode,
}
fn show(r: &Rd) -> String {
    format!(
        "round {} to {} {}",
        super::arith::show(&r.s),
        if r.n.0 == r.n.1 { r.n.0.to_string() } else { format!("{}..{}", r.n.0, r.n.1) },
        match r.mode {
            Mode::Keep => "unchanged",
            Mode::Down => "down",
            Mode::Up => "up",
            Mode::Zero => "to zero",
        }
    )
}
/// group and number of its digits to drop when rounding to n digits
fn position(fu: usize, n: i128) -> (i128, u32) {
    let p = div_floor(-n + 8, 9); // groups touched above the point (<= 0: below it)
    let p = p.max(-(fu as i128) + 1);
    // first dropped digit lies in the group with exponent p-1
    let e = p - 1;
    (e + fu as i128, (-n - 9 * e) as u32)
}
fn run(cx: &mut Ctx, r: &Rd, in_place: bool) {
    let mut c = cx.case();
    let lay = cx.lay();
    let mut s = r.s.clone();
    let nv = if r.n.0 == r.n.1 { Poly::cst(r.n.0) } else { Poly::var(fresh("n", r.n.0, r.n.1)) };
    let mut hi = Poly::cst(0);
    let (mut idx, mut k) = (0, 0);
    if r.mode == Mode::Down || r.mode == Mode::Up {
        let (i, kk) = position(s.fu, r.n.0);
        idx = i as usize;
        k = kk;
        let half = 5 * 10i128.pow(k - 1);
        let low = if r.mode == Mode::Down { Poly::var(fresh("dropped", 0, half - 1)) } else { Poly::var(fresh("dropped", half, 2 * half - 1)) };
        if k < 9 {
            let mut m = 10i128.pow(9 - k) - 1;
            if let (Some(t), true) = (s.tmax, idx == s.iu + s.fu - 1) {
                m = m.min(t / (2 * half));
            }
            hi = Poly::var(fresh("kept", 0, m));
        }
        if let Some(g) = s.gunit {
            if idx == 0 {
                // granularity of the dropped part
                let (lo, hi2) = if r.mode == Mode::Down { (0, half - 1) } else { (half, 2 * half - 1) };
                let (a, b) = (div_ceil(lo, g), div_floor(hi2, g));
                let p = if a == b { Poly::cst(a) } else { Poly::var(fresh("dropped", a, b)) };
                s.fix.push((idx, hi.scale(2 * half).unwrap().add(&p.scale(g).unwrap()).unwrap()));
            }
        }
        if s.fix.is_empty() {
            s.fix.push((idx, hi.scale(2 * half).unwrap().add(&low).unwrap()));
        }
    }
    s.maybe_zero = !s.neg;
    let d = c.dec("value", &s);
    let dest = if in_place { d.obj } else { c.garbage("dest") };
    let dv = c.garbage_vars.clone();
    // expected magnitude
    let mut want = BPoly::zero();
    match r.mode {
        Mode::Keep => want = d.abs(),
        Mode::Zero => (),
        _ => {
            for i in idx..d.n() {
                let e = (9 * (i as i32 - s.fu as i32) + E) as u32;
                let p = if i == idx { hi.scale(10i128.pow(k)).unwrap() } else { d.u[i].clone() };
                want.addk(&BPoly::from(&p), &Big::pow10(e));
            }
            if r.mode == Mode::Up {
                want.addk(&BPoly::cst(Big::from(1)), &Big::pow10((E as i128 - r.n.0) as u32));
            }
        }
    }
    let cap = 9 * 4.min(9 - s.iu as i128);
    let scale = match r.mode {
        Mode::Keep => Poly::cst(r.n.0.min(cap)),
        _ => Poly::cst(r.n.0.max(0)),
    };
    // the rounded value needs a tenth group
    let groups = s.iu as i128 + (scale.c + 8) / 9;
    let lim = Big::pow10((9 * s.iu as i32 + E) as u32);
    let allow = |b: &Bad| b.kind == Kind::Panic && groups == 9 && r.mode == Mode::Up && lim.le(&bounds(&b.st.facts, &want).0);
    cx.max_bad = 20;
    let args = if in_place { vec![ptr(d.obj), vint(8, nv)] } else { vec![ptr(d.obj), ptr(dest), vint(8, nv)] };
    let done = cx.exec(c, if in_place { "h_round" } else { "h_round_to" }, args, Some(dest), &allow);
    for st in &done {
        if cx.wants("C06") {
            let x = out(st, lay, dest).and_then(|o| {
                let mut n = 0;
                for t in shaped(&st.facts, &o)? {
                    valid(&t, false, Validity { gran: false, top: false })?;
                    let w = if s.neg { want.scale(&Big::from(-1)) } else { want.clone() };
                    let e = t.val().sub(&w);
                    if !bzero(&t.f, &e) {
                        dump(&t.f);
                        return Err(format!("rounded value is off by {}", bshow(&t.f.expand(&e))));
                    }
                    let sc = t.fg.sub(&scale).unwrap();
                    if t.f.range(&sc, (0, 0)) != (0, 0) {
                        return Err(format!("scale of the rounded value is {} instead of {}", t.fg.show(), scale.show()));
                    }
                    n += 3;
                }
                Ok(n)
            });
            cx.check(x);
        }
        if cx.wants("C15") {
            let x = valid_obj(st, lay, dest, Validity { gran: true, top: true });
            cx.check(x);
        }
        if cx.wants("C17") && !in_place {
            let x = independent(st, lay, dest, &dv);
            cx.check(x);
        }
    }
}
pub fn jobs<'tcx>(id: &str, tier: Tier) -> Vec<Job<'tcx>> {
    let mut rs: Vec<Rd> = vec![];
    let mut rot = 0i128;
    let exact = id == "C15";
    for (iu, fu) in shapes() {
        for neg in [false, true] {
            if iu + fu == 0 && neg {
                continue;
            }
            let (i, f) = (iu as i128, fu as i128);
            let (flo, fhi) = (if fu == 0 { 0 } else { 9 * f - 8 }, 9 * f);
            let s0 = sp(iu, fu, neg);
            let mut push = |s: &Sp, n: (i128, i128), mode: Mode| {
                let (flo, fhi) = s.fg.unwrap_or((flo, fhi));
                if exact {
                    // the digits below the scale are zero, the top group has no more digits than counted
                    for x in flo..=fhi {
                        rot += 1;
                        if tier == Tier::Quick && fhi > flo && x != flo + rot * 7 / 3 % (fhi - flo + 1) {
                            continue;
                        }
                        let mut t = s.clone();
                        if fu > 0 {
                            t.fg = Some((x, x));
                            t.gunit = Some(10i128.pow((9 * f - x) as u32));
                        }
                        if iu > 0 && !s.top {
                            let (lo, hi) = s.ig.unwrap_or((9 * i - 8, 9 * i));
                            let g = lo + rot * 5 % (hi - lo + 1);
                            t.ig = Some((g, g));
                            t.top = true;
                        }
                        rs.push(Rd { s: t, n, mode });
                    }
                } else {
                    rs.push(Rd { s: s.clone(), n, mode });
                }
            };
            // not below the current scale
            for n in 0..=37 {
                if n < flo {
                    continue;
                }
                let mut s = s0.clone();
                s.fg = Some((flo, fhi.min(n)));
                if n == 37 {
                    push(&s, (37, 127), Mode::Keep);
                    push(&s, (128, i64::MAX as i128), Mode::Keep);
                } else {
                    push(&s, (n, n), Mode::Keep);
                }
            }
            // fractional digits dropped
            for n in 0..fhi {
                let mut s = s0.clone();
                s.fg = Some((flo.max(n + 1), fhi));
                for m in [Mode::Down, Mode::Up] {
                    push(&s, (n, n), m);
                }
            }
            // integral digits dropped
            for n in 1..=9 * i {
                let base = 9 * (i - 1);
                let mut s = s0.clone();
                if n > base {
                    s.ig = Some((n, 9 * i));
                }
                for m in [Mode::Down, Mode::Up] {
                    push(&s, (-n, -n), m);
                }
                // more digits than there are
                for g in base + 1..n {
                    let mut s = s0.clone();
                    s.ig = Some((g, g));
                    s.top = true;
                    push(&s, (-n, -n), Mode::Zero);
                }
            }
            push(&s0, (-127.max(9 * i + 1), -9 * i - 1), Mode::Zero);
            push(&s0, (i64::MIN as i128, -128), Mode::Zero);
        }
    }
    rs.retain(|r| r.n.0 <= r.n.1);
    rs.into_iter()
        .map(|r| {
            let id = id.to_string();
            job(show(&r), move |cx| {
                if id != "C17" {
                    run(cx, &r, true);
                }
                run(cx, &r, false);
            })
        })
        .collect()
}

// ---------------------------------------------------------------- conversion to integers

/// groups (exponent, lowest, highest), whether the fraction must be zero / non-zero, in range
#[derive(Clone)]
struct Lim {
    rng: Vec<(i32, i128, i128)>,
    frac: Option<bool>,
    inside: bool,
}
fn limits(max: i128, iu: usize) -> Vec<Lim> {
    let mut v = vec![];
    let digits = [max % U, max / U % U, max / U / U];
    let mut rng: Vec<(i32, i128, i128)> = vec![];
    for e in (0..iu as i32).rev() {
        let d = if e < 3 { digits[e as usize] } else { 0 };
        for (lo, hi, inside) in [(d + 1, U - 1, false), (0, d - 1, true)] {
            if lo > hi {
                continue;
            }
            let mut r = rng.clone();
            r.push((e, lo, hi));
            v.push(Lim { rng: r, frac: None, inside });
        }
        rng.push((e, d, d));
    }
    if iu < 3 {
        v.push(Lim { rng: vec![], frac: None, inside: true });
        v.retain(|x| x.rng.is_empty());
    } else {
        v.push(Lim { rng: rng.clone(), frac: Some(true), inside: true });
        v.push(Lim { rng, frac: Some(false), inside: false });
    }
    v
}
fn as_int(cx: &mut Ctx, s: &Sp, l: &Lim, up: bool, signed: bool) {
    let mut c = cx.case();
    let mut s = s.clone();
    let f = s.fu;
    for (e, lo, hi) in &l.rng {
        s.rng.push(((*e + f as i32) as usize, *lo, *hi));
    }
    if f > 0 {
        s.rng.push((f - 1, if up { U / 2 } else { 0 }, if up { U - 1 } else { U / 2 - 1 }));
        if l.frac == Some(true) {
            if up {
                return;
            }
            s.rng.retain(|x| x.0 >= f);
            for i in 0..f {
                s.rng.push((i, 0, 0));
            }
        }
    } else if up || l.frac == Some(false) {
        return;
    }
    s.maybe_zero = !s.neg;
    let d = c.dec("value", &s);
    if l.frac == Some(false) {
        let mut p = Poly::cst(0);
        for i in 0..f {
            p = p.add(&d.u[i]).unwrap();
        }
        if !c.st.facts.assume(&p, 1, INF) {
            return;
        }
    }
    if s.neg && d.sum().is_const() && d.sum().c == 0 {
        return;
    }
    let mut o = Obj::new(8);
    o.set(bcell(0, 8, true, Val::C(0)));
    let dest = c.obj(o);
    let done = cx.exec(c, if signed { "h_as_i64" } else { "h_as_u64" }, vec![ptr(d.obj), ptr(dest)], Some(dest), &no_bad);
    if !cx.wants("C13") {
        return;
    }
    let inside = l.inside && (signed || !s.neg);
    let mut want = BPoly::zero();
    for i in f..d.n() {
        want.addk(&BPoly::from(&d.u[i]), &Big::pow10(9 * (i - f) as u32));
    }
    if up {
        want.addk(&BPoly::cst(Big::from(1)), &Big::from(1));
    }
    if s.neg {
        want = want.scale(&Big::from(-1));
    }
    for st in &done {
        let x = ret_int(st, 8).and_then(|code| {
            if !inside {
                return match code {
                    4 => Ok(1),
                    0 => Err("conversion succeeds although the value is out of range".into()),
                    x => Err(format!("conversion fails with error code {} instead of the range error", x)),
                };
            }
            if code != 0 {
                return Err(format!("conversion fails with error code {} although the value is in range", code));
            }
            let got = match st.heap[dest as usize].as_ref().and_then(|o| o.get(0, 8)).map(|c| c.v.clone()) {
                Some(Val::C(x)) => Poly::cst(x),
                Some(Val::P(p)) => (*p).clone(),
                v => return Err(format!("converted value not determined: {:?}", v)),
            };
            let e = BPoly::from(&got).sub(&want);
            if !bzero(&st.facts, &e) {
                dump(&st.facts);
                return Err(format!("converted value is off by {}", bshow(&st.facts.expand(&e))));
            }
            Ok(1)
        });
        cx.check(x);
    }
}
pub fn as_int_jobs<'tcx>(_id: &str) -> Vec<Job<'tcx>> {
    let mut v = vec![];
    for (iu, fu) in shapes() {
        for neg in [false, true] {
            if iu + fu == 0 && neg {
                continue;
            }
            for signed in [false, true] {
                let max = match (signed, neg) {
                    (true, false) => i64::MAX as i128,
                    (true, true) => -(i64::MIN as i128),
                    (false, _) => u64::MAX as i128,
                };
                for (k, l) in limits(max, iu).into_iter().enumerate() {
                    for up in [false, true] {
                        let s = sp(iu, fu, neg);
                        let l = l.clone();
                        v.push(job(format!("as {} {} box {}{}", if signed { "i64" } else { "u64" }, super::arith::show(&s), k, if up { " up" } else { "" }), move |cx| as_int(cx, &s, &l, up, signed)));
                    }
                }
            }
        }
    }
    v
}
