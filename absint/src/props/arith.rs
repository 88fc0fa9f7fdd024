//! Addition, subtraction, multiplication (C01-C03) and their share of C14, C15, C17, C22.
use super::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
}
impl Op {
    pub fn entry(self) -> &'static str {
        match self {
            Op::Add => "h_add",
            Op::Sub => "h_sub",
            Op::Mul => "h_mul",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Op::Add => "add",
            Op::Sub => "sub",
            Op::Mul => "mul",
        }
    }
    fn own(self) -> &'static str {
        match self {
            Op::Add => "C01",
            Op::Sub => "C02",
            Op::Mul => "C03",
        }
    }
}
#[derive(Clone)]
pub struct Bin {
    pub op: Op,
    pub l: Sp,
    pub r: Sp,
    pub w: Validity,
    /// bounds on the sum of fractional / integral digit counts
    pub fsum: Option<(i128, i128)>,
    pub isum: Option<(i128, i128)>,
    /// bounds on lhs.frac - rhs.frac
    pub fdiff: Option<(i128, i128)>,
    /// products: decide the digits / the size and errors in this case (see jobs)
    pub digits: bool,
    pub size: bool,
}
pub fn bin(op: Op, l: &Sp, r: &Sp) -> Bin {
    Bin { op, l: l.clone(), r: r.clone(), w: Validity { gran: false, top: false }, fsum: None, isum: None, fdiff: None, digits: true, size: true }
}

pub fn run<'tcx>(cx: &mut Ctx<'_, 'tcx>, b: &Bin) {
    let mut c = cx.case();
    let l = c.dec("lhs", &b.l);
    let r = c.dec("rhs", &b.r);
    let d = c.garbage("dest");
    for (p, x) in [(l.fg.add(&r.fg).unwrap(), b.fsum), (l.ig.add(&r.ig).unwrap(), b.isum), (l.fg.sub(&r.fg).unwrap(), b.fdiff)] {
        if let Some((lo, hi)) = x {
            if !c.st.facts.assume(&p, lo, hi) {
                return;
            }
        }
    }
    let dv = c.garbage_vars.clone();
    let done = cx.exec(c, b.op.entry(), vec![ptr(l.obj), ptr(r.obj), ptr(d)], Some(d), &no_bad);
    for st in &done {
        post(cx, st, &dv, b, &l, &r, d);
    }
}
fn post(cx: &mut Ctx, st: &State, dv: &[Var], b: &Bin, l: &Dec, r: &Dec, d: u32) {
    let lay = cx.lay();
    let code = match ret_int(st, 8) {
        Ok(c) => c,
        Err(e) => return cx.fail(e),
    };
    if cx.wants(b.op.own()) {
        let x = if code == 0 { value(st, lay, b, l, r, d) } else { error(st, code, b, l, r) };
        cx.check(x);
    }
    if cx.wants("C22") {
        let x = if code == 0 { Ok(1) } else { error(st, code, b, l, r).and_then(|_| is_zero_obj(st, lay, d)) };
        cx.check(x);
    }
    if cx.wants("C15") && code == 0 {
        let x = valid_obj(st, lay, d, b.w);
        cx.check(x);
    }
    if cx.wants("C17") {
        let x = independent(st, lay, d, dv);
        cx.check(x);
    }
}
/// errors are overflow, and only where they must be
fn error(st: &State, code: i128, b: &Bin, l: &Dec, r: &Dec) -> Result<u64, String> {
    if code != 1 {
        return Err(format!("fails with error code {} instead of overflow", code));
    }
    let f = &st.facts;
    if b.l.zero || b.r.zero {
        return Err("fails although an operand is zero".into());
    }
    if b.op == Op::Mul {
        if !b.size {
            return Ok(0);
        }
        let s = l.ig.add(&r.ig).unwrap();
        let x = f.range(&s, (82, INF));
        if x.0 <= 81 {
            return Err(format!("reports overflow although the operands may have only {} integral digits together", x.0));
        }
        return Ok(1);
    }
    let groups = l.iu.max(r.iu) + l.fu.max(r.fu);
    if groups <= 9 {
        // the exact result must need a tenth group
        let want = exact(b, l, r);
        let (lo, hi) = bounds(f, &want);
        let lim = Big::pow10((9 * (9 - l.fu.max(r.fu) as i32) + E) as u32);
        if groups != 9 || !(lim.le(&lo) || hi.le(&lim.neg())) {
            return Err(format!("reports overflow although the result may fit: exact result {}", bshow(&f.expand(&want))));
        }
    }
    Ok(1)
}
/// exact result, scaled by 10^E (by 10^2E for products)
fn exact(b: &Bin, l: &Dec, r: &Dec) -> BPoly {
    match b.op {
        Op::Add => l.val().add(&r.val()),
        Op::Sub => l.val().sub(&r.val()),
        Op::Mul => l.val().mul(&r.val()),
    }
}
fn value(st: &State, lay: Layout, b: &Bin, l: &Dec, r: &Dec, d: u32) -> Result<u64, String> {
    let o = out(st, lay, d)?;
    let mut n = 0;
    let want = exact(b, l, r);
    for s in shaped(&st.facts, &o)? {
        if b.size {
            valid(&s, false, Validity { gran: false, top: false }).map_err(|e| {
                dump(&s.f);
                e
            })?;
        }
        if b.op == Op::Mul {
            if let Err(e) = product(&s, b, l, r, &want) {
                if b.l.zero || b.r.zero || !no_product(&s.f, l, r) {
                    dump(&s.f);
                    return Err(e);
                }
            }
            n += 3;
            continue;
        }
        let diff = s.val().sub(&want);
        if !bzero(&s.f, &diff) {
            dump(&s.f);
            return Err(format!("result differs from the exact {}: error {}", if b.op == Op::Sub { "difference" } else { "sum" }, bshow(&s.f.expand(&diff))));
        }
        let want = if b.l.zero {
            vec![r.fg.clone()]
        } else if b.r.zero {
            vec![l.fg.clone()]
        } else {
            vec![l.fg.clone(), r.fg.clone()]
        };
        scale_is_max(&s, &want)?;
        n += 3;
    }
    Ok(n)
}
fn product(s: &Shaped, b: &Bin, l: &Dec, r: &Dec, want: &BPoly) -> Result<(), String> {
    let f = &s.f;
    let got = s.val().scale(&Big::pow10(E as u32));
    if b.l.zero || b.r.zero {
        return if bzero(f, &got) { Ok(()) } else { Err("product with zero may be non-zero".into()) };
    }
    // scale and group limits
    let fs = l.fg.add(&r.fg).unwrap();
    let is = l.ig.add(&r.ig).unwrap();
    let (fr, ir) = (f.range(&fs, (INF, -INF)), f.range(&is, (INF, -INF)));
    let un = |x: i128| (x + 8) / 9;
    if un(fr.0) != un(fr.1) {
        return Err("product scale not determined by the case".into());
    }
    if b.size && ir.1 > 81 {
        return Err(format!("no overflow although the operands may have {} integral digits together", ir.1));
    }
    let fu = un(fr.0);
    // the groups left for the fraction shrink with the integral groups
    let keep: Vec<i128> = (un(ir.0)..=un(ir.1)).map(|iu| fu.min(4).min(9 - iu)).collect();
    if keep.iter().any(|k| *k != keep[0]) {
        // decide the number of integral groups first
        for (_, g) in cases(f, &is, &units_ranges()) {
            let t = Shaped { neg: s.neg, iu: s.iu, fu: s.fu, ig: s.ig.clone(), fg: s.fg.clone(), u: s.u.clone(), f: g };
            product(&t, b, l, r, want)?;
        }
        return Ok(());
    }
    let keep = keep[0];
    let diff = got.sub(want);
    if !b.digits {
        return Ok(());
    }
    if keep == fu {
        if f.range(&s.fg.sub(&fs).unwrap(), (0, 0)) != (0, 0) {
            return Err(format!("scale {} of the product is not the sum of the operand scales", s.fg.show()));
        }
        if !bzero(f, &diff) {
            dump(f);
            return Err(format!("result differs from the exact product: error {}", bshow(&f.expand(&diff))));
        }
        return Ok(());
    }
    if f.range(&s.fg, (9 * keep, 9 * keep)) != (9 * keep, 9 * keep) {
        return Err(format!("scale {} of the truncated product is not {}", s.fg.show(), 9 * keep));
    }
    // sign * (want - got) in [0, 16 units of the last digit)
    let neg = b.l.neg != b.r.neg;
    let mut loss = want.sub(&got);
    if neg {
        loss = loss.scale(&Big::from(-1));
    }
    let ulp = Big::pow10((2 * E - 9 * keep as i32) as u32);
    let good = |f: &Facts| {
        [unquot(f, &f.expand(&loss)), unprod(f, &loss)].iter().any(|x| {
            let (lo, hi) = f.bbound(x);
            !lo.is_neg() && hi.lt(&ulp.mul(&Big::from(16)))
        })
    };
    if good(f) || good(&relax(f)) {
        return Ok(());
    }
    let zs = zero_monos(f);
    let mut x = f.expand(&loss);
    x.0.retain(|m, _| !zs.contains(m));
    let (lo, hi) = f.bbound(&unprod(f, &x));
    if !lo.is_neg() && hi.lt(&ulp.mul(&Big::from(16))) {
        return Ok(());
    }
    let loss = unquot(f, &f.expand(&loss));
    let (lo, hi) = f.bbound(&loss);
    dump(f);
    Err(format!("truncated product is off by {}..{} (in units of {}): {}", lo.show(), hi.show(), ulp.show(), bshow(&loss)))
}
/// the scale of the result is the maximum of the given ones
pub fn scale_is_max(s: &Shaped, want: &[Poly]) -> Result<(), String> {
    let mut eq = false;
    for p in want {
        let d = s.fg.sub(p).unwrap();
        let b = s.f.range(&d, (0, INF));
        if b.0 < 0 {
            return Err(format!("result scale may be below the larger operand scale (by {})", -b.0));
        }
        let b = s.f.range(&d, (0, 0));
        if b == (0, 0) {
            eq = true;
        }
    }
    if !eq {
        return Err(format!("result scale {} is not the larger of the operand scales", s.fg.show()));
    }
    Ok(())
}

pub fn show(s: &Sp) -> String {
    let mut r = format!("{}{}.{}", sgn(s.neg), s.iu, s.fu);
    if s.zero {
        r.push_str(" zero");
    }
    if let Some((lo, hi)) = s.ig {
        r.push_str(&format!(" intg {}..{}", lo, hi));
    }
    if let Some((lo, hi)) = s.fg {
        r.push_str(&format!(" frac {}..{}", lo, hi));
    }
    r
}
fn name(b: &Bin) -> String {
    format!("{} lhs {} rhs {}{}{}", b.op.name(), show(&b.l), show(&b.r), b.fsum.map_or(String::new(), |x| format!(" frac sum {}..{}", x.0, x.1)), b.isum.map_or(String::new(), |x| format!(" intg sum {}..{}", x.0, x.1)))
}
fn pairs(op: Op, f: &mut dyn FnMut(Bin)) {
    for (li, lf) in shapes() {
        for (ri, rf) in shapes() {
            for (ln, rn) in [(false, false), (false, true), (true, false), (true, true)] {
                for z in 0..4 {
                    let (mut l, mut r) = (sp(li, lf, ln), sp(ri, rf, rn));
                    l.zero = z & 1 == 1;
                    r.zero = z & 2 == 2;
                    if li + lf == 0 && !l.zero || ri + rf == 0 && !r.zero || l.zero && ln || r.zero && rn {
                        continue;
                    }
                    f(bin(op, &l, &r));
                }
            }
        }
    }
}
/// by integral digit counts: sums that need a group less than the operands have, and the others
fn by_intg(b: &Bin, bs: &mut Vec<Bin>) {
    let base = |u: usize| 9 * (u as i128 - 1);
    for k in 1..=8 {
        let mut c = b.clone();
        c.r.ig = Some((base(b.r.iu) + k, base(b.r.iu) + k));
        c.r.top = true;
        c.l.ig = Some((base(b.l.iu) + 1, base(b.l.iu) + 9 - k));
        c.l.tmax = Some(10i128.pow(9 - k as u32) - 1);
        bs.push(c);
    }
    let mut c = b.clone();
    c.isum = Some((base(b.l.iu) + base(b.r.iu) + 10, 200));
    bs.push(c);
}
pub fn jobs<'tcx>(op: Op, id: &str, tier: Tier) -> Vec<Job<'tcx>> {
    let mut bs: Vec<Bin> = vec![];
    match op {
        Op::Add | Op::Sub => pairs(op, &mut |b| {
            let (l, r) = (&b.l, &b.r);
            if id != "C15" || l.fu + r.fu == 0 {
                bs.push(b);
                return;
            }
            // the lowest group is a multiple of 10^(9 fu - frac): exact larger scale
            let base = |u: usize| 9 * (u as i128 - 1);
            let big = l.fu.max(r.fu);
            for k in 1..=9 {
                let e = base(big) + k;
                let mut c = b.clone();
                c.w.gran = true;
                if l.zero || r.zero {
                    // the other operand is returned; zero result needs nothing
                    if !l.zero && l.fu > 0 {
                        c.l.fg = Some((base(l.fu) + k, base(l.fu) + k));
                        c.l.gran = true;
                    } else if !r.zero && r.fu > 0 {
                        c.r.fg = Some((base(r.fu) + k, base(r.fu) + k));
                        c.r.gran = true;
                    } else {
                        c.w.gran = false;
                        bs.push(c);
                        break;
                    }
                    bs.push(c);
                    continue;
                }
                if l.fu >= r.fu {
                    let mut c = c.clone();
                    c.l.fg = Some((e, e));
                    c.l.gran = true;
                    if l.fu == r.fu {
                        // rhs scale not larger
                        c.r.fg = Some((base(big) + 1, e));
                        c.r.fix = vec![];
                        c.r.gunit = Some(10i128.pow((9 * big as i128 - e) as u32));
                    }
                    bs.push(c);
                }
                if r.fu >= l.fu {
                    let mut c = c.clone();
                    c.r.fg = Some((e, e));
                    c.r.gran = true;
                    if l.fu == r.fu {
                        if k == 1 {
                            continue;
                        }
                        c.l.fg = Some((base(big) + 1, e - 1));
                        c.l.gunit = Some(10i128.pow((9 * big as i128 - e) as u32));
                    }
                    bs.push(c);
                }
            }
        }),
        // the digit and size partitions only serve the exact value
        Op::Mul if id == "C14" || id == "C17" || id == "C22" => pairs(op, &mut |mut b| {
            b.size = false;
            let (li, ri) = (b.l.iu as i128, b.r.iu as i128);
            if id == "C22" && !b.l.zero && !b.r.zero && li > 0 && ri > 0 && li + ri <= 10 && li + ri + (b.l.fu + b.r.fu).min(4) as i128 >= 10 {
                by_intg(&b, &mut bs);
            } else {
                bs.push(b);
            }
        }),
        // exact digit counts of both operands
        Op::Mul if id == "C15" => {
            let mut rot = 0i128;
            pairs(op, &mut |b| {
                let reps = if b.l.zero || b.r.zero { 1 } else if tier == Tier::Quick { 4 } else { 81 };
                for _ in 0..reps {
                    rot += 1;
                    let mut c = b.clone();
                    let mut x = [rot % 9, rot / 9 % 9, rot * 5 / 3 % 9, rot * 4 / 7 % 9].into_iter();
                    for s in [&mut c.l, &mut c.r] {
                        let (a, g) = (x.next().unwrap(), x.next().unwrap());
                        if s.zero {
                            continue;
                        }
                        if s.fu > 0 {
                            let f = 9 * (s.fu as i128 - 1) + 1 + a;
                            s.fg = Some((f, f));
                            s.gran = true;
                        }
                        if s.iu > 0 {
                            let i = 9 * (s.iu as i128 - 1) + 1 + g;
                            s.ig = Some((i, i));
                            s.top = true;
                        }
                    }
                    c.w = Validity { gran: true, top: true };
                    bs.push(c);
                }
            })
        }
        Op::Mul => pairs(op, &mut |b| {
            let (li, ri, lf, rf) = (b.l.iu as i128, b.r.iu as i128, b.l.fu as i128, b.r.fu as i128);
            if b.l.zero || b.r.zero {
                bs.push(b);
                return;
            }
            // size: by integral digit counts; digits: by fractional digit counts
            let base = |u: i128| 9 * (u - 1);
            let split_int = li > 0 && ri > 0 && li + ri <= 10;
            let split_frac = lf > 0 && rf > 0;
            let mut two = |c: Bin| {
                if split_frac {
                    for r in [(2, base(lf) + base(rf) + 9), (base(lf) + base(rf) + 10, 100)] {
                        let mut d = c.clone();
                        d.fsum = Some(r);
                        bs.push(d);
                    }
                } else {
                    bs.push(c);
                }
            };
            if split_int {
                for k in 1..=8 {
                    let mut c = b.clone();
                    c.digits = !split_frac;
                    c.r.ig = Some((base(ri) + k, base(ri) + k));
                    c.r.top = true;
                    c.l.ig = Some((base(li) + 1, base(li) + 9 - k));
                    c.l.tmax = Some(10i128.pow(9 - k as u32) - 1);
                    two(c);
                }
                let mut c = b.clone();
                c.digits = !split_frac;
                c.isum = Some((base(li) + base(ri) + 10, 200));
                two(c);
            }
            let mut two = |c: Bin| {
                if split_int && li + ri + (lf + rf).min(4) > 9 {
                    // the digits kept depend on the integral digit count
                    for r in [(2, base(li) + base(ri) + 9), (base(li) + base(ri) + 10, 200)] {
                        let mut d = c.clone();
                        d.isum = Some(r);
                        bs.push(d);
                    }
                } else {
                    bs.push(c);
                }
            };
            if split_frac {
                // scales whose sum needs a group less than the operands have
                for k in 1..=8 {
                    let mut c = b.clone();
                    c.size = !split_int;
                    c.r.fg = Some((base(rf) + k, base(rf) + k));
                    c.r.gran = true;
                    c.l.fg = Some((base(lf) + 1, base(lf) + 9 - k));
                    c.l.gunit = Some(10i128.pow(k as u32));
                    two(c);
                }
                let mut c = b.clone();
                c.size = !split_int;
                c.fsum = Some((base(lf) + base(rf) + 10, 100));
                two(c);
            }
            if !split_int && !split_frac {
                bs.push(b);
            }
        }),
    }
    if id == "C15" && op != Op::Mul {
        // a rotating sample of the exact scales, and an exact integral digit count
        let step = if tier == Tier::Quick { 5 } else { 1 };
        let mut rot = 0usize;
        bs.retain(|_| {
            rot += 1;
            rot % step == 0
        });
        for (i, b) in bs.iter_mut().enumerate() {
            b.w.top = true;
            for (j, s) in [&mut b.l, &mut b.r].into_iter().enumerate() {
                if s.iu > 0 && !s.zero && s.ig.is_none() {
                    let g = 9 * (s.iu as i128 - 1) + 1 + ((i * 5 + j * 3) % 9) as i128;
                    s.ig = Some((g, g));
                    s.top = true;
                }
            }
        }
    }
    bs.into_iter().map(|b| job(name(&b), move |cx| run(cx, &b))).collect()
}
