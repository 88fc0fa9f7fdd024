//! Parsing (C10, C11) and the round trip through text (C20).
use super::text::{digits, dshow, Dg};
use super::*;
use std::rc::Rc;

const MAX_DIGITS: i128 = 65;
const MAX_FRAC: i128 = 30;
/// bound on the unknown rest of an input
const REST: i128 = 1 << 60;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Via {
    Bytes,
    Ascii,
    FromStr,
}
/// exponent: mark, sign, number of leading zeros, value (None: no digit)
#[derive(Clone)]
pub struct Exp {
    mark: u8,
    sign: Option<u8>,
    zeros: usize,
    val: Option<u32>,
}
impl Exp {
    fn value(&self) -> i128 {
        let v = self.val.unwrap_or(0) as i128;
        if self.sign == Some(b'-') {
            -v
        } else {
            v
        }
    }
}
/// [sign] i digits [.] f digits
#[derive(Clone)]
pub struct Mant {
    sign: Option<u8>,
    i: usize,
    dot: bool,
    f: usize,
}
/// what follows
#[derive(Clone)]
enum Tail {
    End,
    /// a byte in this range, then anything
    Byte(u8, u8),
    /// [e|E, sign], zeros, digit ranges, then perhaps a byte in a range and anything
    Exp(Exp),
    ExpText { mark: u8, sign: Option<u8>, zeros: usize, ds: Vec<(u8, u8)>, bad: Option<(u8, u8)> },
}
#[derive(Clone)]
struct Lit {
    m: Mant,
    t: Tail,
    via: Via,
    reset: bool,
    /// negative literals: all digits zero, or not
    zero: bool,
}
fn chr(b: u8) -> String {
    if b.is_ascii_graphic() {
        (b as char).to_string()
    } else {
        format!("\\x{:02x}", b)
    }
}
fn show(l: &Lit) -> String {
    let mut s = match l.via {
        Via::Bytes => "bytes ",
        Via::Ascii => "text ",
        Via::FromStr => "str ",
    }
    .to_string();
    if l.reset {
        s.push_str("reset ");
    }
    if l.zero {
        s.push_str("zero ");
    }
    if let Some(c) = l.m.sign {
        s.push(c as char);
    }
    s.push_str(&format!("d{{{}}}", l.m.i));
    if l.m.dot {
        s.push_str(&format!(".d{{{}}}", l.m.f));
    }
    match &l.t {
        Tail::End => (),
        Tail::Byte(a, b) => s.push_str(&format!("[{}-{}]...", chr(*a), chr(*b))),
        Tail::Exp(e) => {
            s.push(e.mark as char);
            if let Some(c) = e.sign {
                s.push(c as char);
            }
            for _ in 0..e.zeros {
                s.push('0');
            }
            if let Some(v) = e.val {
                s.push_str(&v.to_string());
            }
        }
        Tail::ExpText { mark, sign, zeros, ds, bad } => {
            s.push(*mark as char);
            if let Some(c) = sign {
                s.push(*c as char);
            }
            for _ in 0..*zeros {
                s.push('0');
            }
            for (a, b) in ds {
                s.push_str(&format!("[{}-{}]", *a, *b));
            }
            if let Some((a, b)) = bad {
                s.push_str(&format!("[{}-{}]...", chr(*a), chr(*b)));
            }
        }
    }
    s
}
struct Text {
    bytes: Vec<Poly>,
    rest: bool,
    int: Vec<Poly>,
    frac: Vec<Poly>,
}
fn text(l: &Lit) -> Text {
    let mut t = Text { bytes: vec![], rest: false, int: vec![], frac: vec![] };
    let ch = |c: u8| Poly::cst(c as i128);
    let any = |n: &str, a: u8, b: u8| if a == b { Poly::cst(a as i128) } else { Poly::var(fresh(n, a as i128, b as i128)) };
    if let Some(c) = l.m.sign {
        t.bytes.push(ch(c));
    }
    for j in 0..l.m.i {
        let d = if l.zero { Poly::cst(0) } else { Poly::var(fresh(&format!("i{}", j), 0, 9)) };
        t.bytes.push(d.addc(48).unwrap());
        t.int.push(d);
    }
    if l.m.dot {
        t.bytes.push(ch(b'.'));
    }
    for j in 0..l.m.f {
        let d = if l.zero { Poly::cst(0) } else { Poly::var(fresh(&format!("f{}", j), 0, 9)) };
        t.bytes.push(d.addc(48).unwrap());
        t.frac.push(d);
    }
    match &l.t {
        Tail::End => (),
        Tail::Byte(a, b) => {
            t.bytes.push(any("byte", *a, *b));
            t.rest = true;
        }
        Tail::Exp(e) => {
            t.bytes.push(ch(e.mark));
            t.bytes.extend(e.sign.map(ch));
            t.bytes.extend((0..e.zeros).map(|_| ch(b'0')));
            if let Some(v) = e.val {
                t.bytes.extend(v.to_string().bytes().map(ch));
            }
        }
        Tail::ExpText { mark, sign, zeros, ds, bad } => {
            t.bytes.push(ch(*mark));
            t.bytes.extend(sign.map(ch));
            t.bytes.extend((0..*zeros).map(|_| ch(b'0')));
            for (a, b) in ds {
                t.bytes.push(any("digit", 48 + *a, 48 + *b));
            }
            if let Some((a, b)) = bad {
                t.bytes.push(any("byte", *a, *b));
                t.rest = true;
            }
        }
    }
    t
}
/// scale and number of digits of a well-formed literal, when within the limits
fn accepted(l: &Lit) -> Option<(i128, i128)> {
    let e = match &l.t {
        Tail::End => 0,
        Tail::Exp(e) => {
            e.val.or(if e.zeros > 0 { Some(0) } else { None })?;
            e.value()
        }
        _ => return None,
    };
    let d = (l.m.i + l.m.f) as i128;
    if d == 0 || d > MAX_DIGITS || e > MAX_DIGITS || e < -MAX_FRAC {
        return None;
    }
    let frac = l.m.f as i128 - e;
    let digits = if frac < 0 { d - frac } else { d.max(frac) };
    if digits > MAX_DIGITS || frac > MAX_FRAC {
        return None;
    }
    Some((frac, digits))
}
fn run(cx: &mut Ctx, l: &Lit) {
    let mut c = cx.case();
    let lay = cx.lay();
    let t = text(l);
    let nonzero = accepted(l).is_some() && l.m.sign == Some(b'-') && !l.zero;
    if nonzero {
        let s = t.int.iter().chain(t.frac.iter()).fold(Poly::cst(0), |a, b| a.add(b).unwrap());
        c.st.facts.assume(&s, 1, INF);
    }
    let mut o = Obj::new(t.bytes.len() as u64);
    for (i, p) in t.bytes.iter().enumerate() {
        o.cells.push(bcell(i as u64, 1, false, mk(p.clone())));
    }
    let mut len = Poly::cst(t.bytes.len() as i128);
    if t.rest {
        len = len.add(&Poly::var(fresh("rest", 0, REST))).unwrap();
        o.bg = Bg::Lazy(1);
        o.len = Some(Rc::new(len.clone()));
    }
    let b = c.obj(o);
    let (dest, before) = if l.reset || accepted(l).is_none() {
        let g = c.garbage("dest");
        let b = out(&c.st, lay, g).ok();
        (g, b)
    } else {
        (c.dec_obj(Val::C(1), Val::C(0), vec![Val::C(0); 9]), None)
    };
    let gv = c.garbage_vars.clone();
    let slice: Blob = [bcell(0, 8, true, Val::Ptr(ObjId::H(b), 0, None)), bcell(8, 8, true, mk(len))].into_iter().collect();
    let mut args = vec![slice, ptr(dest)];
    let entry = match l.via {
        Via::Bytes => "h_parse",
        Via::Ascii => "h_parse_ascii",
        Via::FromStr => "h_parse_fromstr",
    };
    if l.via != Via::FromStr {
        args.push(int(1, l.reset as i128));
    }
    let done = cx.exec(c, entry, args, Some(dest), &no_bad);
    for st in &done {
        let code = match ret_int(st, 8) {
            Ok(x) => x,
            Err(e) => {
                cx.check(Err(e));
                continue;
            }
        };
        match accepted(l) {
            Some((frac, digits)) => {
                if cx.wants("C10") {
                    let x = exact(st, lay, dest, l, &t, frac, digits, code, nonzero);
                    cx.check(x);
                }
                if cx.wants("C15") && code == 0 {
                    let x = valid_obj(st, lay, dest, Validity { gran: true, top: true });
                    cx.check(x);
                }
                if cx.wants("C17") && l.reset {
                    let x = independent(st, lay, dest, &gv);
                    cx.check(x);
                }
            }
            None => {
                if cx.wants("C11") {
                    if code != 3 {
                        cx.check(Err(match code {
                            0 => "accepted".into(),
                            k => format!("error {} instead of a syntax error", k),
                        }));
                    } else if l.via != Via::FromStr {
                        let x = if l.reset { is_zero_obj(st, lay, dest) } else { untouched(st, lay, dest, before.as_ref().unwrap()) };
                        cx.check(x);
                    } else {
                        cx.check(Ok(1));
                    }
                }
                if cx.wants("C15") && l.reset && l.via != Via::FromStr {
                    let x = valid_obj(st, lay, dest, Validity { gran: true, top: true });
                    cx.check(x);
                }
                if cx.wants("C17") && l.reset && l.via != Via::FromStr {
                    let x = independent(st, lay, dest, &gv);
                    cx.check(x);
                }
            }
        }
    }
}
fn exact(st: &State, lay: Layout, dest: u32, l: &Lit, t: &Text, frac: i128, digits: i128, code: i128, nonzero: bool) -> Result<u64, String> {
    if code != 0 {
        return Err(format!("well-formed literal rejected with error {}", code));
    }
    // value of the digits times ten to the exponent
    let mut want = BPoly::zero();
    let all: Vec<&Poly> = t.int.iter().chain(t.frac.iter()).collect();
    for (k, p) in all.iter().rev().enumerate() {
        want.addk(&BPoly::from(p), &Big::pow10((k as i128 - frac + E as i128) as u32));
    }
    if l.m.sign == Some(b'-') {
        want = want.scale(&Big::from(-1));
    }
    let (scale, ig) = (frac.max(0), digits - frac.max(0));
    let o = out(st, lay, dest)?;
    let mut n = 0;
    for s in shaped(&st.facts, &o)? {
        valid(&s, nonzero, Validity { gran: false, top: false })?;
        let e = s.val().sub(&want);
        if !bzero(&s.f, &e) {
            dump(&s.f);
            return Err(format!("parsed value is off by {}", bshow(&s.f.expand(&e))));
        }
        for (what, p, w) in [("scale", &s.fg, scale), ("integral digit count", &s.ig, ig)] {
            if s.f.range(p, (w, w)) != (w, w) {
                return Err(format!("parsed {} is {:?} instead of {}", what, s.f.range(p, (w, w)), w));
            }
        }
        n += 3;
    }
    Ok(n)
}
fn untouched(st: &State, lay: Layout, dest: u32, before: &Out) -> Result<u64, String> {
    let o = out(st, lay, dest)?;
    for (a, b) in [(&o.ig, &before.ig), (&o.fg, &before.fg)].into_iter().chain(o.u.iter().zip(before.u.iter())) {
        if a != b && !bzero(&st.facts, &BPoly::from(&a.sub(b).unwrap())) {
            return Err(format!("destination changed although parsing failed: {} became {}", b.show(), a.show()));
        }
    }
    Ok(11)
}
const SIGNS: [Option<u8>; 3] = [None, Some(b'+'), Some(b'-')];
fn pick(x: &[usize]) -> usize {
    let mut h = 0x9E37_79B9usize;
    for v in x {
        h = (h ^ v).wrapping_mul(0x0100_0000_01b3).rotate_left(23);
    }
    (h ^ (h >> 29)) & 0xffff
}
pub fn jobs<'tcx>(id: &str, tier: Tier) -> Vec<Job<'tcx>> {
    let all = tier == Tier::Thorough;
    let mut v = vec![];
    let (good, bad) = match id {
        "C10" => (true, false),
        "C11" => (false, true),
        _ => (true, true),
    };
    let mut add = |l: Lit| {
        let ok = accepted(&l).is_some();
        if ok && !good || !ok && !bad {
            return;
        }
        v.push(job(format!("parse {}", show(&l)), move |cx: &mut Ctx| run(cx, &l)));
    };
    let mut add3 = |m: &Mant, t: Tail, k: usize| {
        // which entry point and reset mode: all of them in the thorough tier, in turn otherwise
        let ways = [(Via::Bytes, true), (Via::Bytes, false), (Via::FromStr, false), (Via::Ascii, true), (Via::Ascii, false)];
        for (i, (via, reset)) in ways.into_iter().enumerate() {
            if k == usize::MAX || i == k % 5 || all && i < 1 {
                for zero in [false, true] {
                    let l = Lit { m: m.clone(), t: t.clone(), via, reset, zero };
                    if !zero || m.sign == Some(b'-') && accepted(&l).is_some() {
                        add(l);
                    }
                }
            }
        }
    };
    let mut mants = vec![];
    for d in 0..=MAX_DIGITS as usize {
        for f in 0..=d {
            for dot in [false, true] {
                if f > 0 && !dot {
                    continue;
                }
                for sign in SIGNS {
                    mants.push(Mant { sign, i: d - f, dot, f });
                }
            }
        }
    }
    for (k, m) in mants.iter().enumerate() {
        let d = m.i + m.f;
        let h = pick(&[m.i, m.f, m.dot as usize, k % 3]);
        // nothing follows
        add3(m, Tail::End, if d < 3 { usize::MAX } else { h });
        // something that is neither a digit nor continues the literal follows
        let mut bytes: Vec<(u8, u8)> = vec![(0, 42), (44, 44), (47, 47), (58, 68), (70, 100), (102, 255)];
        if !(m.sign.is_none() && d == 0 && !m.dot) {
            bytes.extend([(43, 43), (45, 45)]);
        }
        if m.dot {
            bytes.push((46, 46));
        }
        if d == 0 {
            bytes.extend([(69, 69), (101, 101)]);
        }
        for (j, (a, b)) in bytes.iter().enumerate() {
            if all || d < 2 || (h + j) % 8 == 0 {
                add3(m, Tail::Byte(*a, *b), if d < 2 { usize::MAX } else { h + j });
            }
        }
        if d == MAX_DIGITS as usize {
            // one digit too many
            add3(m, Tail::Byte(48, 57), h);
            if !m.dot {
                for j in 0..3 {
                    let m2 = Mant { dot: true, ..m.clone() };
                    add3(&m2, Tail::Byte(48, 57), h + j);
                }
            }
        }
        if d == 0 {
            continue;
        }
        // exponents
        for e in -MAX_FRAC - 3..=MAX_DIGITS + 3 {
            let x = pick(&[m.i, m.f, m.dot as usize, k % 3, (e + 100) as usize]);
            let edge = {
                // near a limit of the result
                let frac = m.f as i128 - e;
                let dg = if frac < 0 { d as i128 - frac } else { (d as i128).max(frac) };
                (dg - MAX_DIGITS).abs() <= 1 || (frac - MAX_FRAC).abs() <= 1
            };
            if !all && x % if edge { 6 } else { 40 } != 0 && !(d <= 2 && x % 6 == 0) {
                continue;
            }
            let y = x / 7;
            let sign = if e < 0 { Some(b'-') } else { [None, Some(b'+')][y % 2] };
            let zeros = [0, 0, 1, 2, 7][y / 2 % 5];
            add3(m, Tail::Exp(Exp { mark: [b'e', b'E'][y / 10 % 2], sign, zeros, val: Some(e.unsigned_abs() as u32) }), x);
        }
        if all && (d % 8 == 1 || h % 16 == 0) || d == 1 || h % 256 == 0 {
            // malformed or huge exponents
            for mark in [b'e', b'E'] {
                for sign in SIGNS {
                    let t = |zeros: usize, ds: Vec<(u8, u8)>, bad: Option<(u8, u8)>| Tail::ExpText { mark, sign, zeros, ds, bad };
                    let k = if d == 1 { usize::MAX } else { h };
                    add3(m, t(0, vec![], None), k);
                    for zeros in [0, 1, 2, 5] {
                        for n in 0..3 {
                            let mut ds = vec![];
                            for i in 0..n {
                                ds.push(((i == 0) as u8, 9));
                            }
                            let mut bs = vec![(0, 42), (44, 44), (46, 47), (58, 255)];
                            if !(sign.is_none() && zeros == 0 && n == 0) {
                                bs.extend([(43, 43), (45, 45)]);
                            }
                            for b in bs {
                                add3(m, t(zeros, ds.clone(), Some(b)), h);
                            }
                        }
                        let d3 = vec![(1, 9), (0, 9), (0, 9)];
                        add3(m, t(zeros, d3.clone(), None), h);
                        add3(m, t(zeros, d3.clone(), Some((0, 255))), h);
                        let two: Vec<Vec<(u8, u8)>> = if sign == Some(b'-') { vec![vec![(4, 9), (0, 9)], vec![(3, 3), (1, 9)]] } else { vec![vec![(7, 9), (0, 9)], vec![(6, 6), (6, 9)]] };
                        for w in two {
                            add3(m, t(zeros, w, None), h);
                        }
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- round trip

fn trip(cx: &mut Ctx, g: &Dg) {
    let mut c = cx.case();
    let lay = cx.lay();
    let (d, _, _) = digits(&mut c, g);
    let dest = c.garbage("dest");
    let done = cx.exec(c, "h_roundtrip", vec![ptr(d.obj), ptr(dest)], Some(dest), &no_bad);
    for st in &done {
        let x = ret_int(st, 8).and_then(|code| {
            if code != 0 {
                return Err(format!("the rendered text is rejected with error {}", code));
            }
            let o = out(st, lay, dest)?;
            let mut n = 0;
            for s in shaped(&st.facts, &o)? {
                valid(&s, g.neg, Validity { gran: false, top: false })?;
                let e = s.val().sub(&d.val());
                if !bzero(&s.f, &e) {
                    dump(&s.f);
                    return Err(format!("value changed by {} on the way through text", bshow(&s.f.expand(&e))));
                }
                let w = g.f as i128;
                if s.f.range(&s.fg, (w, w)) != (w, w) {
                    return Err(format!("scale changed from {} to {:?}", w, s.f.range(&s.fg, (w, w))));
                }
                n += 2;
            }
            Ok(n)
        });
        if cx.wants("C20") {
            cx.check(x);
        }
    }
}
pub fn trip_jobs<'tcx>(tier: Tier) -> Vec<Job<'tcx>> {
    let mut v = vec![];
    for (iu, fu) in shapes() {
        let fs: Vec<usize> = if fu == 0 { vec![0] } else { (9 * fu - 8..=9 * fu).collect() };
        for f in fs {
            for lead in 0..=9 * iu {
                if f as i128 > MAX_FRAC || lead.max(1) + f > MAX_DIGITS as usize {
                    continue;
                }
                let limit = lead.max(1) + f + 1 >= MAX_DIGITS as usize;
                for neg in [false, true] {
                    if neg && lead == 0 && f == 0 {
                        continue;
                    }
                    let g = Dg { neg, iu, f, lead };
                    let full_l = lead == 0 || lead + 1 == 9 * iu;
                    let full_f = f % 9 == 0 || f % 9 == 4;
                    if tier == Tier::Thorough || full_l || limit || full_f && neg == (lead % 2 == 0) {
                        v.push(job(format!("round trip {}", dshow(&g)), move |cx: &mut Ctx| trip(cx, &g)));
                    }
                }
            }
        }
    }
    v
}
