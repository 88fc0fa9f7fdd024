//! Entry points for the analysis: each calls public operations of the analysed crate.
//! Never executed; only its MIR is read.
use fxd::{Error, FixedDecimal};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn code(r: Result<(), Error>) -> usize {
    match r {
        Ok(()) => 0,
        Err(Error::Overflow) => 1,
        Err(Error::DivisionByZero) => 2,
        Err(Error::ConversionSyntax) => 3,
        Err(Error::ExceedsConversionTargetRange) => 4,
    }
}
fn ord(o: Ordering) -> isize {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
/// layout witness
pub fn h_layout(_: FixedDecimal) {}

pub fn h_add(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) -> usize {
    code(FixedDecimal::add_to(l, r, res))
}
pub fn h_sub(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) -> usize {
    code(FixedDecimal::sub_to(l, r, res))
}
pub fn h_mul(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) -> usize {
    code(FixedDecimal::mul_to(l, r, res))
}
pub fn h_div(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal, incr: usize) -> usize {
    code(FixedDecimal::div_to(l, r, res, incr))
}
pub fn h_rem(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) -> usize {
    code(FixedDecimal::rem_to(l, r, res))
}
pub fn h_cmp(l: &FixedDecimal, r: &FixedDecimal) -> isize {
    ord(l.cmp(r))
}
pub fn h_eq(l: &FixedDecimal, r: &FixedDecimal) -> usize {
    (l == r) as usize
}
pub fn h_pcmp(l: &FixedDecimal, r: &FixedDecimal) -> isize {
    match l.partial_cmp(r) {
        Some(o) => ord(o),
        None => 9,
    }
}
pub fn h_lt(l: &FixedDecimal, r: &FixedDecimal) -> usize {
    (l < r) as usize
}
pub fn h_le(l: &FixedDecimal, r: &FixedDecimal) -> usize {
    (l <= r) as usize
}
pub fn h_gt(l: &FixedDecimal, r: &FixedDecimal) -> usize {
    (l > r) as usize
}
pub fn h_ge(l: &FixedDecimal, r: &FixedDecimal) -> usize {
    (l >= r) as usize
}
pub fn h_ne(l: &FixedDecimal, r: &FixedDecimal) -> usize {
    (l != r) as usize
}
pub fn h_round(d: &mut FixedDecimal, frac: isize) {
    d.round(frac)
}
pub fn h_round_to(d: &FixedDecimal, res: &mut FixedDecimal, frac: isize) {
    d.round_to(res, frac)
}
pub fn h_from_i64(v: i64, res: &mut FixedDecimal) {
    *res = FixedDecimal::from(v);
}
pub fn h_from_u64(v: u64, res: &mut FixedDecimal) {
    *res = FixedDecimal::from(v);
}
pub fn h_as_i64(d: &FixedDecimal, out: &mut i64) -> usize {
    match d.as_i64() {
        Ok(x) => {
            *out = x;
            0
        }
        Err(e) => code(Err(e)),
    }
}
pub fn h_as_u64(d: &FixedDecimal, out: &mut u64) -> usize {
    match d.as_u64() {
        Ok(x) => {
            *out = x;
            0
        }
        Err(e) => code(Err(e)),
    }
}
pub struct Rec {
    pub n: usize,
    pub w: [u64; 64],
    pub k: [usize; 64],
}
impl Rec {
    fn put(&mut self, k: usize, v: u64) {
        if self.n < 64 {
            self.k[self.n] = k;
            self.w[self.n] = v;
        }
        self.n += 1;
    }
}
/// records everything a decimal feeds to a hasher
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            self.put(1, bytes[i] as u64);
            i += 1;
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.put(2, i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.put(3, i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.put(4, i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(5, i)
    }
    fn write_u128(&mut self, i: u128) {
        self.put(6, (i >> 64) as u64);
        self.put(6, i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(7, i as u64)
    }
    fn write_i8(&mut self, i: i8) {
        self.put(8, i as i64 as u64)
    }
    fn write_i16(&mut self, i: i16) {
        self.put(9, i as i64 as u64)
    }
    fn write_i32(&mut self, i: i32) {
        self.put(10, i as i64 as u64)
    }
    fn write_i64(&mut self, i: i64) {
        self.put(11, i as u64)
    }
    fn write_i128(&mut self, i: i128) {
        self.put(12, (i >> 64) as u64);
        self.put(12, i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.put(13, i as i64 as u64)
    }
}
pub fn h_hash(d: &FixedDecimal, r: &mut Rec) {
    d.hash(r)
}
/// both decimals have the same value
pub fn h_hash2(a: &FixedDecimal, b: &FixedDecimal, r: &mut Rec, s: &mut Rec) {
    a.hash(r);
    b.hash(s)
}
#[repr(C)]
pub struct Buf {
    pub p: *const u8,
    pub len: usize,
}
/// appends to a buffer given by its parts
pub fn h_append(d: &FixedDecimal, p: *mut u8, len: usize, cap: usize, frac: isize, out: &mut Buf) {
    let mut v = std::mem::ManuallyDrop::new(unsafe { Vec::from_raw_parts(p, len, cap) });
    d.append_str_buf(&mut v, frac);
    out.p = v.as_ptr();
    out.len = v.len();
}
pub fn h_to_string(d: &FixedDecimal, frac: isize, out: &mut Buf) {
    let s = std::mem::ManuallyDrop::new(d.to_string(frac));
    out.p = s.as_ptr();
    out.len = s.len();
}
pub fn h_parse(bs: &[u8], d: &mut FixedDecimal, reset: bool) -> usize {
    code(d.from_bytes_str(bs, reset))
}
pub fn h_parse_ascii(s: &str, d: &mut FixedDecimal, reset: bool) -> usize {
    code(d.from_ascii_str(s, reset))
}
pub fn h_parse_fromstr(s: &str, d: &mut FixedDecimal) -> usize {
    match s.parse::<FixedDecimal>() {
        Ok(x) => {
            *d = x;
            0
        }
        Err(e) => code(Err(e)),
    }
}
/// renders all digits and parses the text
pub fn h_roundtrip(d: &FixedDecimal, res: &mut FixedDecimal) -> usize {
    match d.to_string(-1).parse::<FixedDecimal>() {
        Ok(x) => {
            *res = x;
            0
        }
        Err(e) => code(Err(e)),
    }
}
pub fn h_zero(d: &mut FixedDecimal) {
    *d = FixedDecimal::zero()
}
pub fn h_one(d: &mut FixedDecimal) {
    *d = FixedDecimal::one()
}
pub fn h_set_zero(d: &mut FixedDecimal) {
    d.set_zero()
}
pub fn h_set_one(d: &mut FixedDecimal) {
    d.set_one()
}
pub fn h_set_neg(d: &mut FixedDecimal) {
    d.set_neg()
}
pub fn h_set_pos(d: &mut FixedDecimal) {
    d.set_pos()
}
pub fn h_is_zero(d: &FixedDecimal) -> usize {
    d.is_zero() as usize
}
pub fn h_is_neg(d: &FixedDecimal) -> usize {
    d.is_neg() as usize
}
pub fn h_intg(d: &FixedDecimal) -> isize {
    d.intg() as isize
}
pub fn h_frac(d: &FixedDecimal) -> isize {
    d.frac() as isize
}
pub fn h_intg_units(d: &FixedDecimal) -> usize {
    d.intg_units()
}
pub fn h_frac_units(d: &FixedDecimal) -> usize {
    d.frac_units()
}
pub fn h_clone(d: &FixedDecimal, res: &mut FixedDecimal) {
    *res = d.clone()
}
pub fn h_op_add(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) {
    *res = l.clone() + r.clone()
}
pub fn h_op_sub(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) {
    *res = l.clone() - r.clone()
}
pub fn h_op_mul(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) {
    *res = l.clone() * r.clone()
}
pub fn h_op_div(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) {
    *res = l.clone() / r.clone()
}
pub fn h_op_rem(l: &FixedDecimal, r: &FixedDecimal, res: &mut FixedDecimal) {
    *res = l.clone() % r.clone()
}
pub fn h_both_add(l: &FixedDecimal, r: &FixedDecimal, a: &mut FixedDecimal, b: &mut FixedDecimal, c: &mut usize) {
    *c = code(FixedDecimal::add_to(l, r, a));
    *b = l.clone() + r.clone();
}
pub fn h_both_sub(l: &FixedDecimal, r: &FixedDecimal, a: &mut FixedDecimal, b: &mut FixedDecimal, c: &mut usize) {
    *c = code(FixedDecimal::sub_to(l, r, a));
    *b = l.clone() - r.clone();
}
pub fn h_both_mul(l: &FixedDecimal, r: &FixedDecimal, a: &mut FixedDecimal, b: &mut FixedDecimal, c: &mut usize) {
    *c = code(FixedDecimal::mul_to(l, r, a));
    *b = l.clone() * r.clone();
}
pub fn h_both_div(l: &FixedDecimal, r: &FixedDecimal, a: &mut FixedDecimal, b: &mut FixedDecimal, c: &mut usize) {
    *c = code(FixedDecimal::div_to(l, r, a, 4));
    *b = l.clone() / r.clone();
}
pub fn h_both_rem(l: &FixedDecimal, r: &FixedDecimal, a: &mut FixedDecimal, b: &mut FixedDecimal, c: &mut usize) {
    *c = code(FixedDecimal::rem_to(l, r, a));
    *b = l.clone() % r.clone();
}
