//! Properties: analysis cases and the post-conditions checked on every abstract final state.
use crate::dom::*;
use crate::interp::*;
use crate::lower::Lower;
use crate::mem::*;
use crate::pool;
use crate::poly::*;
use crate::spec::*;
use rustc_middle::ty::TyCtxt;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub struct Fail {
    pub what: String,
    pub span: String,
    pub func: String,
    pub trace: Vec<String>,
}
#[derive(Default)]
pub struct Rep {
    pub obl: u64,
    pub fails: Vec<Fail>,
    pub steps: u64,
    pub joins: u64,
    pub states: u64,
    pub cov: BTreeMap<String, (usize, BTreeSet<u32>)>,
    pub notes: Vec<String>,
}
pub struct Ctx<'a, 'tcx> {
    pub lw: &'a mut Lower<'tcx>,
    pub ent: &'a Entries<'tcx>,
    pub rep: Rep,
    pub tier: Tier,
    pub debug: bool,
    pub anchor: (String, String),
    pub prop: String,
    /// functions treated as unknown functions of their arguments
    pub uf: Vec<u32>,
    pub max_bad: usize,
    /// variables kept apart once determined
    pub norm: Vec<Var>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Job<'tcx> {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx<'_, 'tcx>) + 'tcx>,
}
pub fn job<'tcx>(name: String, f: impl Fn(&mut Ctx<'_, 'tcx>) + 'static) -> Job<'tcx> {
    Job { name, run: Box::new(f) }
}

impl<'a, 'tcx> Ctx<'a, 'tcx> {
    pub fn lay(&self) -> Layout {
        self.ent.lay
    }
    pub fn case(&self) -> Case<'tcx> {
        Case::new(self.ent.lay)
    }
    pub fn wants(&self, id: &str) -> bool {
        self.prop == id
    }
    pub fn fail(&mut self, what: String) {
        let (span, func) = self.anchor.clone();
        self.rep.fails.push(Fail { what, span, func, trace: vec![] });
    }
    /// run one entry point; abnormal ends are failures unless `allow` accepts them
    pub fn exec(&mut self, c: Case<'tcx>, entry: &str, args: Vec<Blob>, watch: Option<u32>, allow: &dyn Fn(&Bad<'tcx>) -> bool) -> Vec<State<'tcx>> {
        let Some(inst) = self.ent.map.get(entry) else {
            self.fail(format!("entry point {} missing", entry));
            return vec![];
        };
        let fid = self.lw.inst(*inst);
        let mut ip = Interp::new(self.lw);
        ip.debug = self.debug;
        ip.limit = 40_000_000;
        ip.watch = watch;
        ip.max_bad = self.max_bad;
        ip.norm = self.norm.clone();
        ip.uf = self.uf.iter().cloned().collect();
        if self.prop == "C17" {
            ip.secret = c.garbage_vars.clone();
        }
        if self.prop == "C18" {
            // operands the entry point takes by shared reference
            let tcx = ip.lw.tcx;
            let sig = tcx.fn_sig(inst.def_id()).instantiate_identity().skip_norm_wip().skip_binder();
            for (t, a) in sig.inputs().iter().zip(&args) {
                if let (rustc_middle::ty::Ref(_, _, m), Some(Val::Ptr(ObjId::H(h), ..))) = (t.kind(), a.first().map(|c| c.v.clone())) {
                    if m.is_not() {
                        ip.ro.push(h);
                        self.rep.obl += 1;
                    }
                }
            }
        }
        let r = ip.start(c.st, fid, args, 0);
        let (done, bad, cov) = (std::mem::take(&mut ip.done), std::mem::take(&mut ip.bad), std::mem::take(&mut ip.cov));
        self.rep.steps += ip.steps;
        self.rep.joins += ip.joins;
        self.rep.states += done.len() as u64;
        let (ip_wr, ip_fn) = ip.writes();
        drop(ip);
        let mut reached: Vec<u32> = cov.keys().cloned().collect();
        reached.sort();
        for (f, bs) in cov {
            let (name, n) = match self.lw.func(f) {
                Ok(f) => (f.name.clone(), f.blocks.len()),
                Err(_) => continue,
            };
            let e = self.rep.cov.entry(name).or_insert((n, BTreeSet::new()));
            e.1.extend(bs);
        }
        self.anchor = (ip_wr, ip_fn);
        if self.anchor.1.is_empty() {
            // nothing watched was written: the functions of the crate that were reached
            let (mut sp, mut fs) = (vec![], vec![]);
            for f in reached {
                if let Ok(f) = self.lw.func(f) {
                    if f.in_target && !f.name.starts_with("h_") && fs.len() < 5 {
                        let sm = self.lw.tcx.sess.source_map();
                        let l = sm.lookup_char_pos(self.lw.tcx.def_span(f.inst.def_id()).lo());
                        sp.push(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line));
                        fs.push(f.name.clone());
                    }
                }
            }
            self.anchor = (sp.join(" "), fs.join(", "));
        }
        if let Err(Stop::Bad(_, m)) = r {
            self.fail(m);
        }
        if done.is_empty() && bad.is_empty() {
            self.fail("no outcome: the analysed function never returns in this case".into());
        }
        for b in bad {
            if allow(&b) {
                self.rep.obl += 1;
                continue;
            }
            let k = match b.kind {
                Kind::Panic => "may panic",
                Kind::Ub => "undefined behaviour",
                Kind::Unsup => "not analysable",
                Kind::Dep => "dependence",
            };
            self.rep.fails.push(Fail { what: format!("{}: {}", k, b.msg), span: b.span.clone(), func: b.func.clone(), trace: b.trace.clone() });
        }
        done
    }
    pub fn check(&mut self, r: Result<u64, String>) {
        match r {
            Ok(n) => self.rep.obl += n,
            Err(e) => {
                self.rep.obl += 1;
                self.fail(e)
            }
        }
    }
}
pub fn ret_int(st: &State, size: u8) -> Result<i128, String> {
    match st.heap[0].as_ref().and_then(|o| o.get(0, size)).map(|c| c.v.clone()) {
        Some(Val::C(x)) => Ok(x),
        x => Err(format!("return value not determined: {:?}", x)),
    }
}
pub use effects::RO;
pub fn no_bad(_: &Bad) -> bool {
    false
}
pub fn sgn(n: bool) -> &'static str {
    if n {
        "-"
    } else {
        "+"
    }
}

mod arith;
mod basic;
mod divs;
mod effects;
mod opers;
mod parse;
mod round;
mod text;

pub fn jobs<'tcx>(id: &str, tier: Tier) -> Vec<Job<'tcx>> {
    match id {
        "C01" => arith::jobs(arith::Op::Add, id, tier),
        "C02" => arith::jobs(arith::Op::Sub, id, tier),
        "C03" => arith::jobs(arith::Op::Mul, id, tier),
        "C04" => divs::jobs(divs::Op::Div, id, tier),
        "C05" => divs::jobs(divs::Op::Rem, id, tier),
        "C07" => basic::cmp_jobs(id),
        "C08" => basic::hash_jobs(id),
        "C12" => basic::from_jobs(id),
        "C06" => round::jobs(id, tier),
        "C13" => round::as_int_jobs(id),
        "C09" | "C19" => text::jobs(id, tier),
        "C10" | "C11" => parse::jobs(id, tier),
        "C20" => parse::trip_jobs(tier),
        "C16" => opers::jobs(id),
        "C21" => basic::basic_jobs(id),
        "C14" => {
            let mut v = vec![];
            for op in [arith::Op::Add, arith::Op::Sub, arith::Op::Mul] {
                v.extend(arith::jobs(op, id, tier));
            }
            v.extend(round::jobs(id, tier));
            v.extend(round::as_int_jobs(id));
            v.extend(basic::cmp_jobs(id));
            v.extend(basic::hash_jobs(id));
            v.extend(basic::from_jobs(id));
            v.extend(basic::basic_jobs(id));
            v.extend(text::jobs(id, tier));
            v.extend(parse::jobs(id, tier));
            v.extend(divs::jobs(divs::Op::Div, id, tier));
            v.extend(divs::jobs(divs::Op::Rem, id, tier));
            v
        }
        "C15" | "C17" => {
            let mut v = vec![];
            for op in [arith::Op::Add, arith::Op::Sub, arith::Op::Mul] {
                v.extend(arith::jobs(op, id, tier));
            }
            v.extend(round::jobs(id, tier));
            v.extend(basic::from_jobs(id));
            v.extend(basic::basic_jobs(id));
            v.extend(parse::jobs(id, tier));
            v.extend(divs::jobs(divs::Op::Div, id, tier));
            v.extend(divs::jobs(divs::Op::Rem, id, tier));
            v
        }
        "C22" => {
            let mut v = vec![];
            for op in [arith::Op::Add, arith::Op::Sub, arith::Op::Mul] {
                v.extend(arith::jobs(op, id, tier));
            }
            v.extend(divs::jobs(divs::Op::Div, id, tier));
            v.extend(divs::jobs(divs::Op::Rem, id, tier));
            v
        }
        "C18" => effects::jobs(tier),
        "none" => vec![],
        _ => panic!("unknown property"),
    }
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r
}

pub fn main<'tcx>(tcx: TyCtxt<'tcx>, id: &str) -> i32 {
    let t0 = Instant::now();
    let tier = if std::env::var("ABS_TIER").map_or(false, |x| x == "thorough") { Tier::Thorough } else { Tier::Quick };
    let out = std::env::var("ABS_OUT").expect("ABS_OUT");
    let debug = std::env::var("ABS_DEBUG").is_ok();
    let filter = std::env::var("ABS_FILTER").ok();
    let workers = std::env::var("ABS_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let mut lw = Lower::new(tcx, "/repo/src");
    let ent = entries(tcx, &lw);
    let mut js = jobs(id, tier);
    if let Some(f) = &filter {
        let fs: Vec<&str> = f.split('|').collect();
        js.retain(|j| fs.iter().any(|f| j.name.contains(f)));
    }
    if std::env::var("ABS_LIST").is_ok() {
        for j in &js {
            eprintln!("{}", j.name);
        }
        js.clear();
    }
    let n = js.len();
    let res = pool::run(n, workers, &mut |i| {
        let t = Instant::now();
        let mut cx = Ctx { lw: &mut lw, ent: &ent, rep: Rep::default(), tier, debug, anchor: (String::new(), String::new()), prop: id.to_string(), uf: vec![], max_bad: 3, norm: vec![] };
        (js[i].run)(&mut cx);
        let r = cx.rep;
        if std::env::var("ABS_TIMES").is_ok() {
            eprintln!("T {:.1} {} {} :: {}", t.elapsed().as_secs_f64(), r.obl, r.fails.len(), js[i].name);
        }
        let mut s = format!("S\t{}\t{}\t{}\t{}\t{}\n", r.obl, r.steps, r.joins, r.states, t.elapsed().as_micros());
        for f in &r.fails {
            s.push_str(&format!("F\t{}\t{}\t{}\t{}\n", f.what.replace(['\n', '\t'], " "), f.span, f.func, f.trace.join(" <- ").replace(['\n', '\t'], " ")));
        }
        for n in &r.notes {
            s.push_str(&format!("N\t{}\n", n));
        }
        for (n, (k, b)) in &r.cov {
            s.push_str(&format!("C\t{}\t{}\t{}\n", n, k, b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        }
        (s, !r.fails.is_empty())
    });
    let abandoned = pool::stop();
    let mut skipped = 0u64;
    let (mut obl, mut steps, mut joins, mut states) = (0u64, 0u64, 0u64, 0u64);
    let mut fails: Vec<(String, String, String, String, String)> = vec![];
    let mut cov: BTreeMap<String, (usize, BTreeSet<u32>)> = BTreeMap::new();
    let mut times: Vec<(u64, String)> = vec![];
    let mut notes: BTreeSet<String> = BTreeSet::new();
    for (i, r) in res.iter().enumerate() {
        let name = &js[i].name;
        let Some(r) = r else {
            if abandoned {
                skipped += 1;
                continue;
            }
            fails.push((name.clone(), "analysis worker died".into(), String::new(), String::new(), String::new()));
            continue;
        };
        for l in r.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "S" => {
                    obl += p[1].parse::<u64>().unwrap();
                    steps += p[2].parse::<u64>().unwrap();
                    joins += p[3].parse::<u64>().unwrap();
                    states += p[4].parse::<u64>().unwrap();
                    times.push((p[5].parse().unwrap(), name.clone()));
                }
                "A" => skipped += 1,
                "N" => {
                    notes.insert(p[1].to_string());
                }
                "F" => fails.push((name.clone(), p[1].into(), p[2].into(), p[3].into(), p[4].into())),
                "C" => {
                    let e = cov.entry(p[1].into()).or_insert((p[2].parse().unwrap(), BTreeSet::new()));
                    e.1.extend(p[3].split(',').map(|x| x.parse::<u32>().unwrap()));
                }
                _ => fails.push((name.clone(), l.replace('\t', " "), String::new(), String::new(), String::new())),
            }
        }
    }
    times.sort();
    times.reverse();
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": \"{}\", \"tier\": \"{}\", \"jobs\": {}, \"skipped\": {}, \"obligations\": {}, \"steps\": {}, \"joins\": {}, \"states\": {}, \"wall_ms\": {},\n", id, if tier == Tier::Quick { "quick" } else { "thorough" }, n, skipped, obl, steps, joins, states, t0.elapsed().as_millis()));
    s.push_str(" \"functions\": [");
    s.push_str(&cov.iter().map(|(n, (k, b))| format!("[\"{}\", {}, {}]", esc(n), b.len(), k)).collect::<Vec<_>>().join(", "));
    s.push_str("],\n \"job_names\": [");
    s.push_str(&js.iter().map(|j| format!("\"{}\"", esc(&j.name))).collect::<Vec<_>>().join(", "));
    s.push_str("],\n \"slow\": [");
    s.push_str(&times.iter().take(5).map(|(t, n)| format!("[{}, \"{}\"]", t, esc(n))).collect::<Vec<_>>().join(", "));
    s.push_str("],\n \"notes\": [");
    s.push_str(&notes.iter().take(60).map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(", "));
    s.push_str(&format!("],\n \"nfails\": {},\n \"fails\": [\n", fails.len()));
    s.push_str(
        &fails
            .iter()
            .take(200)
            .map(|(j, w, sp, f, t)| format!("  {{\"case\": \"{}\", \"what\": \"{}\", \"span\": \"{}\", \"function\": \"{}\", \"trace\": \"{}\"}}", esc(j), esc(w), esc(sp), esc(f), esc(t)))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n ]\n}\n");
    std::fs::write(&out, s).expect("write verdict");
    0
}
