//! Fork-based worker pool: jobs are taken from a shared counter, results are written as text.
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

static PAGE: AtomicUsize = AtomicUsize::new(0);
static START: OnceLock<Instant> = OnceLock::new();
/// once a case has failed the others get this long
const GRACE: u64 = 40;

fn word(i: usize) -> Option<&'static AtomicU64> {
    let p = PAGE.load(Ordering::Relaxed);
    if p == 0 {
        None
    } else {
        Some(unsafe { &*((p + 8 * i) as *const AtomicU64) })
    }
}
/// a case failed long enough ago: what is left would only repeat it
pub fn stop() -> bool {
    word(1).map_or(false, |w| {
        let t = w.load(Ordering::Relaxed);
        t != 0 && START.get().map_or(false, |s| s.elapsed().as_secs() >= t)
    })
}
/// longest time for one case
const CASE: u64 = 240;
static CASE_START: AtomicU64 = AtomicU64::new(0);
pub fn expired() -> bool {
    START.get().map_or(false, |s| s.elapsed().as_secs() >= CASE_START.load(Ordering::Relaxed) + CASE) || stop()
}
fn note_failure() {
    if std::env::var("ABS_TIMES").is_ok() {
        return;
    }
    if let (Some(w), Some(s)) = (word(1), START.get()) {
        let _ = w.compare_exchange(0, s.elapsed().as_secs() + GRACE, Ordering::SeqCst, Ordering::SeqCst);
    }
}

/// run `n` jobs on `w` forked workers; returns the lines each job produced (None: worker died)
pub fn run(n: usize, w: usize, f: &mut dyn FnMut(usize) -> (String, bool)) -> Vec<Option<String>> {
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    let ctr = unsafe { &*(p as *const AtomicU64) };
    ctr.store(0, Ordering::SeqCst);
    PAGE.store(p as usize, Ordering::SeqCst);
    START.get_or_init(Instant::now);
    let dir = std::env::temp_dir().join(format!("absint-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut pids = vec![];
    std::io::stdout().flush().ok();
    for k in 0..w {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            let mut out = std::fs::File::create(dir.join(format!("{}", k))).unwrap();
            loop {
                let i = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                if i >= n || stop() {
                    break;
                }
                if let Ok(d) = std::env::var("ABS_PROGRESS") {
                    std::fs::write(format!("{}.{}", d, k), i.to_string()).ok();
                }
                CASE_START.store(START.get().unwrap().elapsed().as_secs(), Ordering::Relaxed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
                let s = match r {
                    Ok((_, _)) if stop() => "A".to_string(),
                    Ok((s, bad)) => {
                        if bad {
                            note_failure();
                        }
                        s
                    }
                    Err(_) => {
                        note_failure();
                        "FAIL\tanalysis\tinternal error of the analyser".to_string()
                    }
                };
                let s = s.replace('\u{1}', " ");
                out.write_all(format!("{}\u{1}{}\u{2}", i, s).as_bytes()).unwrap();
            }
            out.flush().ok();
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
    }
    let mut res: Vec<Option<String>> = (0..n).map(|_| None).collect();
    for k in 0..w {
        let p = dir.join(format!("{}", k));
        let s = String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).to_string();
        for part in s.split('\u{2}') {
            if let Some((i, t)) = part.split_once('\u{1}') {
                res[i.parse::<usize>().unwrap()] = Some(t.to_string());
            }
        }
        std::fs::remove_file(&p).ok();
    }
    std::fs::remove_dir(&dir).ok();
    res
}
