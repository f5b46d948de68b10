//! The workload runner: cases on worker threads, panic attribution, CPU watchdog, crash breadcrumbs,
//! and counters of what the monitors actually observed.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub buckets: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, (f64, String)>,
    pub samples: Vec<String>,
}

impl Rec {
    /// One oracle evaluation on a state identified by these numbers.
    pub fn hit(&mut self, key: &[f64]) {
        self.evals += 1;
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for k in key {
            h = (h ^ k.to_bits()).wrapping_mul(0x0000_0100_0000_01B3);
            h ^= h >> 29;
        }
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn count(&mut self, b: &str) {
        self.add(b, 1);
    }
    pub fn add(&mut self, b: &str, n: u64) {
        match self.buckets.get_mut(b) {
            Some(v) => *v += n,
            None => {
                self.buckets.insert(b.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, v: f64, what: impl FnOnce() -> String) {
        match self.maxima.get_mut(name) {
            Some(m) if !(v > m.0) => {}
            Some(m) => *m = (v, what()),
            None => {
                self.maxima.insert(name.to_string(), (v, what()));
            }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let t = s();
            self.samples.push(t);
        }
    }
    fn merge(&mut self, o: Rec) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.buckets {
            *self.buckets.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            match self.maxima.get(&k) {
                Some(m) if !(v.0 > m.0) => {}
                _ => {
                    self.maxima.insert(k, v);
                }
            }
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Cx<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub rec: &'a mut Rec,
    pub thorough: bool,
    pub seed: u64,
}

pub type CaseFn = fn(&mut Cx) -> Result<(), String>;

pub struct Spec {
    pub id: &'static str,
    pub case: CaseFn,
    /// (quick, thorough)
    pub cases: (u64, u64),
    pub rule: &'static str,
    /// Buckets that must have been seen at least this often (scaled by cases run / cases planned).
    pub need: &'static [(&'static str, u64)],
    /// CPU seconds one case may use before the call under test counts as not returning.
    pub cpu_limit: f64,
}

thread_local! {
    static PANIC_AT: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn cpu(clock: i32) -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    // SAFETY: plain POSIX call on a valid out pointer.
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return f64::NAN;
    }
    t.s as f64 + t.n as f64 * 1e-9
}

/// CPU seconds the current thread has used.
pub fn own_cpu() -> f64 {
    cpu(3)
}

fn crumbs(path: Option<&str>) -> &'static [AtomicU64; 512] {
    static FALLBACK: [AtomicU64; 512] = [const { AtomicU64::new(0) }; 512];
    let Some(p) = path else { return &FALLBACK };
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p) else {
        return &FALLBACK;
    };
    if f.set_len(4096).is_err() {
        return &FALLBACK;
    }
    // SAFETY: a fresh shared mapping of a 4096-byte file, kept for the life of the process.
    let m = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    if m as isize == -1 {
        return &FALLBACK;
    }
    unsafe { &*(m as *const [AtomicU64; 512]) }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub json: Option<String>,
    pub crumb: Option<String>,
    pub only: Option<u64>,
    pub scale: f64,
    pub wall: f64,
}

fn run_case(spec: &Spec, o: &Opts, idx: u64, rec: &mut Rec) -> Result<(), (u8, String)> {
    let mut cx = Cx { rng: Rng::new(o.seed, spec.id, idx), idx, rec, thorough: o.thorough, seed: o.seed };
    PANIC_AT.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (spec.case)(&mut cx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err((1, m)),
        Err(_) => {
            let (file, msg) = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if file.contains("harness/src") || file.is_empty() || file.starts_with("src/") {
                Err((2, format!("harness panic at {file}: {msg}")))
            } else {
                Err((1, format!("the library panicked at {file}: {msg}")))
            }
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn last_panic() -> Option<(String, String)> {
    PANIC_AT.with(|p| p.borrow_mut().take())
}

/// Exit code: 0 held, 1 violated, 3 not enough was observed, 4 harness error.
pub fn run(spec: &Spec, o: &Opts) -> i32 {
    install_hook();
    let planned = (if o.thorough { spec.cases.1 } else { spec.cases.0 } as f64 * o.scale).max(1.0) as u64;
    let crumb = crumbs(o.crumb.as_deref());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Option<(u64, u8, String)>> = Mutex::new(None);
    let total = Mutex::new(Rec::default());
    let done = AtomicU64::new(0);
    let live = AtomicU64::new(0);
    let clocks: Arc<Vec<(AtomicU64, AtomicU64, AtomicU64)>> =
        Arc::new((0..o.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect());
    let t0 = Instant::now();
    let mut hung: Option<u64> = None;
    std::thread::scope(|s| {
        for w in 0..o.threads {
            live.fetch_add(1, SeqCst);
            let (next, stop, bad, total, done, live, clocks) = (&next, &stop, &bad, &total, &done, &live, clocks.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut ck = 0i32;
                    // SAFETY: own thread handle, valid out pointer.
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut ck) };
                    clocks[w].0.store(ck as u32 as u64 | 1 << 40, SeqCst);
                    let mut rec = Rec::default();
                    loop {
                        let mut i = next.fetch_add(1, SeqCst);
                        if let Some(k) = o.only {
                            if i > 0 {
                                break;
                            }
                            i = k;
                        } else if i >= planned || stop.load(SeqCst) || t0.elapsed().as_secs_f64() > o.wall {
                            break;
                        }
                        crumb[w].store(i + 1, SeqCst);
                        clocks[w].1.store(cpu(ck).to_bits(), SeqCst);
                        clocks[w].2.store(i + 1, SeqCst);
                        let r = run_case(spec, o, i, &mut rec);
                        clocks[w].2.store(0, SeqCst);
                        crumb[w].store(0, SeqCst);
                        done.fetch_add(1, SeqCst);
                        if let Err((k, m)) = r {
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().is_none_or(|x| x.0 > i || (x.1 > k)) {
                                *b = Some((i, k, m));
                            }
                            stop.store(true, SeqCst);
                        }
                    }
                    total.lock().unwrap().merge(rec);
                    live.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for c in clocks.iter() {
                let k = c.2.load(SeqCst);
                let ck = c.0.load(SeqCst);
                if k == 0 || ck == 0 {
                    continue;
                }
                let used = cpu(ck as u32 as i32) - f64::from_bits(c.1.load(SeqCst));
                if used > spec.cpu_limit && c.2.load(SeqCst) == k {
                    hung = Some(k - 1);
                }
            }
            if let Some(k) = hung {
                let m = format!("a call into the library had not returned after {} s of CPU time", spec.cpu_limit);
                report(spec, o, planned, done.load(SeqCst), &Rec::default(), Some(&(k, 1, m)), t0);
                std::process::exit(1);
            }
        }
    });
    let rec = total.into_inner().unwrap();
    let bad = bad.into_inner().unwrap();
    let ran = done.load(SeqCst);
    report(spec, o, planned, ran, &rec, bad.as_ref(), t0);
    if let Some((_, k, _)) = bad {
        return if k == 1 { 1 } else { 4 };
    }
    if o.only.is_some() {
        return 0;
    }
    let share = ran as f64 / if o.thorough { spec.cases.1 } else { spec.cases.0 } as f64;
    let mut short = vec![];
    for (b, n) in spec.need {
        let have = if *b == "evals" { rec.evals } else { rec.buckets.get(*b).copied().unwrap_or(0) };
        let scale = if o.thorough { spec.cases.1 as f64 / spec.cases.0 as f64 } else { 1.0 };
        let want = (*n as f64 * scale * share.min(1.0)).floor().max(1.0) as u64;
        if have < want {
            short.push(format!("{b}: {have} < {want}"));
        }
    }
    if !short.is_empty() {
        eprintln!("not enough observed: {}", short.join(", "));
        return 3;
    }
    0
}

fn report(spec: &Spec, o: &Opts, planned: u64, ran: u64, rec: &Rec, bad: Option<&(u64, u8, String)>, t0: Instant) {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"cases_planned\":{planned},\"cases_run\":{ran},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"wall_s\":{:.2}",
        esc(spec.id), o.seed, esc(if o.thorough { "thorough" } else { "quick" }), rec.evals, rec.distinct.len(), esc(spec.rule),
        t0.elapsed().as_secs_f64()
    );
    s.push_str(",\"observed\":{");
    for (i, (k, v)) in rec.buckets.iter().enumerate() {
        let _ = write!(s, "{}{}:{v}", if i > 0 { "," } else { "" }, esc(k));
    }
    s.push_str("},\"largest_deviation\":{");
    for (i, (k, v)) in rec.maxima.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), esc(&format!("{:.3e} at {}", v.0, v.1)));
    }
    s.push_str("},\"samples\":[");
    for (i, v) in rec.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, esc(v));
    }
    s.push(']');
    if let Some((i, k, m)) = bad {
        let _ = write!(s, ",\"bad\":{{\"case\":{i},\"kind\":{},\"what\":{}}}", esc(if *k == 1 { "violation" } else { "harness" }), esc(m));
    }
    s.push('}');
    if let Some(p) = &o.json {
        if let Err(e) = std::fs::write(p, &s) {
            eprintln!("cannot write {p}: {e}");
        }
    } else {
        println!("{s}");
    }
}
