//! C30 bounded work, C31 nothing outside the calculator is touched, C32 the same in every process.
use crate::c_ffi;
use crate::c_state::{apply, next_op, Op};
use crate::eos::{comp, Eos};
use crate::gen;
use crate::refmodel::{Model, NC, X};
use crate::rng::Rng;
use crate::run::{own_cpu, Cx};
use std::cell::Cell;
use std::sync::OnceLock;

pub fn history(r: &mut Rng, m: Model, idx: u64, n: usize, hostile: bool) -> Vec<Op> {
    let pool: Vec<X> = (0..3).map(|k| gen::any(r, idx * 3 + k).0).collect();
    let mut v = vec![Op::Comp(pool[0]), Op::T(gen::temp(r)), Op::P(gen::press(r)), Op::D(gen::dens(r))];
    while v.len() < n {
        v.push(match next_op(r, m, &pool, &pool[0], 300.0, 1.0, hostile) {
            Op::Density(0) if m == Model::Gerg => Op::Density(gen::flag(r)),
            Op::D(d) if r.chance(0.3) => Op::D(-d),
            Op::P(_) if r.chance(0.1) => Op::P(r.logrange(1e5, 1e12)),
            o => o,
        });
    }
    v
}

// ---- C30 ----------------------------------------------------------------------------------------

/// CPU time of a properties() call on a gas with all 21 components: the unit of work.
fn unit(m: Model) -> f64 {
    static U: [OnceLock<f64>; 2] = [const { OnceLock::new() }; 2];
    *U[m as usize].get_or_init(|| {
        let mut e = Eos::new(m);
        e.set_x(&[1.0 / NC as f64; NC]);
        let mut v: Vec<f64> = (0..41)
            .map(|k| {
                e.set_t(300.0 + k as f64);
                e.set_d(1.0);
                let a = own_cpu();
                for j in 0..8 {
                    e.set_t(300.0 + k as f64 + 0.1 * j as f64);
                    e.properties();
                }
                (own_cpu() - a) / 8.0
            })
            .collect();
        v.sort_by(f64::total_cmp);
        v[20].max(1e-6)
    })
}

fn bound(op: &Op) -> f64 {
    match op {
        // fifty steps and a look at the properties
        Op::Density(_) => 400.0,
        _ => 60.0,
    }
}

/// Run `ops`, timing each call; those beyond the bound are timed again after the same history.
fn timed(m: Model, ops: &[Op]) -> Result<(f64, f64), String> {
    let u = unit(m);
    let mut e = Eos::new(m);
    let mut worst = (0f64, 0f64);
    for k in 0..ops.len() {
        let a = own_cpu();
        apply(&mut e, &ops[k]);
        let mut c = (own_cpu() - a) / u;
        let b = bound(&ops[k]);
        for _ in 0..5 {
            if c <= b {
                break;
            }
            let mut f = Eos::new(m);
            for o in &ops[..k] {
                apply(&mut f, o);
            }
            let a = own_cpu();
            apply(&mut f, &ops[k]);
            c = c.min((own_cpu() - a) / u);
        }
        if c > b {
            return Err(format!(
                "{} {} takes {c:.0} times as long as properties() of a gas with all components; allowed {b}: after {}",
                m.name(),
                ops[k].short(),
                ops[..k].iter().rev().take(8).rev().map(|o| o.short()).collect::<Vec<_>>().join(" ; ")
            ));
        }
        if matches!(ops[k], Op::Density(_)) {
            worst.0 = worst.0.max(c);
        } else {
            worst.1 = worst.1.max(c);
        }
    }
    Ok(worst)
}

/// The same kind of calls, many times on one calculator: seconds per call early and late.
fn pace(m: Model, kind: u64, mut r: Rng, n: usize) -> (f64, f64) {
    let mut e = Eos::new(m);
    let start = gen::any(&mut r, 1).0;
    apply(&mut e, &Op::Comp(start));
    e.set_t(300.0);
    e.set_d(1.0);
    e.set_p(3000.0);
    let mut stretch = |k: usize| {
        let ops: Vec<Op> = (0..k)
            .flat_map(|j| -> Vec<Op> {
                let t = 250.0 + 300.0 * r.f();
                let d = Op::Density(if m == Model::Gerg { (j % 3) as i32 } else { 0 });
                match kind {
                    // gases never seen before
                    0 => vec![Op::Comp(gen::any(&mut r, j as u64).0), Op::Pressure],
                    // the same components in ever different amounts
                    1 => vec![Op::Comp(gen::skew(&mut r, &start)), Op::T(t), Op::Properties],
                    2 => vec![Op::T(t), Op::D(20.0 * r.f()), Op::Properties],
                    3 => vec![Op::T(t), Op::P(r.logrange(10.0, 30000.0)), d],
                    // solves that fail
                    4 => vec![Op::T(t), Op::P(r.logrange(1e9, 1e12)), d],
                    5 => vec![Op::Comp(start.map(|v| v * (1.1 + r.f()))), Op::Pressure],
                    6 => vec![Op::D(20.0 * r.f()), Op::Pressure, Op::Mass],
                    _ => history(&mut r, m, j as u64, 6, j % 2 == 0),
                }
            })
            .collect();
        let a = own_cpu();
        for o in &ops {
            apply(&mut e, o);
        }
        (own_cpu() - a) / ops.len() as f64
    };
    let mut five = || {
        let mut v: Vec<f64> = (0..5).map(|_| stretch(n / 200)).collect();
        v.sort_by(f64::total_cmp);
        v[2]
    };
    five();
    let early = five();
    for _ in 0..18 {
        stretch(n / 20);
    }
    let mut five = || {
        let mut v: Vec<f64> = (0..5).map(|_| stretch(n / 200)).collect();
        v.sort_by(f64::total_cmp);
        v[2]
    };
    (early, five())
}

/// Every call ends after a bounded amount of work, within the stack a thread has by default.
pub fn c30(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    unit(m);
    let hostile = cx.idx % 3 == 0;
    if cx.idx < 32 {
        let n = if cx.thorough { 200_000 } else { 20_000 } * if cx.idx < 16 { 1 } else { 3 };
        let mut seen = vec![];
        for _ in 0..4 {
            let (a, b) = pace(m, cx.idx / 2 % 8, cx.rng.clone(), n);
            seen.push(b / a);
            if b <= 4.0 * a {
                break;
            }
        }
        let least = seen.iter().copied().fold(f64::MAX, f64::min);
        cx.rec.max("slowdown after many calls", least, || m.name().into());
        cx.rec.count("long runs");
        if least > 4.0 {
            return Err(format!("{}: after {n} calls each takes {least:.1} times as long as at first", m.name()));
        }
        cx.rec.hit(&[cx.idx as f64]);
        return Ok(());
    }
    let ops = history(&mut cx.rng, m, cx.idx, 60, hostile);
    let mut comps: Vec<X> = (0..4).map(|k| gen::any(&mut cx.rng, cx.idx + k).0).collect();
    for (k, x) in comps.iter_mut().enumerate() {
        match k {
            0 => {}
            1 => *x = gen::skew(&mut cx.rng, x),
            2 => x.iter_mut().for_each(|v| *v *= 1e-3),
            _ => x[cx.rng.below(NC)] = gen::hostile(&mut cx.rng),
        }
    }
    let run = move || -> Result<((f64, f64), f64), String> {
        let w = timed(m, &ops)?;
        let u = unit(m);
        let mut most = 0f64;
        for x in &comps {
            let mut least = f64::MAX;
            for _ in 0..5 {
                let mut c = comp(x);
                let a = own_cpu();
                let _ = (c.check(), c.sum());
                let _ = c.normalize();
                least = least.min((own_cpu() - a) / u);
                if least < 30.0 {
                    break;
                }
            }
            most = most.max(least);
            if least > 60.0 {
                return Err(format!("check(), sum() and normalize() take {least:.0} times as long as properties(): {x:?}"));
            }
        }
        Ok((w, most))
    };
    let (w, c) = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(run)
        .map_err(|e| e.to_string())
        .and_then(|h| h.join().map_err(|_| crate::run::last_panic().map_or("the library panicked".to_string(), |p| format!("the library panicked at {} {}", p.0, p.1))))??;
    cx.rec.max(&format!("{} density(), in calls of properties()", m.name()), w.0, String::new);
    cx.rec.max(&format!("{} other calls, in calls of properties()", m.name()), w.1, String::new);
    cx.rec.max("composition, in calls of properties()", c, String::new);
    cx.rec.add("calls timed", 64);
    cx.rec.count(if hostile { "hostile histories" } else { "ordinary histories" });
    cx.rec.hit(&[cx.idx as f64, w.0, w.1]);
    cx.rec.sample(|| format!("{}: unit {:.2e} s, dearest density() {:.1} units, dearest other call {:.1}", m.name(), unit(m), w.0, w.1));
    Ok(())
}

// ---- C31 ----------------------------------------------------------------------------------------

thread_local! {
    /// System calls the filter stopped, and the last of them.
    static TRAP: Cell<(u64, i64)> = const { Cell::new((0, -1)) };
    pub static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
}

#[cfg(target_arch = "x86_64")]
mod watch {
    use super::{IN_ALLOC, TRAP};
    /// Files, sockets, processes, signals, timers, sleeping, input and output.
    const STOP: [u32; 95] = [
        0, 1, 2, 7, 13, 16, 17, 18, 19, 20, 22, 23, 29, 32, 33, 34, 35, 37, 38, 40, 41, 42, 43, 44, 45, 46, 47, 49, 50, 53, 56, 57, 58,
        59, 62, 64, 68, 74, 75, 76, 77, 80, 81, 82, 83, 84, 85, 86, 87, 88, 90, 91, 92, 93, 95, 101, 135, 141, 142, 144, 157, 160, 164,
        170, 200, 203, 217, 222, 227, 230, 257, 258, 259, 263, 264, 265, 266, 268, 270, 271, 283, 290, 291, 294, 295, 296, 298, 302,
        316, 319, 322, 323, 425, 435, 437,
    ];
    #[repr(C)]
    struct Ins(u16, u8, u8, u32);
    #[repr(C)]
    struct Prog {
        n: u16,
        f: *const Ins,
    }
    extern "C" {
        fn prctl(a: i32, b: usize, c: usize, d: usize, e: usize) -> i32;
        fn sigaction(s: i32, a: *const CAction, o: *mut CAction) -> i32;
        fn open(p: *const i8, f: i32, ...) -> i32;
    }
    #[repr(C)]
    struct CAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    unsafe extern "C" fn handler(_: i32, info: *const u8, ctx: *mut u8) {
        let nr = *(info.add(24) as *const i32);
        // the call did not happen: say so to the caller
        *(ctx.add(144) as *mut i64) = -38;
        let _ = IN_ALLOC.try_with(|a| {
            if !a.get() {
                let _ = TRAP.try_with(|t| t.set((t.get().0 + 1, nr as i64)));
            }
        });
    }

    /// Stop this thread's system calls of that kind, and tell. True if that works here.
    pub fn install() -> bool {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            // SAFETY: SIGSYS is nobody else's; the handler only touches thread-locals without destructors.
            unsafe {
                let a = CAction { handler: handler as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
                sigaction(31, &a, std::ptr::null_mut());
            }
        });
        let mut f = vec![Ins(0x20, 0, 0, 0)];
        for nr in STOP {
            f.push(Ins(0x15, 0, 1, nr));
            f.push(Ins(0x06, 0, 0, 0x0003_0000));
        }
        f.push(Ins(0x06, 0, 0, 0x7fff_0000));
        let p = Prog { n: f.len() as u16, f: f.as_ptr() };
        // SAFETY: a valid filter program, for this thread only.
        unsafe {
            prctl(38, 1, 0, 0, 0);
            if prctl(22, 2, &p as *const Prog as usize, 0, 0) != 0 {
                return false;
            }
            // try it
            open(c"/nonexistent".as_ptr(), 0);
        }
        TRAP.replace((0, -1)).0 == 1
    }

    pub fn mxcsr() -> u32 {
        let mut v = 0u32;
        // SAFETY: stores the control register.
        unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
        v & !0x3f
    }
    pub fn x87() -> u16 {
        let mut v = 0u16;
        // SAFETY: stores the control word.
        unsafe { std::arch::asm!("fnstcw [{}]", in(reg) &mut v, options(nostack)) };
        v
    }
}
#[cfg(not(target_arch = "x86_64"))]
mod watch {
    pub fn install() -> bool {
        false
    }
    pub fn mxcsr() -> u32 {
        0
    }
    pub fn x87() -> u16 {
        0
    }
}

/// Reads and writes this thread has made, by the kernel's books.
fn io() -> Option<(u64, u64)> {
    let t = std::fs::read_to_string("/proc/thread-self/io").ok()?;
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|v| v.trim().parse().ok());
    Some((get("syscr:")?, get("syscw:")?))
}

/// The locale in effect, by the C library.
fn locale() -> String {
    extern "C" {
        fn setlocale(category: i32, name: *const std::ffi::c_char) -> *const std::ffi::c_char;
    }
    // SAFETY: asks only; nobody sets it meanwhile, or that is what is to be found.
    unsafe {
        let p = setlocale(6, std::ptr::null());
        if p.is_null() { String::new() } else { std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned() }
    }
}

/// Calculations touch nothing outside their calculator.
pub fn c31(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let hostile = cx.rng.chance(0.4);
    let mut ops = history(&mut cx.rng, m, cx.idx, 80, hostile);
    // a run of failures, of one kind of call, of slow drift: whatever might be worth a message
    for _ in 0..10 {
        ops.push(Op::P(cx.rng.logrange(1e6, 1e12)));
        ops.push(Op::Density(if m == Model::Gerg { gen::flag(&mut cx.rng) } else { 0 }));
    }
    let handles = cx.rng.chance(0.5);
    let script = if handles { c_ffi::ops(cx, 40) } else { vec![] };
    let comps: Vec<X> = (0..6)
        .map(|k| {
            let x = gen::any(&mut cx.rng, cx.idx + k).0;
            match k {
                0 => x,
                1 => gen::skew(&mut cx.rng, &x),
                2 => [0.0; NC],
                _ => x.map(|v| v * (0.2 + k as f64 * 0.3)),
            }
        })
        .collect();
    let vars = || std::env::vars_os().map(|(a, b)| (a.len() + b.len()) as u64).fold((0u64, 0u64), |s, v| (s.0 + 1, s.1 + v));
    let before = (vars(), std::env::current_dir().ok(), locale());
    let cx_hook = cx.idx % 8 < 2;
    let run = move || -> Result<(bool, u64), String> {
        let first = io();
        let second = io();
        let sealed = watch::install();
        let start = (watch::mxcsr(), watch::x87());
        let mut calls = 0;
        let look = |what: &dyn Fn() -> String| -> Result<(), String> {
            let t = TRAP.replace((0, -1));
            if t.0 > 0 {
                return Err(format!("{} made system call {} ({} calls of the sort stopped)", what(), t.1, t.0));
            }
            let now = (watch::mxcsr(), watch::x87());
            if now != start {
                return Err(format!("{} changed the floating-point control registers from {start:x?} to {now:x?}", what()));
            }
            Ok(())
        };
        let mut e = Eos::new(m);
        look(&|| format!("{} new()", m.name()))?;
        for o in &ops {
            apply(&mut e, o);
            calls += 1;
            look(&|| format!("{} {}", m.name(), o.short()))?;
        }
        drop(e);
        look(&|| format!("{} drop", m.name()))?;
        for x in &comps {
            let mut c = comp(x);
            let _ = (c.check(), c.sum());
            look(&|| format!("check() or sum() of {x:?}"))?;
            let _ = c.normalize();
            look(&|| format!("normalize() of {x:?}"))?;
            calls += 3;
        }
        if handles {
            calls += c_ffi::quiet_script(m, &script, &look)?;
        }
        // a panic of the program's own still goes to the program's own hook
        if cx_hook && std::panic::catch_unwind(|| std::panic::panic_any("anyone there")).is_err() && crate::run::last_panic().is_none_or(|p| p.1 != "anyone there") {
            return Err(format!("{}: the panic hook was replaced", m.name()));
        }
        if !sealed {
            if let (Some(a), Some(b), Some(c)) = (first, second, io()) {
                // one reading of the books costs as much as another
                if c.1 != b.1 || c.0 - b.0 > b.0 - a.0 {
                    return Err(format!("{}: reads {} and writes {} during calculations", m.name(), c.0 - b.0, c.1 - b.1));
                }
            }
        }
        Ok((sealed, calls))
    };
    let (sealed, calls) = std::thread::spawn(run).join().map_err(|_| "a thread died".to_string())??;
    let after = (vars(), std::env::current_dir().ok(), locale());
    if before != after {
        return Err(format!("{}: the environment, the working directory or the locale changed: {before:?} {after:?}", m.name()));
    }
    cx.rec.add(if sealed { "calls with system calls stopped" } else { "calls with reads and writes counted only" }, calls);
    cx.rec.add("calls", calls);
    cx.rec.count(if hostile { "hostile histories" } else { "ordinary histories" });
    cx.rec.hit(&[cx.idx as f64, calls as f64]);
    cx.rec.sample(|| format!("{}: {calls} calls, system calls stopped: {sealed}", m.name()));
    Ok(())
}

// ---- C32 ----------------------------------------------------------------------------------------

/// One case, whatever else has happened in this process: everything it shows, as one number and a few values.
fn alone(seed: u64, k: u64) -> String {
    let mut r = Rng::new(seed, "C32", k);
    let m = if k % 2 == 0 { Model::Detail } else { Model::Gerg };
    let hostile = r.chance(0.15);
    let ops = history(&mut r, m, k, 24, hostile);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut put = |v: f64| h = (h ^ if v.is_nan() { 1 } else { v.to_bits() }).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
    let mut e = Eos::new(m);
    for o in &ops {
        for (_, v) in apply(&mut e, o) {
            put(v);
        }
    }
    let o = e.out();
    o.iter().for_each(|v| put(*v));
    for v in c_ffi::hash_script(m, &ops) {
        put(v);
    }
    let mut c = comp(&e.x());
    put(c.sum());
    put(c.normalize().is_ok() as u8 as f64);
    crate::eos::uncomp(&c).iter().for_each(|v| put(*v));
    format!("{k} {h:016x} {:e} {:e} {:e}", o[0], o[8], o[12])
}

/// `vh cases SEED fwd|rev|mix|one FROM N`: the cases in that order, results in order of number.
pub fn cases(seed: u64, how: &str, from: u64, n: u64) {
    let mut order: Vec<u64> = (from..from + n).collect();
    let mut out: Vec<(u64, String)> = match how {
        "rev" => {
            order.reverse();
            order.iter().map(|k| (*k, alone(seed, *k))).collect()
        }
        "mix" => {
            let mut r = Rng::new(seed, "mix", n);
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
            let parts: Vec<&[u64]> = order.chunks(order.len().div_ceil(8)).collect();
            std::thread::scope(|s| {
                let hs: Vec<_> = parts.iter().map(|p| s.spawn(move || p.iter().map(|k| (*k, alone(seed, *k))).collect::<Vec<_>>())).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| std::process::exit(101))).collect()
            })
        }
        _ => order.iter().map(|k| (*k, alone(seed, *k))).collect(),
    };
    out.sort();
    for (_, l) in out {
        println!("{l}");
    }
}
