//! C15 the C interface against the Rust interface, C16 handle lifecycle, and the scripts for C17.
use crate::c_env::IN_ALLOC;
use crate::eos::{comp, Eos};
use crate::gen;
use crate::refmodel::{Model, NC, X};
use crate::run::Cx;
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::ffi::detail as fd;
use aga8::ffi::gerg2008 as fg;
use aga8::ffi::Properties;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what the current thread has allocated and not freed.
pub struct Count;
thread_local! {
    static LIVE: Cell<(i64, i64, i64)> = const { Cell::new((0, 0, 0)) };
}
// SAFETY: forwards to System; the counters are const-initialised thread-locals without destructors.
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        IN_ALLOC.set(true);
        let p = System.alloc(l);
        IN_ALLOC.set(false);
        if !p.is_null() {
            let _ = LIVE.try_with(|c| {
                let (n, b, k) = c.get();
                c.set((n + 1, b + l.size() as i64, k + 1));
            });
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        IN_ALLOC.set(true);
        let p = System.alloc_zeroed(l);
        IN_ALLOC.set(false);
        if !p.is_null() {
            let _ = LIVE.try_with(|c| {
                let (n, b, k) = c.get();
                c.set((n + 1, b + l.size() as i64, k + 1));
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| {
            let (n, b, k) = c.get();
            c.set((n - 1, b - l.size() as i64, k));
        });
        IN_ALLOC.set(true);
        System.dealloc(p, l);
        IN_ALLOC.set(false);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, s: usize) -> *mut u8 {
        IN_ALLOC.set(true);
        let q = System.realloc(p, l, s);
        IN_ALLOC.set(false);
        if !q.is_null() {
            let _ = LIVE.try_with(|c| {
                let (n, b, k) = c.get();
                c.set((n, b + s as i64 - l.size() as i64, k));
            });
        }
        q
    }
}
/// (blocks, bytes, allocations ever) of this thread.
pub fn live() -> (i64, i64, i64) {
    LIVE.with(|c| c.get())
}

#[derive(Clone, Copy)]
enum H {
    D(*mut Detail),
    G(*mut Gerg2008),
}

/// The calls of one calculator as a C program has them: symbols with the documented signatures,
/// whatever the Rust declarations say.
struct Calls<T: 'static> {
    new: extern "C" fn() -> *mut T,
    free: unsafe extern "C" fn(*mut T),
    comp: unsafe extern "C" fn(*mut T, &Composition, &mut CompositionError),
    set: [unsafe extern "C" fn(*mut T, f64); 3],
    get: [unsafe extern "C" fn(*mut T) -> f64; 3],
    props: unsafe extern "C" fn(*const T) -> Properties,
    pressure: unsafe extern "C" fn(*mut T) -> f64,
    mass: unsafe extern "C" fn(*mut T) -> f64,
    density: unsafe extern "C" fn(*mut T, &mut DensityError),
    calc: unsafe extern "C" fn(*mut T),
}

macro_rules! sym {
    ($f:path) => {
        // SAFETY: the documented signature of that symbol; the pointer is opaque to the optimiser.
        unsafe { std::mem::transmute(std::hint::black_box($f as *const ())) }
    };
}

fn calls_d() -> &'static Calls<Detail> {
    static C: std::sync::OnceLock<Calls<Detail>> = std::sync::OnceLock::new();
    C.get_or_init(|| Calls {
        new: sym!(fd::aga8_new),
        free: sym!(fd::aga8_free),
        comp: sym!(fd::aga8_set_composition),
        set: [sym!(fd::aga8_set_temperature), sym!(fd::aga8_set_pressure), sym!(fd::aga8_set_density)],
        get: [sym!(fd::aga8_get_temperature), sym!(fd::aga8_get_pressure), sym!(fd::aga8_get_density)],
        props: sym!(fd::aga8_get_properties),
        pressure: sym!(fd::aga8_calculate_pressure),
        mass: sym!(fd::aga8_calculate_molar_mass),
        density: sym!(fd::aga8_calculate_density),
        calc: sym!(fd::aga8_calculate_properties),
    })
}

fn calls_g() -> &'static Calls<Gerg2008> {
    static C: std::sync::OnceLock<Calls<Gerg2008>> = std::sync::OnceLock::new();
    C.get_or_init(|| Calls {
        new: sym!(fg::gerg_new),
        free: sym!(fg::gerg_free),
        comp: sym!(fg::gerg_set_composition),
        set: [sym!(fg::gerg_set_temperature), sym!(fg::gerg_set_pressure), sym!(fg::gerg_set_density)],
        get: [sym!(fg::gerg_get_temperature), sym!(fg::gerg_get_pressure), sym!(fg::gerg_get_density)],
        props: sym!(fg::gerg_get_properties),
        pressure: sym!(fg::gerg_calculate_pressure),
        mass: sym!(fg::gerg_calculate_molar_mass),
        density: sym!(fg::gerg_calculate_density),
        calc: sym!(fg::gerg_calculate_properties),
    })
}

/// `h!(handle, p, c => expression)`: p the pointer, c its calls.
macro_rules! h {
    ($h:expr, $p:ident, $c:ident => $e:expr) => {
        // SAFETY: handles are used as the interface documents it.
        match $h {
            H::D($p) => unsafe {
                let $c = calls_d();
                $e
            },
            H::G($p) => unsafe {
                let $c = calls_g();
                $e
            },
        }
    };
}

impl H {
    fn new(m: Model) -> H {
        match m {
            Model::Detail => H::D((calls_d().new)()),
            Model::Gerg => H::G((calls_g().new)()),
        }
    }
    fn null(&self) -> bool {
        match self {
            H::D(p) => p.is_null(),
            H::G(p) => p.is_null(),
        }
    }
    fn addr(&self) -> (usize, usize) {
        match self {
            H::D(p) => (*p as usize, std::mem::size_of::<Detail>()),
            H::G(p) => (*p as usize, std::mem::size_of::<Gerg2008>()),
        }
    }
    fn free(self) {
        h!(self, p, c => (c.free)(p))
    }
    fn comp(self, x: &Composition, e: &mut CompositionError) {
        h!(self, p, c => (c.comp)(p, x, e))
    }
    /// 0 temperature, 1 pressure, 2 density
    fn set(self, k: usize, v: f64) {
        h!(self, p, c => (c.set[k])(p, v))
    }
    fn get(self, k: usize) -> f64 {
        h!(self, p, c => (c.get[k])(p))
    }
    fn props(self) -> Properties {
        h!(self, p, c => (c.props)(p))
    }
    fn pressure(self) -> f64 {
        h!(self, p, c => (c.pressure)(p))
    }
    fn mass(self) -> f64 {
        h!(self, p, c => (c.mass)(p))
    }
    fn density(self, e: &mut DensityError) {
        h!(self, p, c => (c.density)(p, e))
    }
    fn calc(self) {
        h!(self, p, c => (c.calc)(p))
    }
}

pub const PNAMES: [&str; 15] = ["d", "mm", "z", "dp_dd", "d2p_dd2", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa"];
fn parr(p: &Properties) -> [f64; 15] {
    [p.d, p.mm, p.z, p.dp_dd, p.d2p_dd2, p.dp_dt, p.u, p.h, p.s, p.cv, p.cp, p.w, p.g, p.jt, p.kappa]
}
/// The same fifteen from the Rust structure.
fn rarr(e: &Eos) -> [f64; 15] {
    let o = e.out();
    let mut r = [0.0; 15];
    r[..5].copy_from_slice(&o[..5]);
    r[5..].copy_from_slice(&o[6..]);
    r
}

fn bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// One call of the C interface on a handle, next to the same call of the Rust interface.
#[derive(Clone, Debug)]
pub enum Op {
    Comp(X),
    Set(usize, f64),
    Mass,
    Pressure,
    Density,
    Calc,
}

pub fn ops(cx: &mut Cx, n: usize) -> Vec<Op> {
    let mut last: Option<X> = None;
    let wild = cx.rng.chance(0.3);
    (0..n)
        .map(|k| match if k == 0 { 0 } else { cx.rng.below(16) } {
            0 | 1 => {
                let i = cx.rng.u64() % 1000;
                let mut x = gen::any(&mut cx.rng, i).0;
                match cx.rng.below(8) {
                    0 => x = [0.0; NC],
                    1 => {
                        let f = cx.rng.range(0.3, 3.0);
                        x.iter_mut().for_each(|v| *v *= f);
                    }
                    2 if wild => {
                        let i = cx.rng.below(NC);
                        x[i] = gen::hostile(&mut cx.rng);
                    }
                    _ => {
                        if let Some(l) = last {
                            if cx.rng.chance(0.5) {
                                x = l;
                                let i = cx.rng.below(NC);
                                x[i] += 1e-4;
                            }
                        }
                    }
                }
                last = Some(x);
                Op::Comp(x)
            }
            2 | 3 => Op::Set(0, if wild && cx.rng.chance(0.3) { gen::hostile(&mut cx.rng) } else { gen::temp(&mut cx.rng) }),
            4 | 5 => Op::Set(1, if wild && cx.rng.chance(0.3) { gen::hostile(&mut cx.rng) } else if cx.rng.chance(0.1) { 0.0 } else { gen::press(&mut cx.rng) }),
            6 => Op::Set(2, if wild && cx.rng.chance(0.3) { gen::hostile(&mut cx.rng) } else if cx.rng.chance(0.3) { 0.0 } else { gen::dens(&mut cx.rng) }),
            7 | 8 => Op::Mass,
            9 | 10 => Op::Pressure,
            11 | 12 => Op::Density,
            _ => Op::Calc,
        })
        .collect()
}

/// Both sides do the operation; every return value and the visible state are compared.
fn both(h: H, e: &mut Eos, op: &Op) -> Result<&'static str, String> {
    let say = |what: &str, c: &dyn std::fmt::Debug, r: &dyn std::fmt::Debug| Err(format!("{what}: C interface {c:?}, Rust interface {r:?}"));
    let name = match op {
        Op::Comp(x) => {
            let c = comp(x);
            let want = match e.set_comp(&c) {
                Ok(()) => CompositionError::Ok,
                Err(k) => k,
            };
            // whatever was in the out-parameter must be overwritten
            for pre in [CompositionError::Ok, CompositionError::Empty, CompositionError::BadSum] {
                let mut err = pre;
                h.comp(&c, &mut err);
                if err != want {
                    return say("set_composition", &err, &want);
                }
            }
            "set_composition"
        }
        Op::Set(k, v) => {
            h.set(*k, *v);
            match k {
                0 => e.set_t(*v),
                1 => e.set_p(*v),
                _ => e.set_d(*v),
            }
            if !bits(h.get(*k), *v) {
                return say(["get_temperature after set", "get_pressure after set", "get_density after set"][*k], &h.get(*k), v);
            }
            "set_"
        }
        Op::Mass => {
            let (c, r) = (h.mass(), e.molar_mass());
            if !bits(c, r) {
                return say("calculate_molar_mass", &c, &r);
            }
            "calculate_molar_mass"
        }
        Op::Pressure => {
            let (c, r) = (h.pressure(), e.pressure());
            if !bits(c, r) {
                return say("calculate_pressure", &c, &r);
            }
            "calculate_pressure"
        }
        Op::Density => {
            let want = match e {
                Eos::D(e) => e.density(),
                Eos::G(e) => e.density(0),
            };
            let want = match want {
                Ok(()) => DensityError::Ok,
                Err(k) => k,
            };
            let mut err = if want == DensityError::Ok { DensityError::IterationFail } else { DensityError::Ok };
            h.density(&mut err);
            if err != want {
                return say("calculate_density", &err, &want);
            }
            match want {
                DensityError::Ok => "calculate_density Ok",
                DensityError::IterationFail => "calculate_density IterationFail",
                DensityError::PressureTooLow => "calculate_density PressureTooLow",
            }
        }
        Op::Calc => {
            h.calc();
            e.properties();
            "calculate_properties"
        }
    };
    for (k, n, v) in [(0, "get_temperature", e.t()), (1, "get_pressure", e.p()), (2, "get_density", e.d())] {
        if !bits(h.get(k), v) {
            return say(n, &h.get(k), &v);
        }
    }
    let (c, r) = (parr(&h.props()), rarr(e));
    for i in 0..15 {
        if !bits(c[i], r[i]) {
            return say(&format!("get_properties().{}", PNAMES[i]), &c[i], &r[i]);
        }
    }
    Ok(name)
}

pub fn c15(cx: &mut Cx) -> Result<(), String> {
    let n = 1 + cx.rng.below(3);
    let mut hs: Vec<(H, Eos, Vec<Op>)> = vec![];
    for _ in 0..n {
        let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
        let len = 5 + cx.rng.below(40);
        let o = ops(cx, len);
        hs.push((H::new(m), Eos::new(m), o));
        if hs.last().unwrap().0.null() {
            return Err("a new handle is null".into());
        }
    }
    let mut at = vec![0usize; n];
    let mut left: usize = hs.iter().map(|h| h.2.len()).sum();
    let mut res = Ok(());
    while left > 0 {
        let i = cx.rng.below(n);
        let (h, e, o) = &mut hs[i];
        if at[i] == o.len() {
            continue;
        }
        let op = o[at[i]].clone();
        match both(*h, e, &op) {
            Ok(n) => cx.rec.count(&format!("{} {n}", if matches!(h, H::D(_)) { "aga8" } else { "gerg" })),
            Err(m) => {
                res = Err(format!("{m}; step {} of {} on a {} handle, after {op:?}", at[i], o.len(), if matches!(h, H::D(_)) { "aga8" } else { "gerg" }));
                break;
            }
        }
        cx.rec.hit(&[cx.idx as f64, i as f64, at[i] as f64, e.t(), e.p(), e.d()]);
        at[i] += 1;
        left -= 1;
    }
    cx.rec.sample(|| format!("{n} handles, {} calls, last {:?}", at.iter().sum::<usize>(), hs[0].2.last()));
    for (h, _, _) in hs {
        h.free();
    }
    res
}

/// Thousands of handles alive at once, or tens of thousands one after the other.
fn crowd(cx: &mut Cx) -> Result<(), String> {
    let _ = (calls_d(), calls_g());
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let (at_once, n) = if cx.idx < 4 { (true, 3000usize) } else { (false, if cx.thorough { 300_000 } else { 70_000 }) };
    let c = comp(&gen::pipeline(&mut cx.rng));
    let mut hs: Vec<H> = Vec::with_capacity(n);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, cx.rng.below(i + 1));
    }
    let before = live();
    if at_once {
        for k in 0..n {
            let h = H::new(m);
            if h.null() {
                return Err(format!("handle {k} is null"));
            }
            h.set(0, 200.0 + k as f64);
            h.set(1, 1.0 + k as f64);
            hs.push(h);
        }
        for (k, h) in hs.iter().enumerate() {
            if h.get(0) != 200.0 + k as f64 || h.get(1) != 1.0 + k as f64 {
                return Err(format!("handle {k} of {n} lost its state: T = {:?}", h.get(0)));
            }
        }
        for &k in &order {
            hs[k].free();
        }
        hs.clear();
    } else {
        let mut e = CompositionError::Ok;
        for k in 0..n {
            let h = H::new(m);
            if h.get(0) != 0.0 || h.get(2) != 0.0 || h.props().kappa != 0.0 {
                h.free();
                return Err(format!("new handle {k} is not new: T = {:?}", h.get(0)));
            }
            h.comp(&c, &mut e);
            h.set(0, 300.0);
            h.set(2, 1.0);
            if k % 1000 == 0 {
                h.calc();
            }
            h.free();
        }
    }
    let after = live();
    if after.0 != before.0 || after.1 != before.1 {
        return Err(format!("{n} handles made and freed, {} blocks and {} bytes still allocated", after.0 - before.0, after.1 - before.1));
    }
    cx.rec.add("handles made and freed", n as u64);
    cx.rec.max("handles alive at once", if at_once { n as f64 } else { 1.0 }, || m.name().into());
    cx.rec.hit(&[cx.idx as f64, n as f64]);
    Ok(())
}

/// A library may keep something for good the first time it is used. What is kept every time is a leak:
/// memory not returned counts if the same calls, made again, do not return it either.
pub fn c16(cx: &mut Cx) -> Result<(), String> {
    let start = cx.rng.clone();
    match if cx.idx < 8 { crowd(cx) } else { lives(cx) } {
        Err(e) if e.contains(KEPT) => {
            cx.rng = start;
            cx.rec.count("books checked a second time");
            if cx.idx < 8 { crowd(cx) } else { lives(cx) }
        }
        r => r,
    }
}

const KEPT: &str = "still allocated";

fn lives(cx: &mut Cx) -> Result<(), String> {
    const N: usize = 12;
    // everything the workload needs is built before the books are opened
    let scripts: Vec<(Model, Vec<Op>, usize)> = (0..N)
        .map(|_| {
            let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
            let len = cx.rng.below(8);
            (m, ops(cx, len), cx.rng.below(N * 10))
        })
        .collect();
    let order: Vec<usize> = (0..N * 10).map(|_| cx.rng.below(N)).collect();
    let frees_null = cx.rng.chance(0.5);
    let mut slots: [Option<(H, usize)>; N] = [None; N];
    let mut made = 0i64;
    let mut most = 0usize;
    let mut calls = 0u64;
    let mut overlap: Option<(usize, usize)> = None;
    let _ = (calls_d(), calls_g());
    let before = live();
    for (k, &i) in order.iter().enumerate() {
        match slots[i] {
            None => {
                let h = H::new(scripts[i].0);
                if h.null() {
                    return Err("a new handle is null".into());
                }
                let (a, s) = h.addr();
                for o in slots.iter().flatten() {
                    let (b, r) = o.0.addr();
                    if a < b + r && b < a + s {
                        overlap = Some((a, b));
                    }
                }
                slots[i] = Some((h, 0));
                made += 1;
                most = most.max(slots.iter().flatten().count());
                calls += 1;
            }
            Some((h, at)) if at < scripts[i].1.len() && k % 7 != 6 => {
                match &scripts[i].1[at] {
                    Op::Comp(x) => {
                        let mut e = CompositionError::Ok;
                        h.comp(&comp(x), &mut e);
                    }
                    Op::Set(k, v) => h.set(*k, *v),
                    Op::Mass => {
                        std::hint::black_box(h.mass());
                    }
                    Op::Pressure => {
                        std::hint::black_box(h.pressure());
                    }
                    Op::Density => {
                        let mut e = DensityError::Ok;
                        h.density(&mut e);
                    }
                    Op::Calc => {
                        h.calc();
                        std::hint::black_box(h.props().kappa);
                    }
                }
                calls += 1;
                slots[i] = Some((h, at + 1));
            }
            Some((h, _)) => {
                h.free();
                calls += 1;
                slots[i] = None;
            }
        }
        if frees_null && k % 11 == 0 {
            // documented no-op
            H::D(std::ptr::null_mut()).free();
            H::G(std::ptr::null_mut()).free();
            calls += 2;
        }
    }
    for s in slots.iter_mut() {
        if let Some((h, _)) = s.take() {
            h.free();
        }
    }
    let after = live();
    if let Some((a, b)) = overlap {
        return Err(format!("two live handles share storage: {a:#x} and {b:#x}"));
    }
    if after.0 != before.0 || after.1 != before.1 {
        return Err(format!(
            "{made} handles made and freed, {} blocks and {} bytes still allocated",
            after.0 - before.0,
            after.1 - before.1
        ));
    }
    if after.2 - before.2 < made {
        return Err(format!("{made} handles from {} allocations", after.2 - before.2));
    }
    // a handle given to another thread keeps its state; several threads free what others made
    if cx.idx % 8 == 0 {
        let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
        let script = ops(cx, 12);
        struct Send2(H, Eos);
        // SAFETY: handed over whole, used by one thread at a time.
        unsafe impl Send for Send2 {}
        let mut pair = Send2(H::new(m), Eos::new(m));
        for op in script {
            pair = std::thread::spawn(move || {
                let whole = pair;
                let Send2(h, mut e) = whole;
                let r = both(h, &mut e, &op).map(|_| ());
                (Send2(h, e), r)
            })
            .join()
            .map_err(|_| "a thread died".to_string())
            .and_then(|(p, r)| r.map(|()| p))
            .map_err(|m| format!("after moving to another thread: {m}"))?;
        }
        std::thread::spawn(move || {
            let p: Send2 = pair;
            let Send2(h, _) = p;
            h.free();
        })
        .join()
        .map_err(|_| "free on another thread died".to_string())?;
        cx.rec.count("handle passed between threads");
        passing(cx)?;
    }
    cx.rec.add("handles made and freed", made as u64);
    cx.rec.add("calls", calls);
    cx.rec.max("handles alive at once", most as f64, || "one thread".into());
    cx.rec.hit(&[cx.idx as f64, made as f64, calls as f64, most as f64]);
    cx.rec.sample(|| format!("{made} handles in 12 slots, {calls} calls, balance 0 blocks"));
    Ok(())
}

/// Handles outlive the thread that made them, and may be freed by any thread.
fn passing(cx: &mut Cx) -> Result<(), String> {
    struct Given(Vec<(H, Eos, Vec<Op>)>);
    // SAFETY: handed over whole, used by one thread at a time.
    unsafe impl Send for Given {}
    let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
    let scripts: Vec<Vec<Op>> = (0..4).map(|_| ops(cx, 6)).collect();
    // the maker's books for the second half, when whatever is set up once is set up
    let maker = std::thread::spawn(move || {
        let mut v = Vec::with_capacity(4);
        let mut made = (0, 0);
        for (k, script) in scripts.into_iter().enumerate() {
            let a = live();
            let (h, mut e) = (H::new(m), Eos::new(m));
            let r: Result<(), String> = script[..3].iter().try_for_each(|o| both(h, &mut e, o).map(|_| ()));
            let b = live();
            if k >= 2 {
                made = (made.0 + b.0 - a.0, made.1 + b.1 - a.1);
            }
            v.push((h, e, script));
            if r.is_err() {
                return (Given(v), made, r);
            }
        }
        (Given(v), made, Ok(()))
    });
    let (given, made, r) = maker.join().map_err(|_| "the thread making handles died".to_string())?;
    r?;
    // the maker is gone; another thread goes on with them
    let user = std::thread::spawn(move || {
        let whole = given;
        let Given(v) = whole;
        let mut freed = (0, 0);
        let mut res = Ok(());
        for (k, (h, mut e, script)) in v.into_iter().enumerate() {
            let a = live();
            for o in &script[3..] {
                if let Err(m) = both(h, &mut e, o) {
                    res = Err(m);
                }
            }
            h.free();
            drop(e);
            let b = live();
            if k >= 2 {
                freed = (freed.0 + a.0 - b.0, freed.1 + a.1 - b.1);
            }
        }
        (freed, res)
    });
    let (freed, r) = user.join().map_err(|_| "the thread freeing handles died".to_string())?;
    r.map_err(|m| format!("after the thread that made the handle ended: {m}"))?;
    if made != freed {
        return Err(format!("handles made by one thread ({} blocks, {} bytes) and freed by another ({}, {}): the rest is {KEPT}", made.0, made.1, freed.0, freed.1));
    }
    cx.rec.count("handle outlived its thread");
    Ok(())
}

/// Child processes for null handles: run the k-th call with a null handle.
pub const NULLS: [&str; 28] = [
    "free", "set_composition", "set_pressure", "get_pressure", "set_temperature", "get_temperature", "set_density", "get_density",
    "get_properties", "calculate_pressure", "calculate_molar_mass", "calculate_density", "calculate_properties", "free twice",
    "free", "set_composition", "set_pressure", "get_pressure", "set_temperature", "get_temperature", "set_density", "get_density",
    "get_properties", "calculate_pressure", "calculate_molar_mass", "calculate_density", "calculate_properties", "free twice",
];
pub fn null_call(k: usize) {
    let h = if k < 14 { H::D(std::ptr::null_mut()) } else { H::G(std::ptr::null_mut()) };
    let mut ce = CompositionError::Ok;
    let mut de = DensityError::Ok;
    let c = Composition { methane: 1.0, ..Default::default() };
    let v = std::hint::black_box(1.0);
    let r = match k % 14 {
        0 => {
            h.free();
            0.0
        }
        1 => {
            h.comp(&c, &mut ce);
            0.0
        }
        2 => {
            h.set(1, v);
            0.0
        }
        3 => h.get(1),
        4 => {
            h.set(0, v);
            0.0
        }
        5 => h.get(0),
        6 => {
            h.set(2, v);
            0.0
        }
        7 => h.get(2),
        8 => h.props().kappa,
        9 => h.pressure(),
        10 => h.mass(),
        11 => {
            h.density(&mut de);
            0.0
        }
        12 => {
            h.calc();
            0.0
        }
        _ => {
            h.free();
            h.free();
            0.0
        }
    };
    println!("returned {}", std::hint::black_box(r));
}

fn hex(v: f64) -> String {
    format!("{:016x}", v.to_bits())
}

/// A command script for the C program of C17, with the answers the Rust interface gives.
/// `=` lines are exact, `~` lines may differ by rounding (another build computed them).
pub fn abi_script(seed: u64, n: usize) -> String {
    use crate::rng::Rng;
    let mut out = String::new();
    let mut r = Rng::new(seed, "C17", 0);
    for case in 0..n {
        let m = if case % 2 == 0 { Model::Detail } else { Model::Gerg };
        let mut e = Eos::new(m);
        out += &format!("N {}\n", if m == Model::Detail { 'a' } else { 'g' });
        for _ in 0..1 + r.below(3) {
            let mut x = if r.chance(0.3) {
                // one fraction set apart from all others: catches swapped fields
                let i = r.below(NC);
                let mut x = gen::pipeline(&mut r);
                x[i] += 0.1;
                gen::norm(&mut x);
                x
            } else {
                gen::pipeline(&mut r)
            };
            match r.below(6) {
                0 => x = [0.0; NC],
                1 => x.iter_mut().for_each(|v| *v *= 1.5),
                _ => {}
            }
            let res = match e.set_comp(&comp(&x)) {
                Ok(()) => CompositionError::Ok,
                Err(k) => k,
            };
            out += &format!("C {}\n=c {res:?}\n", x.map(hex).join(" "));
        }
        // make sure something valid is in force
        let x = gen::pipeline(&mut r);
        let _ = e.set_comp(&comp(&x));
        out += &format!("C {}\n=c Ok\n", x.map(hex).join(" "));
        for _ in 0..4 {
            let (t, p) = (r.range(270.0, 400.0), if r.chance(0.1) { 0.0 } else { r.range(50.0, 15_000.0) });
            e.set_t(t);
            e.set_p(p);
            e.set_d(0.0);
            let z = hex(0.0);
            out += &format!("T {}\n=v {}\nP {}\n=v {}\nD {z}\n=v {z}\n", hex(t), hex(t), hex(p), hex(p));
            let k = match e.density(0) {
                crate::eos::DRes::Ok => "Ok",
                crate::eos::DRes::Iter => "IterationFail",
                crate::eos::DRes::Low => "PressureTooLow",
                crate::eos::DRes::ErrOk => "Err(Ok)",
            };
            out += &format!("R\n=d {k}\nd\n~v {}\n", hex(e.d()));
            out += &format!("m\n~v {}\n", hex(e.molar_mass()));
            out += &format!("c\n~v {}\n", hex(e.pressure()));
            e.properties();
            out += &format!("q\np\n~v {}\ng\n~v {}\n", hex(e.p()), rarr(&e).map(hex).join(" "));
        }
        out += "F\n";
    }
    out
}

/// Layout facts of the structures shared with C.
pub fn layout() -> String {
    use std::mem::{align_of, offset_of, size_of};
    let mut s = String::new();
    s += &format!("Composition size {} align {}\n", size_of::<Composition>(), align_of::<Composition>());
    s += &format!("Properties size {} align {}\n", size_of::<Properties>(), align_of::<Properties>());
    s += &format!("CompositionError size {}\nDensityError size {}\n", size_of::<CompositionError>(), size_of::<DensityError>());
    macro_rules! off { ($t:ident $($f:ident)*) => { $( s += &format!("{}.{} {}\n", stringify!($t), stringify!($f), offset_of!($t, $f)); )* } }
    off!(Composition methane nitrogen carbon_dioxide ethane propane isobutane n_butane isopentane n_pentane hexane heptane octane nonane decane hydrogen oxygen carbon_monoxide water hydrogen_sulfide helium argon);
    off!(Properties d mm z dp_dd d2p_dd2 dp_dt u h s cv cp w g jt kappa);
    s
}

// ---- C29: handles on several threads ------------------------------------------------------------

type Seen = [u64; 19];

fn word(v: f64) -> u64 {
    if v.is_nan() {
        u64::MAX
    } else {
        v.to_bits()
    }
}

fn view(first: f64, t: f64, p: f64, d: f64, props: &[f64; 15]) -> Seen {
    let mut s = [0; 19];
    s[0] = word(first);
    s[1] = word(t);
    s[2] = word(p);
    s[3] = word(d);
    for k in 0..15 {
        s[4 + k] = word(props[k]);
    }
    s
}

/// What the Rust interface shows after each of these calls, with nothing else going on.
fn undisturbed(m: Model, ops: &[Op]) -> Vec<Seen> {
    let mut e = Eos::new(m);
    ops.iter()
        .map(|o| {
            let first = match o {
                Op::Comp(x) => e.set_comp(&comp(x)).map_or_else(|k| k as i32 as f64, |()| CompositionError::Ok as i32 as f64),
                Op::Set(0, v) => {
                    e.set_t(*v);
                    0.0
                }
                Op::Set(1, v) => {
                    e.set_p(*v);
                    0.0
                }
                Op::Set(_, v) => {
                    e.set_d(*v);
                    0.0
                }
                Op::Mass => e.molar_mass(),
                Op::Pressure => e.pressure(),
                Op::Density => match &mut e {
                    Eos::D(e) => e.density(),
                    Eos::G(e) => e.density(0),
                }
                .map_or_else(|k| k as i32 as f64, |()| DensityError::Ok as i32 as f64),
                Op::Calc => {
                    e.properties();
                    0.0
                }
            };
            view(first, e.t(), e.p(), e.d(), &rarr(&e))
        })
        .collect()
}

fn by_handle(h: H, o: &Op) -> Seen {
    let first = match o {
        Op::Comp(x) => {
            let mut err = CompositionError::Ok;
            h.comp(&comp(x), &mut err);
            err as i32 as f64
        }
        Op::Set(k, v) => {
            h.set(*k, *v);
            0.0
        }
        Op::Mass => h.mass(),
        Op::Pressure => h.pressure(),
        Op::Density => {
            let mut err = DensityError::Ok;
            h.density(&mut err);
            err as i32 as f64
        }
        Op::Calc => {
            h.calc();
            0.0
        }
    };
    view(first, h.get(0), h.get(1), h.get(2), &parr(&h.props()))
}

fn compare(m: Model, ops: &[Op], want: &[Seen], got: &[Seen]) -> Result<(), String> {
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if let Some(i) = (0..19).find(|i| w[*i] != g[*i]) {
            let what = match i {
                0 => "what the call returned",
                1 => "the temperature",
                2 => "the pressure",
                3 => "the density",
                _ => PNAMES[i - 4],
            };
            return Err(format!("{}: {what} after call {k}, {:?}, is {:?}, alone it is {:?}", m.name(), ops[k], f64::from_bits(g[i]), f64::from_bits(w[i])));
        }
    }
    Ok(())
}

/// Several handles of the C interface, interleaved on one thread or each on its own.
pub fn c29(cx: &mut Cx) -> Result<(), String> {
    let mut k = 2 + cx.rng.below(4);
    let len = 8 + cx.rng.below(20);
    let mut scripts: Vec<(Model, Vec<Op>)> = (0..k)
        .map(|_| {
            let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
            (m, ops(cx, len))
        })
        .collect();
    // neighbours that nearly agree: what a shared store would confuse
    if cx.rng.chance(0.5) {
        let r = &mut cx.rng;
        let twin = scripts[0]
            .1
            .iter()
            .map(|o| match o {
                Op::Comp(x) if r.chance(0.5) => {
                    let mut y = *x;
                    let i = r.below(NC);
                    y[i] += r.logrange(1e-9, 1e-3);
                    Op::Comp(y)
                }
                Op::Set(q, v) if r.chance(0.3) => Op::Set(*q, v * (1.0 + r.logrange(1e-12, 1e-3))),
                o => o.clone(),
            })
            .collect();
        scripts[1] = (scripts[0].0, twin);
    }
    let threaded = cx.idx % 3 == 0;
    if threaded && cx.rng.chance(0.3) {
        // many threads, a few inputs, back to back
        k = 6;
        let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
        let xs: Vec<X> = (0..2).map(|_| gen::pure(cx.rng.below(NC))).collect();
        let ts = [cx.rng.range(200.0, 500.0), cx.rng.range(200.0, 500.0)];
        scripts = (0..k)
            .map(|_| {
                let r = &mut cx.rng;
                let mut v = vec![Op::Comp(xs[0]), Op::Set(0, ts[0]), Op::Set(1, 3000.0), Op::Set(2, 1.0)];
                for _ in 0..150 {
                    v.push(match r.below(10) {
                        0 => Op::Comp(*r.pick(&xs)),
                        1 => Op::Set(0, *r.pick(&ts)),
                        2 => Op::Set(2, r.range(0.1, 8.0)),
                        3 | 4 => Op::Mass,
                        5 => Op::Density,
                        6 | 7 => Op::Pressure,
                        _ => Op::Calc,
                    });
                }
                (m, v)
            })
            .collect();
        cx.rec.add("handles on threads sharing a few inputs", k as u64);
    }
    let want: Vec<Vec<Seen>> = scripts.iter().map(|(m, o)| undisturbed(*m, o)).collect();
    if !threaded {
        let mut hs: Vec<Option<H>> = vec![None; k];
        let mut got: Vec<Vec<Seen>> = vec![vec![]; k];
        let mut order = 0xcbf29ce484222325u64;
        while got.iter().zip(&scripts).any(|(g, s)| g.len() < s.1.len()) {
            let i = cx.rng.below(k);
            for _ in 0..1 + cx.rng.below(3) {
                if let Some(o) = scripts[i].1.get(got[i].len()) {
                    let h = *hs[i].get_or_insert_with(|| H::new(scripts[i].0));
                    got[i].push(by_handle(h, o));
                    order = (order ^ i as u64).wrapping_mul(0x100000001b3);
                }
            }
        }
        hs.into_iter().flatten().for_each(H::free);
        for i in 0..k {
            compare(scripts[i].0, &scripts[i].1, &want[i], &got[i]).map_err(|e| format!("{k} handles in turn, {e}"))?;
        }
        cx.rec.add("handles in turn on one thread", k as u64);
        cx.rec.hit(&[f64::from_bits(order), cx.idx as f64]);
        return Ok(());
    }
    let go = std::sync::Barrier::new(k);
    let got = std::thread::scope(|s| {
        let th: Vec<_> = scripts
            .iter()
            .map(|(m, o)| {
                let go = &go;
                s.spawn(move || {
                    go.wait();
                    // two lives: the second handle may get the memory another thread gave back
                    [0, 1].map(|_| {
                        let h = H::new(*m);
                        let v: Vec<Seen> = o.iter().map(|o| by_handle(h, o)).collect();
                        h.free();
                        v
                    })
                })
            })
            .collect();
        th.into_iter().map(|t| t.join()).collect::<Result<Vec<_>, _>>()
    })
    .map_err(|_| "the library panicked on one of several threads".to_string())?;
    for i in 0..k {
        for g in &got[i] {
            compare(scripts[i].0, &scripts[i].1, &want[i], g).map_err(|e| format!("{k} handles on {k} threads, {e}"))?;
        }
    }
    cx.rec.add("handles on concurrent threads", 2 * k as u64);
    cx.rec.add("calls on concurrent threads", got.iter().flatten().map(|v| v.len() as u64).sum());
    // everybody may look at the results of one handle while others are being used
    struct Look(H);
    // SAFETY: get_properties takes a pointer to const; all the others stay with one thread.
    unsafe impl Sync for Look {}
    let (m, o) = &scripts[0];
    let shared = Look(H::new(*m));
    let last = o.iter().map(|o| by_handle(shared.0, o)).last().unwrap_or([0; 19]);
    let go = std::sync::Barrier::new(3);
    let ok = std::thread::scope(|s| {
        let th: Vec<_> = (0..3)
            .map(|q| {
                let (go, shared, scripts) = (&go, &shared, &scripts);
                s.spawn(move || {
                    let shared: &Look = shared;
                    go.wait();
                    let own = if q == 2 { Some(H::new(scripts[1].0)) } else { None };
                    let mut good = true;
                    for o in scripts[1].1.iter().take(20) {
                        if let Some(h) = own {
                            by_handle(h, o);
                        }
                        let now = parr(&shared.0.props());
                        good &= (0..15).all(|k| word(now[k]) == last[4 + k]);
                    }
                    if let Some(h) = own {
                        h.free();
                    }
                    good
                })
            })
            .collect();
        th.into_iter().map(|t| t.join().unwrap_or(false)).fold(true, |a, b| a & b)
    });
    shared.0.free();
    if !ok {
        return Err(format!("{}: the results of a handle changed while several threads looked at them", m.name()));
    }
    cx.rec.count("results read by three threads");
    cx.rec.hit(&[cx.idx as f64, len as f64, k as f64]);
    cx.rec.sample(|| format!("{k} handles on {k} threads, {} calls each", scripts[0].1.len()));
    Ok(())
}

/// For C31: a script on a handle, with a look after every call.
pub fn quiet_script(m: Model, script: &[Op], look: &dyn Fn(&dyn Fn() -> String) -> Result<(), String>) -> Result<u64, String> {
    let h = H::new(m);
    let mut r = look(&|| format!("{} new handle", m.name()));
    for o in script {
        by_handle(h, o);
        r = r.and_then(|()| look(&|| format!("{} C interface, {o:?}", m.name())));
    }
    h.free();
    r?;
    look(&|| format!("{} free", m.name()))?;
    Ok(script.len() as u64 + 2)
}

/// For C32: the same history on a handle, and all it shows.
pub fn hash_script(m: Model, ops: &[crate::c_state::Op]) -> Vec<f64> {
    use crate::c_state::Op as R;
    let h = H::new(m);
    let mut v = vec![];
    for o in ops {
        let o = match o {
            R::Comp(x) | R::X(x) => Op::Comp(*x),
            R::T(t) => Op::Set(0, *t),
            R::P(p) => Op::Set(1, *p),
            R::D(d) => Op::Set(2, *d),
            R::Mass => Op::Mass,
            R::Pressure => Op::Pressure,
            R::Density(_) => Op::Density,
            R::Properties => Op::Calc,
        };
        v.extend(by_handle(h, &o).map(f64::from_bits));
    }
    h.free();
    v
}
