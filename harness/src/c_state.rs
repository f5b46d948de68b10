//! C08 history independence, C09 instance isolation and thread safety, C18 totality.
use crate::c_model::show;
use crate::eos::{comp, DRes, Eos, OUT};
use crate::gen;
use crate::refmodel::{Mix, Model, NC, X};
use crate::rng::Rng;
use crate::run::Cx;

pub fn same(a: f64, b: f64, rel: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= rel * a.abs().max(b.abs())
}

#[derive(Clone, Debug)]
pub enum Op {
    Comp(X),
    X(X),
    T(f64),
    P(f64),
    D(f64),
    Mass,
    Pressure,
    Density(i32),
    Properties,
}

impl Op {
    pub fn short(&self) -> String {
        match self {
            Op::Comp(x) => format!("set_composition({})", show(x)),
            Op::X(x) => format!("x=({})", show(x)),
            o => format!("{o:?}"),
        }
    }
}

/// What a call returned and left in the public fields it is documented to set.
pub fn apply(e: &mut Eos, op: &Op) -> Vec<(&'static str, f64)> {
    match op {
        Op::Comp(x) => {
            let r = e.set_comp(&comp(x));
            vec![("result", match r { Ok(()) => 0.0, Err(k) => 1.0 + k as i32 as f64 })]
        }
        Op::X(x) => {
            e.set_x(x);
            vec![]
        }
        Op::T(v) => {
            e.set_t(*v);
            vec![]
        }
        Op::P(v) => {
            e.set_p(*v);
            vec![]
        }
        Op::D(v) => {
            e.set_d(*v);
            vec![]
        }
        Op::Mass => {
            let v = e.molar_mass();
            vec![("molar_mass()", v), ("mm", e.mm())]
        }
        Op::Pressure => {
            let v = e.pressure();
            vec![("pressure()", v), ("z", e.z())]
        }
        Op::Density(f) => {
            let r = e.density(*f);
            vec![("density() result", r as i32 as f64), ("d", e.d())]
        }
        Op::Properties => {
            let v = e.properties();
            let o = e.out();
            let mut r = vec![("pressure of properties()", v)];
            r.extend(OUT.iter().zip(o).map(|(n, v)| (*n, v)));
            r
        }
    }
}

/// A composition near `x`: the drifts that expose stale caches.
pub fn drift(r: &mut Rng, x: &X) -> X {
    let mut y = *x;
    match r.below(6) {
        0 => {
            // move a little from one component to another
            let (i, j) = (r.below(NC), r.below(NC));
            let e = r.logrange(1e-14, 1e-3) * y[i].max(1e-6);
            if y[i] >= e {
                y[i] -= e;
                y[j] += e;
            }
        }
        1 => {
            // swap two components
            let (i, j) = (r.below(NC), r.below(NC));
            y.swap(i, j);
        }
        2 => {
            // rotate the whole gas
            y.rotate_left(1);
        }
        3 => {
            // drop or add a trace
            let i = r.below(NC);
            y[i] = if y[i] > 0.0 && y[i] < 0.05 { 0.0 } else { y[i] + r.logrange(1e-12, 1e-3) };
        }
        4 => {
            // every component by a relative step
            let e = r.logrange(1e-13, 1e-4);
            for v in y.iter_mut() {
                *v *= 1.0 + e * r.range(-1.0, 1.0);
            }
        }
        _ => {
            // one component, relative
            let i = r.below(NC);
            y[i] *= 1.0 + r.logrange(1e-13, 5e-3) * if r.chance(0.5) { 1.0 } else { -1.0 };
        }
    }
    let s: f64 = y.iter().sum();
    if (s - 1.0).abs() > 0.009 {
        for v in y.iter_mut() {
            *v /= s;
        }
    }
    y
}

pub fn next_op(r: &mut Rng, m: Model, pool: &[X], x: &X, t: f64, d: f64, hostile: bool) -> Op {
    match r.below(20) {
        0 => Op::Comp(*r.pick(pool)),
        1 => Op::X(*r.pick(pool)),
        2 | 3 => {
            let y = drift(r, x);
            if r.chance(0.5) {
                Op::X(y)
            } else {
                Op::Comp(y)
            }
        }
        4 => {
            // rejected compositions in between
            let mut y = *r.pick(pool);
            let i = r.below(NC);
            y[i] += *r.pick(&[0.5, f64::NAN, f64::INFINITY, -3.0]);
            if r.chance(0.3) {
                y = [0.0; NC];
            }
            Op::Comp(y)
        }
        5 | 6 => {
            let v = match r.below(4) {
                0 => t * (1.0 + r.logrange(1e-15, 1e-3) * if r.chance(0.5) { 1.0 } else { -1.0 }),
                1 => 300.0,
                _ => gen::temp(r),
            };
            Op::T(if hostile && r.chance(0.3) { gen::hostile(r) } else { v })
        }
        7 | 8 => {
            let v = gen::press(r);
            Op::P(if hostile && r.chance(0.3) { gen::hostile(r) } else { v })
        }
        9 | 10 => {
            let v = match r.below(3) {
                0 => d * (1.0 + r.logrange(1e-15, 1e-3)),
                _ => gen::dens(r),
            };
            Op::D(if hostile && r.chance(0.3) { gen::hostile(r) } else { v })
        }
        11 => Op::Mass,
        12..=14 => Op::Pressure,
        15..=17 => Op::Density(if m == Model::Gerg { *r.pick(&[0, 0, 1, 2]) } else { 0 }),
        _ => Op::Properties,
    }
}

fn sane(e: &Eos) -> bool {
    let ok = |v: f64| v.is_finite() && v > 0.0;
    ok(e.t()) && ok(e.d()) && e.x().iter().all(|v| v.is_finite() && *v >= 0.0)
}

/// Compare what a used calculator and a new one with the same inputs produce.
fn agree(cx: &mut Cx, m: Model, op: &Op, a: &[(&'static str, f64)], b: &[(&'static str, f64)], e: &Eos, log: &[Op]) -> Result<(), String> {
    let mut tol_p = 0.0;
    for ((n, u), (_, v)) in a.iter().zip(b) {
        if u.to_bits() == v.to_bits() || (u.is_nan() && v.is_nan()) {
            continue;
        }
        // not identical: allow rounding, nothing else
        if tol_p == 0.0 {
            tol_p = 1e-300;
            if sane(e) {
                let w = Mix::new(m, &e.x()).props(e.t(), e.d());
                tol_p = w.p.e / w.p.v.abs();
            }
        }
        let rel = match *n {
            "pressure()" | "z" | "p" | "pressure of properties()" => tol_p.min(1e-6),
            "mm" | "molar_mass()" => 1e-14,
            "density() result" | "result" => 0.0,
            _ => 1e-9_f64.max(tol_p.min(1e-6) * 1e3),
        };
        if same(*u, *v, rel) {
            cx.rec.count("equal to rounding, not bit for bit");
            continue;
        }
        let from = log.len().saturating_sub(12);
        let hist: Vec<String> = log[from..].iter().map(|o| o.short()).collect();
        return Err(format!(
            "{} {}: {n} is {u:?} on a used calculator, {v:?} on a new one with the same inputs (x: {}; T={:?} p={:?}); after {} calls, the last being: {}",
            m.name(), op.short(), show(&e.x()), e.t(), e.p(), log.len(), hist.join(" ; ")
        ));
    }
    Ok(())
}

/// A history longer than any 16-bit count, of one kind of call.
fn marathon(cx: &mut Cx, m: Model) -> Result<(), String> {
    let kind = cx.idx / 2 % 5;
    let mut e = Eos::new(m);
    let x = [gen::binary(0, cx.rng.below(NC - 1) + 1, 0.3), gen::pure(cx.rng.below(NC))];
    let t = [cx.rng.range(250.0, 500.0), cx.rng.range(250.0, 500.0)];
    let n = if cx.thorough { 600_000u32 } else { 140_000 };
    let (p, d) = (cx.rng.range(100.0, 3000.0), cx.rng.range(0.05, 1.0));
    for o in [Op::X(x[0]), Op::T(t[0]), Op::P(p), Op::D(d)] {
        apply(&mut e, &o);
    }
    for k in 1..=n {
        let (set, op) = match kind {
            0 => (Op::D(d * (1.0 + (k % 64) as f64 / 64.0)), Op::Pressure),
            1 => (Op::X(x[(k % 2) as usize]), Op::Mass),
            2 => (Op::Comp(x[(k % 2) as usize]), Op::Pressure),
            3 => (Op::P(p * (1.0 + (k % 64) as f64 / 64.0)), Op::Density(0)),
            _ => (Op::T(t[(k % 2) as usize]), Op::Properties),
        };
        apply(&mut e, &set);
        if kind == 3 {
            e.set_d(0.0);
        }
        let near = |v: u32| k.abs_diff(v) < 4;
        if !(k % 997 == 0 || k == n || (7..20).any(|b| near(1 << b)) || near(1000) || near(10_000) || near(100_000)) {
            apply(&mut e, &op);
            continue;
        }
        let mut f = Eos::new(m);
        f.set_x(&e.x());
        f.set_t(e.t());
        f.set_p(e.p());
        f.set_d(e.d());
        let ra = apply(&mut e, &op);
        let rb = apply(&mut f, &op);
        agree(cx, m, &op, &ra, &rb, &e, &[]).map_err(|w| format!("call {k} of its kind: {w}"))?;
        cx.rec.count("inside a history of over 100000 calls");
        cx.rec.hit(&[e.t(), e.p(), e.d(), e.x()[0], k as f64, cx.idx as f64]);
    }
    Ok(())
}

pub fn c08(cx: &mut Cx) -> Result<(), String> {
    if cx.idx < 20 {
        let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
        return marathon(cx, m);
    }
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let mut e = Eos::new(m);
    let mut pool: Vec<X> = vec![];
    for k in 0..3 {
        pool.push(gen::any(&mut cx.rng, cx.idx * 3 + k).0);
    }
    // same heads, different tails, and permutations of one gas
    let mut y = pool[0];
    y.swap(3, 17);
    pool.push(y);
    y = pool[0];
    y.reverse();
    pool.push(y);
    let hostile = cx.rng.chance(0.3);
    let n = if cx.idx % 97 == 5 { 1500 } else if cx.idx % 31 == 7 { 100 + cx.rng.below(500) } else { 10 + cx.rng.below(50) };
    let creep = n == 1500; // a very long history of steps each too small to matter alone
    let mut log: Vec<Op> = vec![Op::X(pool[0]), Op::T(300.0), Op::P(5000.0), Op::D(2.0)];
    for o in log.clone() {
        apply(&mut e, &o);
    }
    let creep_step = cx.rng.logrange(1e-12, 1e-6);
    let from = if creep { pool[0] } else { [0.0; NC] };
    for k in 0..n {
        let op = if creep && k + 4 < n {
            match k % 4 {
                0 => {
                    let mut x = e.x();
                    let i = (0..NC).max_by(|a, b| from[*a].total_cmp(&from[*b])).unwrap();
                    x[i] -= creep_step;
                    x[(i + 3) % NC] += creep_step;
                    Op::X(x)
                }
                1 => Op::T(e.t() * (1.0 + creep_step)),
                2 => Op::Pressure,
                _ => Op::D(e.d() * (1.0 + creep_step)),
            }
        } else {
            next_op(&mut cx.rng, m, &pool, &e.x(), e.t(), e.d(), hostile)
        };
        let judged = matches!(op, Op::Mass | Op::Pressure | Op::Properties | Op::Density(_));
        // a negative density is a documented input (an initial estimate)
        if judged && matches!(op, Op::Density(_)) && e.d() != 0.0 && cx.rng.chance(0.2) {
            let d = if e.d() < 0.0 { 0.0 } else { -e.d() };
            e.set_d(d);
            log.push(Op::D(d));
            if d < 0.0 {
                cx.rec.count("density from an estimate");
            }
        }
        // T = 0 and an empty composition are what a calculator starts with; they mean nothing
        let meant = e.t() != 0.0 && e.x().iter().any(|v| *v != 0.0);
        let fresh = judged && meant && (!creep || k % 100 == 2 || k + 5 > n);
        let mut b = None;
        if fresh {
            let mut f = Eos::new(m);
            f.set_x(&e.x());
            f.set_t(e.t());
            f.set_p(e.p());
            f.set_d(e.d());
            b = Some(f);
        }
        let ra = apply(&mut e, &op);
        log.push(op.clone());
        if let Some(mut f) = b {
            let rb = apply(&mut f, &op);
            agree(cx, m, &op, &ra, &rb, &e, &log)?;
            cx.rec.count(match op {
                Op::Mass => "molar_mass",
                Op::Pressure => "pressure",
                Op::Properties => "properties",
                _ => "density",
            });
            if ra.iter().any(|v| !v.1.is_finite()) {
                cx.rec.count("with non-finite output");
            }
            if creep {
                cx.rec.count("inside a history of 1500 calls");
            }
            cx.rec.hit(&[e.t(), e.p(), e.d(), e.x()[0], k as f64, cx.idx as f64]);
        }
    }
    cx.rec.sample(|| format!("{}: {}", m.name(), log.iter().rev().take(8).rev().map(|o| o.short()).collect::<Vec<_>>().join(" ; ")));
    Ok(())
}

// ------------------------------------------------------------------ C09

pub type Trace = Vec<(&'static str, u64)>;

pub struct Script {
    pub m: Model,
    pub ops: Vec<Op>,
}

pub fn script(r: &mut Rng, idx: u64, n: usize) -> Script {
    let m = if r.chance(0.5) { Model::Detail } else { Model::Gerg };
    let pool = [gen::any(r, idx).0, gen::any(r, idx + 1).0];
    let mut ops = vec![Op::X(pool[0]), Op::T(gen::temp(r)), Op::P(gen::press(r)), Op::D(gen::dens(r))];
    let (mut x, mut t, mut d) = (pool[0], 300.0, 1.0);
    for _ in 0..n {
        let op = next_op(r, m, &pool, &x, t, d, false);
        match &op {
            Op::X(y) => x = *y,
            Op::T(v) => t = *v,
            Op::D(v) => d = *v,
            _ => {}
        }
        ops.push(op);
    }
    Script { m, ops }
}

pub fn step(e: &mut Eos, o: &Op, t: &mut Trace) {
    for (n, v) in apply(e, o) {
        t.push((n, v.to_bits()));
    }
}

pub fn alone(s: &Script) -> Trace {
    let mut e = Eos::new(s.m);
    let mut t = vec![];
    for o in &s.ops {
        step(&mut e, o, &mut t);
    }
    t
}

pub fn differ(s: &Script, a: &Trace, b: &Trace) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} results alone, {} in company", a.len(), b.len()));
    }
    for (k, (u, v)) in a.iter().zip(b).enumerate() {
        if u != v && !same(f64::from_bits(u.1), f64::from_bits(v.1), 1e-10) {
            return Some(format!(
                "{} result {k} ({}): {:?} alone, {:?} in company; script: {}",
                s.m.name(), u.0, f64::from_bits(u.1), f64::from_bits(v.1),
                s.ops.iter().take(14).map(|o| o.short()).collect::<Vec<_>>().join(" ; ")
            ));
        }
    }
    None
}

pub fn c09(cx: &mut Cx) -> Result<(), String> {
    let k = 2 + cx.rng.below(4);
    let len = 6 + cx.rng.below(14);
    let mut scripts: Vec<Script> = (0..k).map(|i| script(&mut cx.rng, cx.idx + i as u64, len)).collect();
    // near-identical neighbours: what a wrongly keyed shared cache confuses
    if cx.rng.chance(0.6) {
        let m = scripts[0].m;
        let r = &mut cx.rng;
        let twin: Vec<Op> = scripts[0]
            .ops
            .iter()
            .map(|o| match o {
                Op::X(x) => Op::X(drift(r, x)),
                Op::T(t) if r.chance(0.3) => Op::T(t * (1.0 + 1e-9)),
                o => o.clone(),
            })
            .collect();
        scripts[1] = Script { m, ops: twin };
    }
    let threaded = cx.idx % 4 == 0;
    // many threads over the same few temperatures, densities and gases, calling back to back
    let busy = threaded && cx.rng.chance(0.15);
    let k = if busy { 6 } else { k };
    if busy {
        let m = if cx.rng.chance(0.5) { Model::Detail } else { Model::Gerg };
        let small = cx.rng.chance(0.7);
        let xs: Vec<X> = (0..2).map(|_| if small { gen::pure(cx.rng.below(NC)) } else { gen::any(&mut cx.rng, cx.idx).0 }).collect();
        let ts = [cx.rng.range(200.0, 500.0), cx.rng.range(200.0, 500.0)];
        let ds = [cx.rng.range(0.1, 8.0), cx.rng.range(0.1, 8.0)];
        let one = cx.rng.below(3);
        scripts = (0..k)
            .map(|_| {
                let r = &mut cx.rng;
                let mut ops = vec![Op::X(xs[0]), Op::T(ts[0]), Op::P(3000.0), Op::D(ds[0])];
                for _ in 0..if small { 300 } else { 60 } {
                    ops.push(match one {
                        0 => Op::T(*r.pick(&ts)),
                        1 => Op::X(*r.pick(&xs)),
                        _ => match r.below(3) {
                            0 => Op::T(*r.pick(&ts)),
                            1 => Op::X(*r.pick(&xs)),
                            _ => Op::D(*r.pick(&ds)),
                        },
                    });
                    ops.push(match r.below(8) {
                        0 => Op::Mass,
                        1 => Op::Density(0),
                        2 | 3 => Op::Pressure,
                        _ => Op::Properties,
                    });
                }
                Script { m, ops }
            })
            .collect();
        cx.rec.add("calculators on threads sharing a few inputs", k as u64);
    }
    let want: Vec<Trace> = scripts.iter().map(alone).collect();
    if threaded {
        // truly concurrent, all released at once
        let go = std::sync::Barrier::new(k);
        let got: Vec<Trace> = std::thread::scope(|s| {
            let hs: Vec<_> = scripts
                .iter()
                .map(|sc| {
                    let go = &go;
                    s.spawn(move || {
                        let mut e = Eos::new(sc.m);
                        let mut t = vec![];
                        go.wait();
                        for o in &sc.ops {
                            step(&mut e, o, &mut t);
                        }
                        t
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
        })
        .map_err(|_| "the library panicked on one of several threads".to_string())?;
        for i in 0..k {
            if let Some(w) = differ(&scripts[i], &want[i], &got[i]) {
                return Err(format!("{k} calculators on {k} threads: {w}"));
            }
        }
        cx.rec.add("calculators run on concurrent threads", k as u64);
    } else {
        // a random interleaving on one thread; calculators also move between owners
        let mut es: Vec<Option<Eos>> = scripts.iter().map(|_| None).collect();
        let mut pos = vec![0usize; k];
        let mut got: Vec<Trace> = vec![vec![]; k];
        let mut order = 0xcbf29ce484222325u64;
        while pos.iter().zip(&scripts).any(|(p, s)| *p < s.ops.len()) {
            let i = cx.rng.below(k);
            let burst = 1 + cx.rng.below(3);
            for _ in 0..burst {
                if pos[i] < scripts[i].ops.len() {
                    let e = es[i].get_or_insert_with(|| Eos::new(scripts[i].m));
                    step(e, &scripts[i].ops[pos[i]], &mut got[i]);
                    pos[i] += 1;
                    order = (order ^ i as u64).wrapping_mul(0x100000001b3);
                }
            }
            // calculators come and go
            if cx.rng.chance(0.1) {
                let mut tmp = Eos::new(scripts[i].m);
                let x = gen::any(&mut cx.rng, cx.idx).0;
                tmp.set_x(&x);
                tmp.set_t(gen::temp(&mut cx.rng));
                tmp.set_d(gen::dens(&mut cx.rng));
                tmp.properties();
            }
        }
        for i in 0..k {
            if let Some(w) = differ(&scripts[i], &want[i], &got[i]) {
                return Err(format!("{k} calculators interleaved: {w}"));
            }
        }
        cx.rec.hit(&[order as f64, cx.idx as f64, k as f64]);
        cx.rec.add("calculators interleaved on one thread", k as u64);
    }
    if threaded {
        cx.rec.hit(&[cx.idx as f64, -1.0, k as f64]);
    }
    cx.rec.add("results compared", want.iter().map(|t| t.len() as u64).sum());
    cx.rec.sample(|| format!("{} calculators ({}), {} results each", k, scripts.iter().map(|s| s.m.name()).collect::<Vec<_>>().join(","), want[0].len()));
    Ok(())
}

// ------------------------------------------------------------------ C18

pub fn c18(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let mut e = Eos::new(m);
    let dirty = cx.rng.f();
    for _ in 0..10 {
        let r = &mut cx.rng;
        let (mut x, _) = gen::any(r, cx.idx);
        let mut t = gen::temp(r);
        let mut p = gen::press(r);
        let mut d = gen::dens(r);
        let mut bad = 0;
        if r.chance(dirty) {
            for _ in 0..1 + r.below(3) {
                x[r.below(NC)] = gen::hostile(r);
            }
            bad += 1;
        }
        if r.chance(0.05) {
            x = [0.0; NC];
            bad += 1;
        }
        for v in [&mut t, &mut p, &mut d] {
            if r.chance(dirty * 0.6) {
                *v = gen::hostile(r);
                bad += 1;
            }
        }
        let flag = gen::flag(r);
        let calls = r.below(31) + 1;
        e.set_t(t);
        e.set_p(p);
        e.set_d(d);
        let accepted = match e.set_comp(&comp(&x)) {
            Ok(()) => {
                if x.iter().any(|v| v.is_nan() || v.is_infinite()) {
                    return Err(format!("set_composition accepted non-finite fractions: {}", show(&x)));
                }
                true
            }
            Err(_) => {
                e.set_x(&x);
                false
            }
        };
        let mut what = vec![];
        let spent = crate::run::own_cpu();
        if calls & 1 != 0 {
            e.molar_mass();
            what.push("molar_mass");
        }
        if calls & 2 != 0 {
            e.pressure();
            what.push("pressure");
        }
        if calls & 4 != 0 {
            let res = e.density(flag);
            what.push("density");
            let dd = e.d();
            match res {
                DRes::Ok if !(dd.is_finite() && dd > 0.0) => {
                    return Err(format!("{} density({flag}) says Ok with D={dd:?} at T={t:?} p={p:?} {}", m.name(), show(&x)));
                }
                DRes::Ok if !(t.is_finite() && p.is_finite() && p > 0.0) => {
                    return Err(format!("{} density({flag}) says Ok for T={t:?} p={p:?} {}", m.name(), show(&x)));
                }
                DRes::Ok if accepted && x.iter().all(|v| *v >= 0.0) && t > 60.0 && t < 1500.0 => {
                    // success is only claimed at the requested pressure
                    let own = e.pressure();
                    let (wp, wdp) = Mix::new(m, &x).p_jet(t, dd);
                    if wp.e.is_finite() && wp.e < 1e-4 * (p + dd * wdp.v.abs()) && !((own - p).abs() <= crate::c_density::residual_allowance(p, wp, wdp, dd)) {
                        return Err(format!("{} density({flag}) says Ok with D={dd:?}, where the pressure is {own:?}, at T={t:?} p={p:?} {}", m.name(), show(&x)));
                    }
                    cx.rec.count("Ok, verified");
                }
                DRes::ErrOk => return Err(format!("{} density({flag}) returned Err(DensityError::Ok) at T={t:?} p={p:?}", m.name())),
                _ => {}
            }
            cx.rec.count(&format!("density {res:?}"));
        }
        if calls & 8 != 0 {
            e.properties();
            what.push("properties");
        }
        let spent = crate::run::own_cpu() - spent;
        if spent > 0.5 {
            return Err(format!("{}: {} took {spent:.1} s of CPU time at T={t:?} p={p:?} D={d:?} flag={flag} {}", m.name(), what.join(", "), show(&x)));
        }
        cx.rec.max("CPU seconds for one group of calls", spent, || what.join(","));
        cx.rec.hit(&[t, p, d, x[0], x[1], flag as f64]);
        cx.rec.count(match bad {
            0 => "clean inputs",
            1 => "one hostile input",
            _ => "several hostile inputs",
        });
        cx.rec.sample(|| format!("{} T={t:e} p={p:e} D={d:e} flag={flag} {} -> {}", m.name(), show(&x), what.join(",")));
        // and afterwards the calculator still works
        if cx.rng.chance(0.3) {
            let y = gen::pipeline(&mut cx.rng);
            let t = cx.rng.range(270.0, 350.0);
            let p = cx.rng.range(100.0, 8000.0);
            let mut f = Eos::new(m);
            let mut o = vec![];
            // a density left by the failed calls is no estimate, unless it is negative
            if e.d() < 0.0 || cx.rng.chance(0.5) {
                e.set_d(0.0);
            } else {
                cx.rec.count(if e.d().is_finite() { "density left over" } else { "non-finite density left over" });
            }
            for c in [&mut e, &mut f] {
                c.set_x(&y);
                c.set_t(t);
                c.set_p(p);
                let r = c.density(0);
                c.properties();
                o.push((r, c.out()));
            }
            if o[0].0 != o[1].0 || o[0].1.iter().zip(&o[1].1).any(|(a, b)| !same(*a, *b, 1e-9)) {
                return Err(format!("{}: after hostile inputs (T={t:?}, p={p:?}, {}) the calculator gives {:?} instead of {:?}", m.name(), show(&y), o[0], o[1]));
            }
            cx.rec.count("recovered after hostile inputs");
        }
    }
    Ok(())
}
