//! C24-C27: saturation of pure fluids, frames of the calls, mixing of ideal gases, memory of the Rust interface.
use crate::c_model::{load, show};
use crate::c_state::{apply, next_op, Op};
use crate::eos::{DRes, Eos, NAMES, OUT};
use crate::gen;
use crate::refmodel::{Mix, Model, NC, X};
use crate::run::Cx;

const S: usize = 9;
const H: usize = 8;
const G: usize = 13;

/// Published critical pressures (kPa) and acentric factors, not taken from the code under test.
const PC: [f64; NC] = [
    4599.2, 3395.8, 7377.3, 4872.2, 4251.2, 3629.0, 3796.0, 3378.0, 3370.0, 3034.0, 2736.0, 2497.0, 2281.0, 2103.0, 1296.4,
    5043.0, 3494.0, 22064.0, 9000.0, 227.6, 4863.0,
];
const OMEGA: [f64; NC] = [
    0.01142, 0.0372, 0.2239, 0.0995, 0.1521, 0.184, 0.201, 0.2274, 0.251, 0.299, 0.349, 0.395, 0.4433, 0.4884, -0.219, 0.0222,
    0.0497, 0.3443, 0.1005, -0.385, -0.00219,
];

/// Vapour pressure by corresponding states (Ambrose and Walton 1989).
fn corresponding(i: usize, tr: f64) -> f64 {
    let y = 1.0 - tr;
    let f = |a: f64, b: f64, c: f64, d: f64| (a * y + b * y.powf(1.5) + c * y.powf(2.5) + d * y.powi(5)) / tr;
    let (f0, f1, f2) = (f(-5.97616, 1.29874, -0.60394, -1.06841), f(-5.03365, 1.11505, -5.41217, -7.46628), f(-0.64771, 2.41539, -4.26979, 3.25259));
    PC[i] * (f0 + OMEGA[i] * f1 + OMEGA[i] * OMEGA[i] * f2).exp()
}

struct Sat {
    p: f64,
    v: [f64; 16],
    l: [f64; 16],
}

/// The pressure at which the gas and the liquid that density() finds have one Gibbs energy.
fn saturation(cx: &mut Cx, e: &mut Eos, mix: &Mix, i: usize, t: f64, start: f64) -> Result<Sat, String> {
    let (rt, dc) = (Model::Gerg.r() * t, mix.dcx());
    let mut p = start;
    for it in 0..20 {
        let mut o = [[0.0; 16]; 2];
        let (roots, _) = mix.roots(t, p, 1.5 * dc, 4.0 * dc, 160);
        let Some(&liquid) = roots.iter().find(|&&d| mix.p_jet(t, d).1.v > 0.0) else {
            return Err(format!("the equation has no liquid at {} T={t:?} p={p:?}", NAMES[i]));
        };
        e.set_t(t);
        e.set_p(p);
        // the solver often gives up on liquids at low pressure; where it does not, it has to find this one
        if cx.rng.chance(0.5) {
            e.set_d(0.0);
            if e.density(2) == DRes::Ok && e.d() > dc {
                cx.rec.count("liquid found by flag 2");
                if !((e.d() / liquid - 1.0).abs() < 1e-6) {
                    return Err(format!("density(2) finds D={} and not the liquid {liquid}: {} T={t:?} p={p:?}", e.d(), NAMES[i]));
                }
            }
        }
        e.set_d(liquid);
        let pl = e.properties();
        o[1] = e.out();
        if !((pl - p).abs() < 1e-6 * p + 1e-8 * liquid * o[1][3]) {
            return Err(format!("the liquid at D={liquid:?} has p={pl}, not {p}: {} T={t:?}", NAMES[i]));
        }
        o[1][G] += (p - pl) / liquid;
        e.set_p(p);
        e.set_d(0.0);
        let flag = cx.rng.below(2) as i32;
        let r = e.density(flag);
        if r != DRes::Ok || !(e.d() < dc) {
            return Err(format!("density({flag}) should find the gas, but {r:?} D={} (critical density {dc}): {} T={t:?} p={p:?}", e.d(), NAMES[i]));
        }
        e.properties();
        o[0] = e.out();
        cx.rec.count("gas and liquid compared");
        let f = o[0][G] - o[1][G];
        if f.abs() < 1e-10 * rt {
            cx.rec.max("steps to saturation", it as f64, String::new);
            let [v, l] = o;
            return Ok(Sat { p, v, l });
        }
        let step = -f / (1.0 / o[0][0] - 1.0 / o[1][0]);
        p = (p + step).clamp(0.8 * p, 1.25 * p);
    }
    Err(format!("the Gibbs energies of gas and liquid do not meet: {} T={t:?} p={p:?}", NAMES[i]))
}

pub fn c24(cx: &mut Cx) -> Result<(), String> {
    let i = (cx.idx % NC as u64) as usize;
    let x = gen::pure(i);
    let mix = Mix::new(Model::Gerg, &x);
    let (tc, dc, r) = (mix.tcx(), mix.dcx(), Model::Gerg.r());
    let mut e = Eos::new(Model::Gerg);
    load(cx, &mut e, &x)?;
    let tr = gen::lit_in(&mut cx.rng, 0.6 * tc, 0.94 * tc).map(|t| t / tc).unwrap_or_else(|| cx.rng.range(0.6, 0.94));
    let t = tr * tc;
    let here = format!("{} T={t:?} ({tr:.4} Tc)", NAMES[i]);
    let want = corresponding(i, tr);
    let s = saturation(cx, &mut e, &mix, i, t, want)?;
    let tol = if matches!(i, 2 | 14 | 16 | 17 | 19) { 0.06 } else { 0.012 };
    let dev = (s.p / want - 1.0).abs();
    cx.rec.max("vapour pressure as a part of what is allowed", dev / tol, || here.clone());
    if !(dev <= tol) {
        return Err(format!("vapour pressure {} kPa, expected {want} within {tol}: {here}", s.p));
    }
    // the vapour-pressure curve and the latent heat belong together
    let h = 1e-4;
    let a = saturation(cx, &mut e, &mix, i, t * (1.0 - h), s.p)?;
    let b = saturation(cx, &mut e, &mix, i, t * (1.0 + h), s.p)?;
    let slope = (b.p - a.p) / (2.0 * h * t);
    let (ds, dh) = (s.v[S] - s.l[S], s.v[H] - s.l[H]);
    let clapeyron = ds / (1.0 / s.v[0] - 1.0 / s.l[0]);
    let (q, l) = ((slope / clapeyron - 1.0).abs(), (dh / (t * ds) - 1.0).abs());
    cx.rec.max("Clapeyron equation", q, || here.clone());
    cx.rec.max("latent heat against entropy", l, || here.clone());
    if !(ds > 0.0 && q < 2e-6 && l < 1e-8) {
        return Err(format!("slope of the vapour pressure {slope}, by the entropies {clapeyron}; latent heat {dh}, T ds {}: {here}", t * ds));
    }
    cx.rec.hit(&[i as f64, t]);
    cx.rec.count(NAMES[i]);
    cx.rec.sample(|| format!("{here}: psat={} (expected {want}), D={} and {}, latent heat {dh}", s.p, s.v[0], s.l[0]));
    // the critical point
    e.set_t(tc);
    e.set_d(dc);
    let p = e.pressure();
    e.properties();
    let o = e.out();
    let (u, v, w) = ((p / PC[i] - 1.0).abs(), (o[3] / (r * tc)).abs(), (o[4] * dc / (r * tc)).abs());
    cx.rec.max("critical pressure", u, || NAMES[i].into());
    cx.rec.max("slope at the critical point", v, || NAMES[i].into());
    cx.rec.max("curvature at the critical point", w, || NAMES[i].into());
    if !(u < 0.02 && v < 0.006 && w < 0.06) {
        return Err(format!("{} is not critical at T={tc} D={dc}: p={p} (published {}), dp_dd={}, d2p_dd2={}", NAMES[i], PC[i], o[3], o[4]));
    }
    Ok(())
}

/// Every public field, in one list.
pub fn fields(e: &Eos) -> Vec<f64> {
    let mut v = vec![e.t(), e.p()];
    v.extend(e.out());
    v.extend(e.x());
    if let Eos::G(g) = e {
        v.push(g.x[0]);
    }
    v
}

fn field(i: usize) -> String {
    match i {
        0 => "T".into(),
        1 => "p".into(),
        2..=17 => OUT[i - 2].into(),
        18..=38 => format!("x of {}", NAMES[i - 18]),
        _ => "x[0]".into(),
    }
}

/// May this call write that field?
fn allowed(m: Model, op: &Op, i: usize) -> bool {
    let (d, mm, z) = (2, 3, 4);
    match op {
        Op::Comp(_) | Op::X(_) => (18..=38).contains(&i),
        Op::T(_) => i == 0,
        Op::P(_) => i == 1,
        Op::D(_) => i == d,
        Op::Mass => i == mm,
        Op::Pressure => i == z,
        Op::Density(f) if m == Model::Detail || *f <= 0 => i == d || i == z,
        // the phase check leaves the properties of the state it looked at
        Op::Density(_) => (2..=17).contains(&i),
        Op::Properties => (3..=17).contains(&i) || (i == 1 && m == Model::Detail),
    }
}

/// Calls write the fields they are for, and no others.
pub fn c25(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let mut e = Eos::new(m);
    let pool: Vec<X> = (0..3).map(|k| gen::any(&mut cx.rng, cx.idx * 3 + k).0).collect();
    let hostile = cx.rng.chance(0.2);
    let start = [Op::Comp(pool[0]), Op::T(gen::temp(&mut cx.rng)), Op::P(gen::press(&mut cx.rng)), Op::D(gen::dens(&mut cx.rng))];
    for k in 0..60 {
        let op = if k < 4 {
            start[k].clone()
        } else {
            match next_op(&mut cx.rng, m, &pool, &e.x(), e.t(), e.d(), hostile) {
                Op::Density(0) if m == Model::Gerg => Op::Density(gen::flag(&mut cx.rng)),
                Op::D(v) if cx.rng.chance(0.2) => Op::D(-v),
                Op::Comp(y) if cx.rng.chance(0.15) => Op::Comp(gen::skew(&mut cx.rng, &y)),
                Op::X(y) if cx.rng.chance(0.1) => Op::X(gen::skew(&mut cx.rng, &y)),
                o => o,
            }
        };
        let a = fields(&e);
        let r = apply(&mut e, &op);
        let b = fields(&e);
        let refused = matches!(op, Op::Comp(_)) && r[0].1 != 0.0;
        for (i, (u, v)) in a.iter().zip(&b).enumerate() {
            if u.to_bits() != v.to_bits() && !(u.is_nan() && v.is_nan()) && (refused || !allowed(m, &op, i)) {
                return Err(format!("{} {} changed {} from {u:?} to {v:?} (T={:?} p={:?} D={:?} {})", m.name(), op.short(), field(i), a[0], a[1], a[2], show(&e.x())));
            }
        }
        cx.rec.count(match op {
            Op::Comp(_) if refused => "set_composition, refused",
            Op::Comp(_) => "set_composition",
            Op::Mass => "molar_mass",
            Op::Pressure => "pressure",
            Op::Density(_) if r[0].1 != 0.0 => "density, failed",
            Op::Density(_) => "density",
            Op::Properties => "properties",
            _ => "field written",
        });
        if matches!(op, Op::Comp(_) | Op::Mass | Op::Pressure | Op::Density(_) | Op::Properties) {
            cx.rec.hit(&[a[0], a[1], a[2], b[2], a[18], k as f64]);
        }
    }
    cx.rec.sample(|| format!("{} 60 calls, last fields {:?}", m.name(), &fields(&e)[..6]));
    Ok(())
}

/// Ideal gases mix as Gibbs said: each component as if it were alone with its partial density.
pub fn c26(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let (mut x, kind) = gen::any(&mut cx.rng, cx.idx / 2);
    for v in x.iter_mut() {
        if *v < 1e-4 {
            *v = 0.0;
        }
    }
    gen::norm(&mut x);
    let mut e = Eos::new(m);
    let mut f = Eos::new(m);
    load(cx, &mut e, &x)?;
    for _ in 0..4 {
        let t = gen::temp(&mut cx.rng).clamp(250.0, 1000.0);
        let d = cx.rng.logrange(1e-10, 1e-9);
        e.set_t(t);
        e.set_d(d);
        e.properties();
        let o = e.out();
        let mut sum = [0.0; 16];
        for i in (0..NC).filter(|i| x[*i] > 0.0) {
            if cx.rng.chance(0.5) {
                f = Eos::new(m);
            }
            load(cx, &mut f, &gen::pure(i))?;
            f.set_t(t);
            f.set_d(x[i] * d);
            f.properties();
            let q = f.out();
            for k in 0..16 {
                sum[k] += x[i] * q[k];
            }
        }
        let r = m.r();
        let big = 1.0 + r * t;
        for (k, scale) in [(1usize, 1.0), (7, big), (H, big), (G, big), (S, 10.0), (10, 10.0), (11, 10.0)] {
            let dev = (o[k] - sum[k]).abs() / scale / (1e-7 + 4e-6 * d / 1e-9);
            cx.rec.max(&format!("{} {}", m.name(), OUT[k]), dev, || format!("T={t} D={d} {}", show(&x)));
            if !(dev < 1.0) {
                return Err(format!("{} {} of the dilute mixture is {}, of its components alone {}: T={t:?} D={d:?} {}", m.name(), OUT[k], o[k], sum[k], show(&x)));
            }
        }
        cx.rec.hit(&[t, d, x[0], x[1], x[2], cx.idx as f64]);
        cx.rec.count(&format!("{} {kind}", m.name()));
        cx.rec.sample(|| format!("{} T={t} D={d}: h {} / {}, s {} / {} ({})", m.name(), o[H], sum[H], o[S], sum[S], show(&x)));
    }
    Ok(())
}

/// Calculators keep no memory: what is in use does not grow with the number of calls.
#[cfg(feature = "ffi")]
pub fn c27(cx: &mut Cx) -> Result<(), String> {
    use crate::c_ffi::live;
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let pool: Vec<X> = (0..3).map(|k| gen::any(&mut cx.rng, cx.idx * 3 + k).0).collect();
    if cx.idx < 16 {
        // many different calls, on one calculator or on many: a memory of anything would fill
        let n = if cx.thorough { 1_000_000 } else { 80_000 };
        let mut e = Eos::new(m);
        for o in [Op::Comp(pool[0]), Op::T(300.0), Op::P(3000.0), Op::D(1.0)] {
            apply(&mut e, &o);
        }
        let mode = cx.idx / 2;
        let mut books = [(0, 0); 3];
        for k in 0..=n {
            if k % (n / 2) == 0 {
                let l = live();
                books[2 * k / n] = (l.0, l.1);
            }
            let r = &mut cx.rng;
            match mode {
                0 | 1 => {
                    let o = match next_op(r, m, &pool, &[1.0 / 21.0; NC], 300.0, 1.0, mode == 1) {
                        Op::Density(_) if mode == 1 => Op::Density(gen::flag(r)),
                        o => o,
                    };
                    drop(apply(&mut e, &o));
                }
                2 => {
                    e.set_x(&gen::binary(0, 1 + k % 20, r.f()));
                    e.set_t(r.range(200.0, 500.0));
                    e.pressure();
                }
                3 => {
                    e.set_t(r.range(100.0, 1000.0));
                    e.set_p(r.logrange(10.0, 1e6));
                    e.set_d(if r.chance(0.2) { -r.logrange(1e-3, 50.0) } else { 0.0 });
                    e.density(gen::flag(r));
                }
                4 => {
                    e.set_t(r.logrange(50.0, 2000.0));
                    e.set_d(r.logrange(1e-6, 30.0));
                    e.properties();
                }
                5 => {
                    // accepted and rejected compositions
                    let mut y = gen::any(r, k as u64).0;
                    match k % 4 {
                        0 => y = gen::skew(r, &y),
                        1 => y[r.below(NC)] = gen::hostile(r),
                        2 => y = y.map(|v| v * r.range(0.5, 1.5)),
                        _ => {}
                    }
                    let _ = e.set_comp(&crate::eos::comp(&y));
                    if k % 16 == 0 {
                        let mut c = crate::eos::comp(&y);
                        let _ = c.normalize();
                        let _ = (c.check(), c.sum());
                        e.molar_mass();
                    }
                }
                6 => {
                    // solves that fail
                    e.set_t(r.logrange(60.0, 300.0));
                    e.set_p(if r.chance(0.5) { r.logrange(1e6, 1e15) } else { gen::hostile(r) });
                    e.set_d(if r.chance(0.5) { -r.logrange(1e-3, 1e3) } else { 0.0 });
                    e.density(gen::flag(r));
                }
                _ => {
                    // many short lives
                    if k % 4 == 0 {
                        e = Eos::new(m);
                        let _ = e.set_comp(&crate::eos::comp(r.pick(&pool)));
                        e.set_t(300.0);
                        e.set_p(2000.0);
                    }
                    match k % 4 {
                        1 => drop(e.density(0)),
                        2 => drop(e.properties()),
                        _ => drop(e.pressure()),
                    }
                }
            }
        }
        let grown = (books[2].0 - books[1].0, books[2].1 - books[1].1);
        cx.rec.max("bytes grown over the second half of a long run", grown.1 as f64, || m.name().into());
        if grown.1 > 256 || grown.0 > 4 {
            return Err(format!("{}: {} more blocks and {} more bytes in use after {n} calls than after half of them (kind {mode})", m.name(), grown.0, grown.1));
        }
        cx.rec.count("long runs");
        cx.rec.hit(&[cx.idx as f64, n as f64]);
        return Ok(());
    }
    let hostile = cx.rng.chance(0.3);
    let mut ops = vec![Op::Comp(pool[0]), Op::T(300.0), Op::P(5000.0), Op::D(2.0)];
    for _ in 0..30 {
        ops.push(next_op(&mut cx.rng, m, &pool, &pool[0], 300.0, 1.0, hostile));
    }
    // the same life again and again: something may be set up for good once, but not every time
    let mut kept = vec![];
    for _ in 0..4 {
        let a = live();
        {
            let mut e = Eos::new(m);
            for o in &ops {
                apply(&mut e, o);
            }
        }
        let b = live();
        kept.push((b.0 - a.0, b.1 - a.1));
    }
    if kept.iter().all(|k| k.0 > 0 || k.1 > 0) {
        return Err(format!("{} calculators keep memory after they are dropped: {kept:?} blocks and bytes, each time, after {}", m.name(), ops.iter().map(|o| o.short()).collect::<Vec<_>>().join(" ; ")));
    }
    cx.rec.count("lives");
    cx.rec.add("calls", 4 * ops.len() as u64);
    cx.rec.hit(&[cx.idx as f64, ops.len() as f64]);
    cx.rec.sample(|| format!("{} {} calls four times: {kept:?}", m.name(), ops.len()));
    Ok(())
}

/// d ln p / d ln D and its derivative by ln D; None where the equation is not usable as ln p.
fn log_slopes(mix: &Mix, t: f64, d: f64) -> Option<(f64, f64, f64)> {
    let w = mix.props(t, d);
    let (p, a, b) = (w.p, w.dp_dd, w.d2p_dd2);
    if !(p.v > 0.0 && p.e < 3e-4 * p.v && a.e < 1e-9 * a.v.abs() && a.v > 0.0) {
        return None;
    }
    let g = d * a.v / p.v;
    Some((p.v.ln(), g, g + d * d * b.v / p.v - g * g))
}

/// A negative density is an estimate: the solver starts there, and finds the density next to it.
pub fn c28(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let (x, kind) = gen::any(&mut cx.rng, cx.idx / 2);
    let mix = Mix::new(m, &x);
    let mut e = Eos::new(m);
    load(cx, &mut e, &x)?;
    let (tc, dc) = (mix.tcx(), mix.dcx());
    for _ in 0..10 {
        let cold = cx.rng.chance(0.5);
        let t = if cold { tc * cx.rng.range(0.45, 1.0) } else { gen::temp(&mut cx.rng) };
        // gas, liquid and anything between, as long as the isotherm rises
        let root = match cx.rng.below(4) {
            // a liquid at little pressure
            _ if cold && cx.rng.chance(0.4) => {
                let foot = cx.rng.logrange(1e-3, 1e4);
                mix.roots(t, foot, 1.5 * dc, 4.0 * dc, 30).0.last().copied().unwrap_or(3.0 * dc)
            }
            _ if cold && cx.rng.chance(0.5) => cx.rng.range(2.2, 3.5) * dc,
            0 => cx.rng.logrange(1e-6, 0.5) * dc,
            1 => cx.rng.range(1.8, 3.4) * dc,
            2 => cx.rng.range(0.3, 2.5) * dc,
            _ => gen::dens(&mut cx.rng).min(4.0 * dc),
        };
        let Some((lp, g, c)) = log_slopes(&mix, t, root) else {
            cx.rec.count("no stable state here");
            continue;
        };
        let p = lp.exp();
        if !(1e-6..1e7).contains(&p) {
            continue;
        }
        let off = match cx.rng.below(3) {
            0 => cx.rng.logrange(1e-12, 0.7),
            1 => cx.rng.range(0.0, 0.4),
            // as far as the promise may reach
            _ => (cx.rng.range(0.0, 0.25) * g / (c.abs() + 0.3 * g)).min(0.7),
        } * if cx.rng.chance(0.5) { 1.0 } else { -1.0 };
        let guess = if cx.rng.chance(0.05) { root } else { root * off.exp() };
        // Newton's method in ln p over ln D converges from here, says Kantorovich
        let Some((l0, g0, _)) = log_slopes(&mix, t, guess) else {
            cx.rec.count("estimate not usable");
            continue;
        };
        let step = ((l0 - lp) / g0).abs().max(1e-9);
        let mut k = 0f64;
        let mut fine = (root / guess).ln().abs() <= 2.0 * step + 1e-9;
        for j in 0..=16 {
            match log_slopes(&mix, t, guess * (2.0 * step * (j as f64 / 8.0 - 1.0)).exp()) {
                Some((_, _, c)) => k = k.max(c.abs() / g0),
                None => fine = false,
            }
            if !fine || !(step * k < 0.2) {
                fine = false;
                break;
            }
        }
        if !fine || g < 1e-3 {
            cx.rec.count("no promise from here");
            continue;
        }
        let flag = if m == Model::Detail { 0 } else { *cx.rng.pick(&[0, 0, 0, -1, 1, 2]) };
        if flag > 0 {
            let w = mix.props(t, root);
            if ![w.p, w.dp_dd, w.d2p_dtd, w.cv, w.cp, w.w2].iter().all(|b| b.positive()) {
                continue;
            }
        }
        e.set_t(t);
        e.set_p(p);
        e.set_d(-guess);
        let r = e.density(flag);
        let here = || format!("{} density({flag}) T={t:?} p={p:?} from the estimate {guess:?} (off by {off:e}): {}", m.name(), show(&x));
        let w = mix.p_jet(t, root);
        let tol = 1e-9 + 10.0 * k * 1e-14 + 3.0 * (w.0.e / w.0.v + 1e-15) / g;
        let dev = (e.d() / root - 1.0).abs() / tol;
        if r != DRes::Ok || !(dev <= 1.0) {
            return Err(format!("{r:?} D={:?}, but the density next to the estimate is {root:?}: {}", e.d(), here()));
        }
        cx.rec.max(m.name(), dev, here);
        cx.rec.count(&format!("{} {} found from {}", m.name(), if root > 1.5 * dc && t < tc { "liquid" } else { "gas" }, if off.abs() > 0.03 { "afar" } else { "nearby" }));
        if root > 300.0 * p / (m.r() * t) {
            cx.rec.count(&format!("{} liquid at little pressure", m.name()));
        }
        // somewhere else on the isotherm there may be another density with this pressure
        e.set_d(0.0);
        let r0 = e.density(flag);
        let d0 = e.d();
        if r0 != DRes::Ok || !((d0 / root - 1.0).abs() < 1e-6) {
            cx.rec.count(&format!("{} not what is found without the estimate", m.name()));
        }
        // and a density that is not negative is no estimate
        e.set_d(guess);
        let r1 = e.density(flag);
        if r1 != r0 || e.d().to_bits() != d0.to_bits() {
            return Err(format!("with D={guess:?} before the call density() gives {r1:?} D={:?}, with D=0 before it {r0:?} D={d0:?}: {}", e.d(), here()));
        }
        cx.rec.hit(&[t, root, guess, x[0], x[1], flag as f64]);
        cx.rec.count(kind);
        cx.rec.sample(|| format!("{} -> D={root}; without the estimate {r0:?} D={d0}", here()));
    }
    Ok(())
}
