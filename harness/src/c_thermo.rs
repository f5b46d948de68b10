//! C10 thermodynamic identities, C11 ideal-gas limit, C20 agreement of the two equations,
//! C21 physical gas behaviour, C22 continuity, C23 density() as the inverse of pressure().
use crate::c_density::least_slope;
use crate::c_model::{load, show};
use crate::eos::{DRes, Eos};
use crate::gen;
use crate::jet::B;
use crate::refmodel::{Mix, Model, NC, X};
use crate::run::Cx;

const MM: usize = 1;
const Z: usize = 2;
const DP_DD: usize = 3;
const D2P_DD2: usize = 4;
const D2P_DTD: usize = 5;
const DP_DT: usize = 6;
const U: usize = 7;
const H: usize = 8;
const S: usize = 9;
const CV: usize = 10;
const CP: usize = 11;
const W: usize = 12;
const G: usize = 13;
const JT: usize = 14;
const KAPPA: usize = 15;

fn model(cx: &Cx) -> Model {
    if cx.idx % 2 == 0 {
        Model::Detail
    } else {
        Model::Gerg
    }
}

/// properties() at a state: (p, outputs)
fn at(e: &mut Eos, t: f64, d: f64) -> (f64, [f64; 16]) {
    e.set_t(t);
    e.set_d(d);
    let p = e.properties();
    (p, e.out())
}

/// Five-point derivative and an error bound from halving the step.
fn diff(mut f: impl FnMut(f64) -> f64, x: f64, rel: f64) -> (f64, f64, f64) {
    let mut one = |h: f64| {
        let (a, b, c, d) = (f(x - 2.0 * h), f(x - h), f(x + h), f(x + 2.0 * h));
        let big = a.abs().max(b.abs()).max(c.abs()).max(d.abs());
        ((a - 8.0 * b + 8.0 * c - d) / (12.0 * h), big / h)
    };
    let (d1, _) = one(x * rel);
    let (d2, n) = one(x * rel * 0.5);
    (d2, (d1 - d2).abs(), n)
}

pub fn c10(cx: &mut Cx) -> Result<(), String> {
    let m = model(cx);
    let r = m.r();
    let mut e = Eos::new(m);
    let (x, kind) = gen::any(&mut cx.rng, cx.idx / 2);
    load(cx, &mut e, &x)?;
    // the ideal part of the entropy carries the sum of the fractions, the pressure does not
    let excess: f64 = x.iter().sum::<f64>() - 1.0;
    for k in 0..6 {
        let t = gen::temp(&mut cx.rng).clamp(100.0, 1000.0);
        let d = gen::dens(&mut cx.rng).max(1e-6);
        let (p, o) = at(&mut e, t, d);
        let pp = e.pressure();
        let here = || format!("{} T={t:?} D={d:?} {}", m.name(), show(&x));
        let mut n = 0u64;
        // -- algebra
        let mut alg = |name: &str, a: f64, b: f64, scale: f64| -> Result<(), String> {
            if !(scale.is_finite() && a.is_finite() && b.is_finite()) {
                return Ok(());
            }
            n += 1;
            if (a - b).abs() > 2e-10 * scale.max(a.abs()).max(b.abs()) {
                return Err(format!("{name} does not hold: {a:?} against {b:?} at {}", here()));
            }
            Ok(())
        };
        let rtd = r * t * d;
        alg("pressure() = p of properties()", pp, p, rtd)?;
        alg("p = z R T D", p, o[Z] * rtd, rtd)?;
        alg("h = u + p/D", o[H], o[U] + p / d, o[U].abs() + (p / d).abs() + 1e3)?;
        alg("g = h - T s", o[G], o[H] - t * o[S], o[H].abs() + (t * o[S]).abs() + 1e3)?;
        let q = o[DP_DT] / d;
        let extra = t * q * q / o[DP_DD];
        alg("cp = cv + T (dp/dT)^2 / (D^2 dp/dD)", o[CP], o[CV] + extra, o[CV].abs() + extra.abs())?;
        let num = t * q / o[DP_DD];
        alg("jt = (T dp/dT / (D dp/dD) - 1) / (cp D)", o[JT] * o[CP] * d, num - 1.0, num.abs() + 1.0)?;
        let w2 = 1000.0 * o[CP] / o[CV] * o[DP_DD] / o[MM];
        alg("w^2 = cp/cv dp/dD / M", o[W] * o[W], w2.max(0.0), w2.abs())?;
        alg("kappa = w^2 M / (z R T)", o[KAPPA] * 1000.0 * r * t * o[Z], o[W] * o[W] * o[MM], 1000.0 * r * t * o[Z].abs())?;
        cx.rec.add("identities checked", n);
        // -- differentiation (states away from the extremes, where differences mean something)
        if !(d > 1e-3 && d < 30.0 && p.abs() < 1e7) {
            cx.rec.hit(&[t, d, k as f64, cx.idx as f64]);
            continue;
        }
        let mut n = 0u64;
        let mut vague = 0u64;
        let mut fd = |name: &str, (num, err, noise): (f64, f64, f64), said: f64, scale: f64| -> Result<(), String> {
            let tol = 20.0 * err + 3e-12 * noise + 1e-8 * scale;
            if !(tol < 1e-3 * said.abs().max(scale)) {
                vague += 1;
                return Ok(());
            }
            n += 1;
            if !((num - said).abs() <= tol) {
                return Err(format!("{name}: reported {said:?}, by differences {num:?} (allowed {tol:.1e}) at {}", here()));
            }
            Ok(())
        };
        let hs = 2e-3;
        fd("dp/dD", diff(|v| { e.set_t(t); e.set_d(v); e.pressure() }, d, hs), o[DP_DD], r * t)?;
        fd("dp/dT", diff(|v| { e.set_t(v); e.set_d(d); e.pressure() }, t, hs), o[DP_DT], r * d)?;
        fd("d2p/dD2", diff(|v| at(&mut e, t, v).1[DP_DD], d, hs), o[D2P_DD2], r * t / d.max(1.0) * 0.1)?;
        if m == Model::Gerg {
            fd("d2p/dTdD", diff(|v| at(&mut e, t, v).1[DP_DT], d, hs), o[D2P_DTD], r)?;
        }
        fd("cv = du/dT", diff(|v| at(&mut e, v, d).1[U], t, hs), o[CV], r)?;
        fd("cv = T ds/dT", { let (a, b, c) = diff(|v| at(&mut e, v, d).1[S], t, hs); (a * t, b * t, c * t) }, o[CV], r)?;
        fd("-D^2 ds/dD = dp/dT", { let (a, b, c) = diff(|v| at(&mut e, t, v).1[S], d, hs); (-a * d * d, b * d * d, c * d * d) }, o[DP_DT] + r * d * excess, r * d)?;
        fd("D^2 du/dD = p - T dp/dT", { let (a, b, c) = diff(|v| at(&mut e, t, v).1[U], d, hs); (a * d * d, b * d * d, c * d * d) }, p - t * o[DP_DT], r * t * d)?;
        cx.rec.add("derivatives checked", n);
        cx.rec.add("derivatives too noisy to judge", vague);
        cx.rec.hit(&[t, d, k as f64, cx.idx as f64]);
        cx.rec.count(&format!("composition {kind}"));
        cx.rec.sample(|| format!("{} -> h={} s={} cv={} cp={} w={}", here(), o[H], o[S], o[CV], o[CP], o[W]));
    }
    Ok(())
}

pub fn c11(cx: &mut Cx) -> Result<(), String> {
    let m = model(cx);
    let r = m.r();
    let mut e = Eos::new(m);
    let (x, kind) = gen::any(&mut cx.rng, cx.idx / 2);
    load(cx, &mut e, &x)?;
    let sx: f64 = x.iter().sum();
    for _ in 0..6 {
        let t = gen::temp(&mut cx.rng).clamp(150.0, 1000.0);
        let here = |d: f64| format!("{} T={t:?} D={d:?} {}", m.name(), show(&x));
        let near = |name: &str, a: f64, b: f64, tol: f64, d: f64| -> Result<(), String> {
            if (a - b).abs() <= tol {
                Ok(())
            } else {
                Err(format!("{name} is {a:?}, the ideal-gas limit is {b:?} (allowed {tol:.1e}) at {}", here(d)))
            }
        };
        // exactly zero density
        let (p, o) = at(&mut e, t, 0.0);
        let p0 = { e.set_d(0.0); e.pressure() };
        let mixm = Mix::new(m, &x);
        for (i, v) in o.iter().enumerate() {
            if !v.is_finite() {
                return Err(format!("{} is {v} at zero density: {}", crate::eos::OUT[i], here(0.0)));
            }
        }
        near("p of properties()", p, 0.0, 0.0, 0.0)?;
        near("pressure()", p0, 0.0, 0.0, 0.0)?;
        near("z", o[Z], 1.0, 1e-14, 0.0)?;
        near("dp_dd", o[DP_DD], r * t, 1e-12 * r * t, 0.0)?;
        near("dp_dt", o[DP_DT], 0.0, 0.0, 0.0)?;
        near("cp - cv", o[CP] - o[CV], r, 1e-12 * o[CP], 0.0)?;
        near("h - u", o[H] - o[U], r * t, 1e-10 * (o[H].abs() + 1e4), 0.0)?;
        let w = (1000.0 * o[CP] / o[CV] * r * t / o[MM]).sqrt();
        near("w", o[W], w, 1e-10 * w, 0.0)?;
        near("kappa", o[KAPPA], o[CP] / o[CV], 1e-10, 0.0)?;
        near("g - (h - T s)", o[G] - (o[H] - t * o[S]), 0.0, 1e-10 * (o[H].abs() + (t * o[S]).abs() + 1e4), 0.0)?;
        near("mm", o[MM], m.mm(&x).v, 1e-10 * o[MM], 0.0)?;
        // approach from small densities: the virial regime
        let d = cx.rng.logrange(1e-13, 1e-4);
        let (_, q) = at(&mut e, t, d);
        // bound on the linear term from the reference second virial coefficient
        let b: crate::refmodel::Alpha<3, 4> = mixm.alphar(t, 1e-9);
        let mag = |k: usize| b.m[0][k] + t * b.m[1][k] + 2.0 * t * t * b.m[2][k];
        let bm = mag(1);
        if bm * d > 0.1 {
            cx.rec.count("skipped: not dilute for this gas");
            continue;
        }
        let lin = 3.0 * d * (bm + 4.0 * d * (mag(2) + 3.0 * d * mag(3))) + 1e-13;
        near("z", q[Z], 1.0, lin, d)?;
        near("dp_dd", q[DP_DD], r * t, lin * r * t, d)?;
        near("dp_dt / D", q[DP_DT] / d, r, lin * r + 1e-12 * r, d)?;
        near("u", q[U], o[U], lin * r * t + 1e-10 * (o[U].abs() + 1e4), d)?;
        near("h", q[H], o[H], lin * r * t + 1e-10 * (o[H].abs() + 1e4), d)?;
        near("cv", q[CV], o[CV], lin * r + 1e-10 * o[CV], d)?;
        near("cp", q[CP], o[CP], 4.0 * lin * r * (1.0 + o[CP] / r) + 1e-10 * o[CP], d)?;
        near("w", q[W], o[W], o[W] * (4.0 * lin + 1e-10), d)?;
        // quantities of the second order in D have virial limits: 2 R T B and (T dB/dT - B)/cp
        {
            let (bv, bt) = (b.v[0][1], t * b.v[1][1]);
            let high = d * (20.0 * bm * bm + 20.0 * mag(2) + 60.0 * d * mag(3)) + 1e-9 * bm;
            near("d2p_dd2", q[D2P_DD2], 2.0 * r * t * bv, r * t * high, d)?;
            let cp = o[CP];
            let j0 = (bt - bv) / cp;
            near("jt", q[JT], j0, (high + 1e-13 / d) / cp + j0.abs() * 4.0 * lin * (1.0 + cp / r), d)?;
            if 1e-13 / d < 1e-2 * bm {
                cx.rec.count("second-order limits");
            }
        }
        // entropy: -R ln D
        let f = cx.rng.logrange(1.5, 100.0);
        let d2 = d / f;
        let (_, q2) = at(&mut e, t, d2);
        near("s(D/f) - s(D) - R ln f", q2[S] - q[S] - r * sx * f.ln(), 0.0, lin * r + 1e-10 * (q[S].abs() + 100.0), d)?;
        near("g(D) - g(D/f) - R T ln f", q[G] - q2[G] - r * t * sx * f.ln(), 0.0, lin * r * t + 1e-10 * (q[G].abs() + 1e4), d)?;
        // the virial slope is the same at D and D/f
        if d > 1e-6 && d2 > 1e-7 {
            let (b1, b2) = ((q[Z] - 1.0) / d, (q2[Z] - 1.0) / d2);
            let c3: crate::refmodel::Alpha<1, 4> = mixm.alphar(t, 1e-9);
            let bend = 4.0 * (c3.m[0][2] + c3.m[0][3] * d) * d;
            near("(z-1)/D at D against D/f", b1, b2, bend + 1e-14 / d2 + 1e-6 * bm, d)?;
            cx.rec.count("virial slope");
        }
        cx.rec.hit(&[t, d, x[0], x[1], cx.idx as f64]);
        cx.rec.count(&format!("composition {kind}"));
        cx.rec.sample(|| format!("{}: z-1={:e} cp-cv-R={:e}", here(d), q[Z] - 1.0, q[CP] - q[CV] - r));
    }
    // the zero of enthalpy and entropy: ideal gas at 298.15 K and 101.325 kPa
    let i = (cx.idx / 2 % NC as u64) as usize;
    e.set_x(&gen::pure(i));
    let t0 = 298.15;
    let d = 1e-10;
    let (_, q) = at(&mut e, t0, d);
    let s0 = q[S] - r * (101.325 / (r * t0) / d).ln();
    cx.rec.max("|h| at the reference state", q[H].abs(), || format!("{} {}", m.name(), crate::eos::NAMES[i]));
    cx.rec.max("|s| at the reference state", s0.abs(), || format!("{} {}", m.name(), crate::eos::NAMES[i]));
    if !(q[H].abs() < 2e-3) || !(s0.abs() < 5e-6) {
        return Err(format!("{} {}: ideal-gas enthalpy and entropy at 298.15 K, 101.325 kPa are {} J/mol and {} J/(mol K), not zero", m.name(), crate::eos::NAMES[i], q[H], s0));
    }
    cx.rec.count("reference state");
    Ok(())
}

/// Pipeline gas within the ranges of the two standards' best accuracy.
pub fn c20(cx: &mut Cx) -> Result<(), String> {
    let x = match cx.rng.below(10) {
        0 => gen::pure(*cx.rng.pick(&[0usize, 1, 19, 20])),
        1 => gen::any_air(&mut cx.rng),
        2 | 3 => gen::pipeline(&mut cx.rng),
        _ => gen::normal_range(&mut cx.rng),
    };
    // the closer limits for gases without the rarer components
    let mut x = x;
    if x[0] > 0.0 && x[0] < 1.0 {
        let keep = match cx.rng.below(6) {
            0 | 1 => 3,
            2 | 3 => 9,
            _ => NC,
        };
        x[keep..].fill(0.0);
        gen::norm(&mut x);
    }
    let mut a = Eos::new(Model::Detail);
    let mut b = Eos::new(Model::Gerg);
    load(cx, &mut a, &x)?;
    load(cx, &mut b, &x)?;
    for _ in 0..8 {
        let t = cx.rng.range(270.0, 350.0);
        let p = if cx.rng.chance(0.3) { cx.rng.logrange(1.0, 12_000.0) } else { cx.rng.range(50.0, 12_000.0) };
        let mut o = vec![];
        for e in [&mut a, &mut b] {
            e.set_t(t);
            e.set_p(p);
            e.set_d(0.0);
            if e.density(0) != DRes::Ok {
                return Err(format!("no density for pipeline gas at T={t} p={p} {}", show(&x)));
            }
            e.properties();
            o.push(e.out());
        }
        // the equations differ by their fits: nearly in proportion to the pressure, least for methane, nitrogen,
        // argon and air, and most for gases with little methane, and helium
        let q = p / 12_000.0;
        let (heavy, odd): (f64, f64) = (x[3..9].iter().sum(), x[9..].iter().sum());
        let class = match x[0] {
            v if x[19] == 0.0 && (v == 0.0 || v == 1.0) => 0,
            v if v > 0.0 && odd == 0.0 && heavy <= 0.002 => 1,
            v if v > 0.0 && odd <= 2e-4 => 2,
            v if v >= 0.85 => 3,
            _ => 4,
        };
        cx.rec.count(["simple gas", "methane, nitrogen, carbon dioxide", "methane to pentane, nitrogen, carbon dioxide", "at least 85 % methane", "less methane, or helium"][class]);
        type Lim = [f64; 3];
        let lim: [(usize, &str, [Lim; 5], bool); 9] = [
            (0, "density", [[2e-5, 0.0045, -0.0015], [2e-5, 0.003, 0.0], [2e-5, 0.014, 0.006], [2e-5, 0.012, 0.02], [2e-5, 0.02, 0.03]], true),
            (Z, "z", [[2e-5, 0.0045, -0.0015], [2e-5, 0.003, 0.0], [2e-5, 0.014, 0.006], [2e-5, 0.012, 0.02], [2e-5, 0.02, 0.03]], true),
            (MM, "molar mass", [[5e-5, 0.0, 0.0]; 5], true),
            (W, "speed of sound", [[5e-5, 0.0035, -0.0015], [5e-5, 0.0035, 0.0], [5e-5, 0.008, 0.005], [5e-5, 0.01, 0.015], [5e-5, 0.015, 0.06]], true),
            (CP, "cp", [[2e-5, 0.04, -0.023], [2e-5, 0.018, 0.0], [2e-5, 0.038, 0.017], [2e-5, 0.05, 0.05], [2e-5, 0.07, 0.05]], true),
            (CV, "cv", [[2e-5, 0.05, -0.028], [2e-5, 0.017, 0.0], [2e-5, 0.032, 0.013], [2e-5, 0.05, 0.03], [2e-5, 0.07, 0.03]], true),
            (KAPPA, "kappa", [[2e-5, 0.0105, -0.006], [2e-5, 0.006, 0.0], [2e-5, 0.014, 0.011], [2e-5, 0.012, 0.025], [2e-5, 0.017, 0.09]], true),
            (H, "h", [[0.02, 28.0, 0.0], [0.02, 37.0, 0.0], [0.02, 135.0, 0.0], [0.02, 180.0, 0.0], [0.02, 200.0, 0.0]], false),
            (S, "s", [[1e-3, 0.085, 0.0], [1e-3, 0.12, 0.0], [1e-3, 0.42, 0.0], [1e-3, 0.6, 0.0], [1e-3, 0.6, 0.0]], false),
        ];
        for (i, n, l, rel) in lim {
            let [c, a, b] = l[class];
            let tol = c + a * q + b * q * q;
            let (u, v) = (o[0][i], o[1][i]);
            let dev = if rel { (u / v - 1.0).abs() } else { (u - v).abs() };
            cx.rec.max(&format!("{n} deviation as a part of what is allowed, class {class}"), dev / tol, || format!("T={t} p={p} {}", show(&x)));
            if !(dev <= tol) {
                return Err(format!("DETAIL and GERG-2008 disagree on {n}: {u} against {v} (allowed {tol:.2e}) at T={t:?} p={p:?} {}", show(&x)));
            }
        }
        cx.rec.hit(&[t, p, x[0], x[1], x[2]]);
        cx.rec.count(match p { p if p < 1000.0 => "p<1 MPa", p if p < 5000.0 => "p 1-5 MPa", _ => "p 5-12 MPa" });
        cx.rec.sample(|| format!("T={t} p={p}: D {} / {}, w {} / {}", o[0][0], o[1][0], o[0][W], o[1][W]));
    }
    Ok(())
}

pub fn c21(cx: &mut Cx) -> Result<(), String> {
    let m = model(cx);
    let mut e = Eos::new(m);
    let (x, kind) = if m == Model::Detail {
        let (mut x, k) = crate::c_density::detail_gas(cx);
        // outside the range of the equation: mostly hydrogen, or carbon monoxide with carbon dioxide
        if x[14] > 0.2 {
            x[14] = 0.2;
            x[0] += 0.2;
            gen::norm(&mut x);
        }
        if x[16] > 0.3 && x[16] < 1.0 {
            x[0] += x[16] - 0.3;
            x[16] = 0.3;
            gen::norm(&mut x);
        }
        (x, k)
    } else {
        match cx.rng.below(4) {
            0 => (gen::pipeline(&mut cx.rng), "pipeline"),
            1 => (gen::any_air(&mut cx.rng), "air"),
            2 => crate::c_density::detail_gas(cx),
            _ => (gen::pure(*cx.rng.pick(&[0usize, 1, 2, 3, 14, 15, 16, 19, 20])), "light pure"),
        }
    };
    load(cx, &mut e, &x)?;
    let mix = Mix::new(m, &x);
    for _ in 0..4 {
        let t = cx.rng.range(1.35 * mix.tcx(), 650.0_f64.max(1.5 * mix.tcx())).max(220.0);
        let mut pts: Vec<f64> = (0..6).map(|_| gen::press(&mut cx.rng).clamp(1e-3, 60_000.0)).collect();
        pts.sort_by(f64::total_cmp);
        let mut last: Option<(f64, [f64; 16])> = None;
        for p in pts {
            e.set_t(t);
            e.set_p(p);
            e.set_d(0.0);
            let here = || format!("{} T={t:?} p={p:?} {}", m.name(), show(&x));
            if e.density(0) != DRes::Ok {
                return Err(format!("no density in the supercritical gas region: {}", here()));
            }
            e.properties();
            let o = e.out();
            let bad = |w: &str| Err(format!("{w}: D={} z={} dp_dd={} cv={} cp={} w={} kappa={} at {}", o[0], o[Z], o[DP_DD], o[CV], o[CP], o[W], o[KAPPA], here()));
            if o.iter().any(|v| !v.is_finite()) {
                return bad("a property is not finite");
            }
            if !(o[DP_DD] > 0.0) {
                return bad("dp/dD is not positive");
            }
            if !(o[CV] > m.r() * 1.2) {
                return bad("cv is below that of a monatomic gas");
            }
            if !(o[CP] > o[CV]) {
                return bad("cp is not above cv");
            }
            if !(o[W] > 50.0 && o[W] < 5000.0) {
                return bad("the speed of sound is out of any gas's range");
            }
            if !(o[KAPPA] > 1.0) {
                return bad("kappa is not above 1");
            }
            if !(o[Z] > 0.2 && o[Z] < 4.0) {
                return bad("z is out of any gas's range");
            }
            if !(o[DP_DT] > 0.0) {
                return bad("dp/dT is not positive");
            }
            if let Some((pl, l)) = last {
                if p > pl * 1.000_001 {
                    if !(o[0] > l[0]) {
                        return bad(&format!("D does not rise with p (D={} at p={pl})", l[0]));
                    }
                    if !(o[S] < l[S]) {
                        return bad(&format!("s does not fall with p (s={} at p={pl})", l[S]));
                    }
                    // dg = v dp, with v falling; dh = T ds + v dp, with s falling
                    let (dg, dh) = (o[G] - l[G], o[H] - l[H] - t * (o[S] - l[S]));
                    let (lo, hi) = ((p - pl) / o[0], (p - pl) / l[0]);
                    let slack = 1e-8 * m.r() * t + 1e-12 * (o[H].abs() + t * o[S].abs());
                    if !(dg > lo - slack && dg < hi + slack && dh > lo - slack && dh < hi + slack) {
                        return bad(&format!("the change of g ({dg}) or of h less that of T s ({dh}) from p={pl} is not the area {lo}..{hi} under v dp"));
                    }
                    if !(o[G] > l[G]) {
                        return bad(&format!("g does not rise with p (g={} at p={pl})", l[G]));
                    }
                }
            }
            last = Some((p, o));
            // along an isobar
            let t2 = t * (1.0 + cx.rng.logrange(1e-5, 0.2));
            e.set_t(t2);
            e.set_p(p);
            e.set_d(0.0);
            if e.density(0) != DRes::Ok {
                return Err(format!("no density at T={t2}: {}", here()));
            }
            e.properties();
            let q = e.out();
            if !(q[0] < o[0]) {
                return bad(&format!("D does not fall with T (D={} at T={t2})", q[0]));
            }
            if !(q[H] > o[H]) {
                return bad(&format!("h does not rise with T (h={} at T={t2})", q[H]));
            }
            if !(q[S] > o[S]) {
                return bad(&format!("s does not rise with T (s={} at T={t2})", q[S]));
            }
            // dh = T ds and dg = -s dT, with s rising
            let (dh, ds, dg, dt) = (q[H] - o[H], q[S] - o[S], q[G] - o[G], t2 - t);
            let slack = 1e-8 * m.r() * t2 + 1e-12 * (o[H].abs() + t2 * o[S].abs());
            if !(dh > t * ds - slack && dh < t2 * ds + slack) {
                return bad(&format!("h changes by {dh} from here to T={t2}, not by the area {}..{} under T ds", t * ds, t2 * ds));
            }
            if !(-dg > o[S] * dt - slack && -dg < q[S] * dt + slack) {
                return bad(&format!("g changes by {dg} from here to T={t2}, not by the area {}..{} under s dT", o[S] * dt, q[S] * dt));
            }
            cx.rec.hit(&[t, p, x[0], x[1], x[2]]);
            cx.rec.count(&format!("{} {kind}", m.name()));
            cx.rec.sample(|| format!("{}: D={} z={} cv={} cp={} w={} kappa={}", here(), o[0], o[Z], o[CV], o[CP], o[W], o[KAPPA]));
        }
    }
    Ok(())
}

struct Pt {
    t: f64,
    d: f64,
    x: X,
}

/// The values C22 compares: the equation's and the library's, with the scale of rounding.
struct Seen {
    refs: Vec<(usize, B)>,
    out: Vec<f64>,
    t: f64,
}

fn look(e: &mut Eos, m: Model, s: &Pt) -> Seen {
    e.set_x(&s.x);
    let (_, o) = at(e, s.t, s.d);
    let w = Mix::new(m, &s.x).props(s.t, s.d);
    // w is 0 where the squared speed of sound is negative
    let ok = |v: B| if w.w2.positive() { v } else { B { e: f64::INFINITY, ..v } };
    let refs = vec![
        (Z, w.z), (DP_DD, w.dp_dd), (DP_DT, w.dp_dt), (U, w.u), (H, w.h), (S, w.s), (CV, w.cv), (CP, w.cp), (W, ok(w.w)), (G, w.g), (MM, w.mm), (D2P_DD2, w.d2p_dd2),
        (JT, w.jt), (KAPPA, ok(w.kappa)),
    ];
    Seen { refs, out: o.to_vec(), t: s.t }
}

/// A step from a to b may move each output by what the equation moves by, plus rounding on both sides.
/// The first output that moves by more, with the allowance.
fn jumps(a: &Seen, b: &Seen, cx: &mut Cx) -> Option<(usize, f64)> {
    for (&(i, v), &(_, v2)) in a.refs.iter().zip(&b.refs) {
        if !(v.sharp() && v2.sharp()) {
            continue;
        }
        let allowed = 3.0 * (v.v - v2.v).abs() + v.e + v2.e + 1e-12 * rough(i, a.out[i], a.t);
        if !((b.out[i] - a.out[i]).abs() <= allowed) {
            return Some((i, allowed));
        }
        cx.rec.count("quantities compared");
    }
    None
}

fn rough(i: usize, v: f64, t: f64) -> f64 {
    match i {
        U | H | G => 8.3 * t + v.abs(),
        _ => v.abs(),
    }
}

/// Output i drifts from the equation between a and b by more than rounding: by how many allowances.
fn drift(a: &Seen, b: &Seen, k: usize) -> f64 {
    let ((i, v), (_, v2)) = (a.refs[k], b.refs[k]);
    let q = ((a.out[i] - v.v) - (b.out[i] - v2.v)).abs() / (v.e + v2.e + 1e-12 * rough(i, a.out[i], a.t) + 1e-300);
    if q.is_nan() { 1e300 } else { q }
}

/// Two states far apart: if the library's distance from the equation differs between them, close in on
/// the place where it changes. A smooth difference ends in a pair that shows no jump.
fn between(cx: &mut Cx, e: &mut Eos, m: Model, path: &dyn Fn(f64) -> Pt, what: &str) -> Result<(), String> {
    let (mut lo, mut hi) = (0.0, 1.0);
    let (mut a, mut b) = (look(e, m, &path(lo)), look(e, m, &path(hi)));
    cx.rec.count("long paths");
    let worth = |a: &Seen, b: &Seen| {
        (0..a.refs.len()).filter(|&k| a.refs[k].1.sharp() && b.refs[k].1.sharp()).map(|k| (drift(a, b, k), k)).filter(|q| q.0 > 1.0).fold(None, |w: Option<(f64, usize)>, q| match w {
            Some(v) if v.0 >= q.0 => Some(v),
            _ => Some(q),
        })
    };
    let Some((_, k)) = worth(&a, &b) else { return Ok(()) };
    cx.rec.count("paths searched for a jump");
    for _ in 0..60 {
        let mid = 0.5 * (lo + hi);
        if !(mid > lo && mid < hi) || hi - lo < 1e-11 {
            break;
        }
        let c = look(e, m, &path(mid));
        if drift(&a, &c, k) >= drift(&c, &b, k) {
            hi = mid;
            b = c;
        } else {
            lo = mid;
            a = c;
        }
    }
    if let Some((i, allowed)) = jumps(&a, &b, cx) {
        let (p, q) = (path(lo), path(hi));
        return Err(format!(
            "{} {} jumps from {:?} to {:?} (allowed {allowed:.1e}) on moving {what} from T={:?} D={:?} to T={:?} D={:?} {} to {}",
            m.name(), crate::eos::OUT[i], a.out[i], b.out[i], p.t, p.d, q.t, q.d, show(&p.x), show(&q.x)
        ));
    }
    Ok(())
}

pub fn c22(cx: &mut Cx) -> Result<(), String> {
    let m = model(cx);
    let mut e = Eos::new(m);
    let (x, kind) = gen::any(&mut cx.rng, cx.idx / 2);
    load(cx, &mut e, &x)?;
    let names = crate::eos::OUT;
    for _ in 0..4 {
        let mix = Mix::new(m, &x);
        let mut t = gen::temp(&mut cx.rng).clamp(150.0, 1000.0);
        let mut d = gen::dens(&mut cx.rng).clamp(1e-9, 25.0);
        if cx.rng.chance(0.1) {
            let at = mix.landmark(&mut cx.rng);
            t = at.0.clamp(150.0, 1000.0);
            if cx.rng.chance(0.3) {
                d = at.1.clamp(1e-9, 25.0);
            }
        }
        let w = mix.props(t, d);
        if !(w.p.sharp() && w.cv.sharp() && w.cp.sharp() && w.h.sharp() && w.dp_dd.positive() && w.cv.positive()) {
            cx.rec.count("skipped: ill-conditioned state");
            continue;
        }
        // a step of relative size s in one input moves every output by about s times a condition number
        let step = cx.rng.logrange(1e-12, 1e-7);
        let which = cx.rng.below(3);
        let (mut t2, mut d2, mut x2) = (t, d, x);
        let what = match which {
            0 => {
                t2 = t * (1.0 + step);
                format!("T by {step:.1e}")
            }
            1 => {
                d2 = d * (1.0 + step);
                format!("D by {step:.1e}")
            }
            _ => {
                let j = cx.rng.below(NC);
                let tr = if x[j] > 0.0 { x[j] * step } else { cx.rng.logrange(1e-18, 1e-9) };
                x2[j] += tr;
                format!("{} by {tr:.1e}", crate::eos::NAMES[j])
            }
        };
        let size = match which { 2 => (0..NC).map(|i| (x2[i] - x[i]).abs()).sum::<f64>(), _ => step };
        let (a, b) = (look(&mut e, m, &Pt { t, d, x }), look(&mut e, m, &Pt { t: t2, d: d2, x: x2 }));
        if let Some((i, allowed)) = jumps(&a, &b, cx) {
            return Err(format!(
                "{} {} jumps from {:?} to {:?} (allowed {allowed:.1e}) on moving {what} at T={t:?} D={d:?} {}",
                m.name(), names[i], a.out[i], b.out[i], show(&x)
            ));
        }
        cx.rec.hit(&[t, d, size, which as f64, cx.idx as f64]);
        cx.rec.count(["step in T", "step in D", "step in composition"][which]);
        cx.rec.count(&format!("composition {kind}"));
        cx.rec.sample(|| format!("{} moving {what} at T={t} D={d}: z {:?} -> {:?}", m.name(), a.out[Z], b.out[Z]));
    }
    // and jumps anywhere on the way between two states far apart
    for _ in 0..2 {
        let (ta, mut tb) = (gen::temp(&mut cx.rng).clamp(150.0, 1000.0), gen::temp(&mut cx.rng).clamp(150.0, 1000.0));
        let (da, mut db) = (gen::dens(&mut cx.rng).clamp(1e-9, 25.0), gen::dens(&mut cx.rng).clamp(1e-9, 25.0));
        if cx.rng.chance(0.25) {
            let at = Mix::new(m, &x).landmark(&mut cx.rng);
            (tb, db) = (at.0.clamp(150.0, 1000.0), at.1.clamp(1e-9, 25.0));
            cx.rec.count("paths to reducing or critical values");
        }
        match cx.rng.below(4) {
            0 => between(cx, &mut e, m, &|s| Pt { t: ta + s * (tb - ta), d: da, x }, "T")?,
            1 => between(cx, &mut e, m, &|s| Pt { t: ta, d: da * (db / da).powf(s), x }, "D")?,
            2 => {
                let j = cx.rng.below(NC);
                let room = (1.0099 - x.iter().sum::<f64>() + x[j]).min(0.005);
                if room > 0.0 && x[j] <= room {
                    between(cx, &mut e, m, &|s| { let mut x = x; x[j] = room * 1e-15f64.powf(1.0 - s); Pt { t: ta, d: da, x } }, crate::eos::NAMES[j])?
                }
            }
            _ => {
                let (y, _) = gen::any(&mut cx.rng, cx.idx / 2 + 1);
                between(cx, &mut e, m, &|s| { let mut z = x; for i in 0..NC { z[i] = (1.0 - s) * x[i] + s * y[i]; } Pt { t: ta, d: da, x: z } }, "the composition")?
            }
        }
    }
    Ok(())
}

pub fn c23(cx: &mut Cx) -> Result<(), String> {
    let m = model(cx);
    let mut e = Eos::new(m);
    let (x, kind) = if m == Model::Detail { crate::c_density::detail_gas(cx) } else { gen::any(&mut cx.rng, cx.idx / 2) };
    load(cx, &mut e, &x)?;
    let mix = Mix::new(m, &x);
    let hi = 4.0 * mix.dcx();
    for _ in 0..8 {
        let cold = if m == Model::Gerg { 60.0 } else if kind.starts_with("light") { 225.0 } else { 143.15 };
        let t = gen::temp(&mut cx.rng).clamp(cold, if m == Model::Detail { 676.15 } else { 1200.0 });
        let d = match cx.rng.below(4) {
            0 => cx.rng.logrange(1e-12, 1e-2),
            _ => gen::dens(&mut cx.rng).max(1e-12),
        };
        e.set_t(t);
        e.set_d(d);
        let p = e.pressure();
        let pmax = if m == Model::Detail { 65_000.0 } else { 200_000.0 };
        if !(p > 1e-8 && p < pmax) {
            continue;
        }
        match least_slope(&mix, t, p, hi) {
            Some((s, top)) if d < top && s > if m == Model::Detail { 0.2 } else { 0.03 } => {}
            _ => {
                cx.rec.count("skipped: more than one density may belong to p");
                continue;
            }
        }
        e.set_p(p);
        // a leftover or an estimate: none, the answer, next to the answer (a slow series), or anything
        let next = gen::close_to(&mut cx.rng, d);
        let far = gen::dens(&mut cx.rng);
        let guess = *cx.rng.pick(&[0.0, d, -d, next, next, -next, 1.0, far]);
        e.set_d(guess);
        let r = e.density(0);
        if r != DRes::Ok || !((e.d() / d - 1.0).abs() <= 1e-10) {
            return Err(format!(
                "{}: pressure() at D={d:?} is {p:?}, but density() at that pressure gives {r:?} D={:?} (D before: {guess:?}) at T={t:?} {}",
                m.name(), e.d(), show(&x)
            ));
        }
        cx.rec.max("relative round-trip error", (e.d() / d - 1.0).abs(), || format!("{} T={t} D={d} {}", m.name(), show(&x)));
        cx.rec.hit(&[t, d, p, x[0], x[1]]);
        cx.rec.count(&format!("{} {kind}", m.name()));
        cx.rec.sample(|| format!("{} T={t}: D={d} -> p={p} -> D={}", m.name(), e.d()));
    }
    Ok(())
}
