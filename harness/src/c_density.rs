//! C05-C07: what density() promises when it succeeds, when it fails, and where it must succeed.
use crate::c_model::{load, show};
use crate::eos::{DRes, Eos};
use crate::gen;
use crate::jet::B;
use crate::refmodel::{Mix, Model, Props, NC, X};
use crate::run::Cx;

/// Pressure residual a converged density may leave, for a solver that stops when a Newton step in
/// ln(v) is below 1e-7: quadratic, so 1e-14/2 times the curvature L = dln(p)/dln(v), with margin.
pub fn residual_allowance(p: f64, wp: B, wdp: B, d: f64) -> f64 {
    let scale = p.abs() + d * wdp.v.abs();
    let l = d * wdp.v.abs() / p.abs();
    wp.e + d * wdp.e * 1e-9 + scale * (3e-10 + 1e-13 * l)
}

struct St {
    t: f64,
    p: f64,
    flag: i32,
    guess: f64,
}

fn say(m: Model, s: &St, x: &X) -> String {
    format!("{} T={:?} p={:?} flag={} D before={:?} {}", m.name(), s.t, s.p, s.flag, s.guess, show(x))
}

pub fn all_positive(w: &Props) -> bool {
    [w.p, w.dp_dd, w.d2p_dtd, w.cv, w.cp, w.w2].iter().all(|b| b.positive())
}
fn any_negative(w: &Props) -> bool {
    [w.p, w.dp_dd, w.d2p_dtd, w.cv, w.cp, w.w2].iter().any(|b| b.negative())
}

/// Run one density() call and judge it. Returns the result and the density.
fn judge(cx: &mut Cx, m: Model, e: &mut Eos, mix: &Mix, s: &St) -> Result<(DRes, f64), String> {
    e.set_t(s.t);
    e.set_p(s.p);
    e.set_d(s.guess);
    let x0 = e.x();
    let r = e.density(s.flag);
    let d = e.d();
    let at = |w: &str| format!("{w}: {}", say(m, s, &mix.x));
    if e.t().to_bits() != s.t.to_bits() || e.p().to_bits() != s.p.to_bits() || e.x().map(f64::to_bits) != x0.map(f64::to_bits) {
        return Err(at(&format!("density() changed an input (T={:?} p={:?})", e.t(), e.p())));
    }
    let label = if (-1..=3).contains(&s.flag) { s.flag.to_string() } else { "other".into() };
    cx.rec.count(&format!("flag {label} -> {r:?}"));
    match r {
        DRes::ErrOk => return Err(at("density() returned Err(DensityError::Ok)")),
        DRes::Low => {
            if s.p.abs() > 1.01e-15 {
                return Err(at("PressureTooLow for a pressure that is not zero"));
            }
            if d != 0.0 {
                return Err(at(&format!("PressureTooLow but D = {d:e}, not 0")));
            }
        }
        DRes::Iter => {
            let ideal = s.p / m.r() / s.t;
            if !((d - ideal).abs() <= 1e-12 * ideal.abs()) {
                return Err(at(&format!("IterationFail left D = {d:e}; the ideal-gas density is {ideal:e}")));
            }
            if s.p.abs() < 0.99e-15 {
                return Err(at("zero pressure was not reported as PressureTooLow"));
            }
        }
        DRes::Ok => {
            if s.p.abs() < 0.99e-15 {
                return Err(at("zero pressure was not reported as PressureTooLow"));
            }
            if !(d.is_finite() && d > 0.0) {
                return Err(at(&format!("Ok with D = {d:e}")));
            }
            let (wp, wdp) = mix.p_jet(s.t, d);
            if !wp.e.is_finite() || wp.e > 1e-4 * (s.p + d * wdp.v.abs()) {
                cx.rec.count("Ok, not decided (cancellation)");
                return Ok((r, d));
            }
            let tol = residual_allowance(s.p, wp, wdp, d);
            let res = (wp.v - s.p).abs();
            if !(res <= tol) {
                return Err(at(&format!("Ok with D = {d:?}, but the equation gives p = {:?} there (off by {res:.2e}, allowed {tol:.2e})", wp.v)));
            }
            cx.rec.max("pressure residual / allowance", res / tol, || say(m, s, &mix.x));
            if wdp.negative() {
                return Err(at(&format!("Ok with D = {d:?} on a mechanically unstable branch (dp/dD = {:e})", wdp.v)));
            }
            // the calculator itself reproduces the pressure it was given
            let own = if cx.rng.chance(0.5) { e.pressure() } else { e.properties() };
            if !((own - s.p).abs() <= tol) {
                return Err(at(&format!("Ok with D = {d:?}, but pressure there is reported as {own:?}")));
            }
            if e.d() != d {
                return Err(at("pressure() or properties() moved D"));
            }
            if m == Model::Gerg && s.flag > 0 {
                let w = mix.props(s.t, d);
                if any_negative(&w) {
                    return Err(at(&format!(
                        "flag>0 accepted a state with a negative property: p={:e} dp_dd={:e} d2p_dtd={:e} cv={:e} cp={:e} w2={:e}",
                        w.p.v, w.dp_dd.v, w.d2p_dtd.v, w.cv.v, w.cp.v, w.w2.v
                    )));
                }
            }
            cx.rec.hit(&[s.t, s.p, d, s.flag as f64, mix.x[0], mix.x[1]]);
        }
    }
    Ok((r, d))
}

fn sound(cx: &mut Cx, m: Model) -> Result<(), String> {
    let mut e = Eos::new(m);
    for c in 0..2 {
        let (x, kind) = gen::any(&mut cx.rng, cx.idx * 2 + c);
        load(cx, &mut e, &x)?;
        cx.rec.count(&format!("composition {kind}"));
        let mix = Mix::new(m, &x);
        let mut t = 300.0;
        let mut last_ok = 0.0;
        let mut last_p = 1000.0;
        for k in 0..12 {
            // a slow series: nearly the same state again, the density left where it was
            let slow = last_ok > 0.0 && cx.rng.chance(0.2);
            if slow && cx.rng.chance(0.5) {
                t = gen::close_to(&mut cx.rng, t);
            } else if !slow && (k == 0 || !cx.rng.chance(0.25)) {
                t = gen::temp(&mut cx.rng);
            }
            let p = match cx.rng.below(24) {
                _ if slow => gen::close_to(&mut cx.rng, last_p),
                0 => *cx.rng.pick(&[0.0, -0.0, 1e-300, 5e-324, 9e-16, -9e-16]),
                1 => -gen::press(&mut cx.rng),
                2 => cx.rng.logrange(1e5, 1e8),
                _ => gen::press(&mut cx.rng),
            };
            // density left over from anything, or a user-supplied estimate
            let guess = match cx.rng.below(9) {
                k if slow => {
                    cx.rec.count("step of a slow series");
                    if k < 2 { -last_ok } else { last_ok }
                }
                // a liquid at next to no pressure: dp/dD is large where p is not
                8 if t < 1.1 * mix.tcx() => {
                    let dc = mix.dcx();
                    cx.rec.count("guess at the foot of the liquid branch");
                    let foot = cx.rng.logrange(1e-8, 10.0);
                    mix.roots(t, foot, dc, 4.0 * dc, 40).0.last().map_or(0.0, |d| -d)
                }
                0 => -gen::dens(&mut cx.rng),
                1 => gen::dens(&mut cx.rng),
                2 => -last_ok,
                3 => last_ok,
                _ => 0.0,
            };
            let flag = if m == Model::Gerg { gen::flag(&mut cx.rng) } else { 0 };
            let (r, d) = judge(cx, m, &mut e, &mix, &St { t, p, flag, guess })?;
            if r == DRes::Ok {
                last_ok = d;
                last_p = p;
                cx.rec.sample(|| format!("{} T={t} p={p} flag={flag} -> D={d}", m.name()));
            }
            // flag 1 adds the phase check to flag 0 and nothing else
            if m == Model::Gerg && cx.rng.chance(0.3) {
                let (r0, d0) = judge(cx, m, &mut e, &mix, &St { t, p, flag: 0, guess: 0.0 })?;
                if r0 == DRes::Ok {
                    let w = mix.props(t, d0);
                    let s1 = St { t, p, flag: 1, guess: 0.0 };
                    let (r1, d1) = judge(cx, m, &mut e, &mix, &s1)?;
                    if all_positive(&w) {
                        cx.rec.count("phase check: clearly one phase");
                        if r1 != DRes::Ok || !((d1 / d0 - 1.0).abs() <= 1e-7) {
                            return Err(format!("flag 0 gives D={d0:?} with all properties positive, flag 1 gives {r1:?} D={d1:?}: {}", say(m, &s1, &x)));
                        }
                    } else if any_negative(&w) {
                        cx.rec.count("phase check: clearly two phases");
                        if r1 == DRes::Ok {
                            return Err(format!("flag 1 accepted the state flag 0 found (D={d0:?}) although a property is negative: {}", say(m, &s1, &x)));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c05(cx: &mut Cx) -> Result<(), String> {
    sound(cx, Model::Detail)
}
pub fn c06(cx: &mut Cx) -> Result<(), String> {
    sound(cx, Model::Gerg)
}

/// Smallest (dp/dD)/(RT) on the way from D = 0 up to 1.2 p, and the density where p is reached;
/// None if p is never reached below `hi`. The density returned is the first that gives 1.2 p.
pub fn least_slope(mix: &Mix, t: f64, p: f64, hi: f64) -> Option<(f64, f64)> {
    let rt = mix.model.r() * t;
    let mut least = f64::INFINITY;
    let lo = (0.3 * p / rt).min(hi * 0.01);
    let mut top = None;
    for k in 0..480 {
        let d = if k < 240 { lo * (hi / lo).powf(k as f64 / 240.0) } else { hi * (k as f64 - 239.5) / 240.0 };
        let (pp, dp) = mix.p_jet(t, d);
        if pp.v > 1.2 * p {
            if k >= 240 {
                top = Some(d);
                break;
            }
            continue;
        }
        least = least.min(dp.v / rt);
    }
    top.map(|d| (least, d))
}

/// Light gases for which DETAIL is meant: pipeline gas, air, and blends of gases with few heavy ends.
pub fn detail_gas(cx: &mut Cx) -> (X, &'static str) {
    match cx.rng.below(6) {
        0 => (gen::any_air(&mut cx.rng), "air"),
        1 => {
            let mut x = [0.0; NC];
            for i in [0usize, 1, 2, 3, 14, 15, 16, 20] {
                if cx.rng.chance(0.5) {
                    x[i] = cx.rng.expd();
                }
            }
            x[0] += 0.05;
            gen::norm(&mut x);
            (x, "light blend")
        }
        2 => (gen::pure(*cx.rng.pick(&[0usize, 1, 2, 3, 14, 15, 16, 20])), "light pure"),
        _ => (gen::pipeline(&mut cx.rng), "pipeline"),
    }
}

pub fn c07(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    if m == Model::Gerg && cx.idx % 10 == 1 {
        return liquid(cx);
    }
    let mut e = Eos::new(m);
    let (x, kind) = if m == Model::Detail { detail_gas(cx) } else { gen::any(&mut cx.rng, cx.idx / 2) };
    load(cx, &mut e, &x)?;
    let mix = Mix::new(m, &x);
    let hi = 4.0 * mix.dcx();
    for _ in 0..8 {
        let t = gen::temp(&mut cx.rng);
        let p = match cx.rng.below(8) {
            0 => cx.rng.logrange(1e-9, 1.0),
            1 => cx.rng.range(50_000.0, 150_000.0),
            _ => gen::press(&mut cx.rng).min(200_000.0),
        };
        let p = if m == Model::Detail { p.min(cx.rng.range(60_000.0, 70_000.0)) } else { p };
        let cold = if kind.starts_with("light") { 225.0 } else { 143.15 };
        let (floor, tmin, tmax) = if m == Model::Detail { (0.2, cold, 676.15) } else { (0.03, 60.0, 1200.0) };
        if !(tmin..=tmax).contains(&t) || p < 1e-9 {
            continue;
        }
        let Some((slope, _)) = least_slope(&mix, t, p, hi) else {
            cx.rec.count("p not reached below 4 dc");
            continue;
        };
        if !(slope > floor) {
            cx.rec.count("isotherm not rising");
            continue;
        }
        let flag = if m == Model::Gerg { *cx.rng.pick(&[0, 0, 1, 1, 2]) } else { 0 };
        if flag == 2 && (t < 1.3 * mix.tcx() || !matches!(kind, "pipeline" | "air" | "pure")) {
            continue;
        }
        let guess = if cx.rng.chance(0.3) { gen::dens(&mut cx.rng) } else { 0.0 };
        let s = St { t, p, flag, guess };
        let (r, d) = judge(cx, m, &mut e, &mix, &s)?;
        if r != DRes::Ok {
            if flag > 0 {
                // the phase check may object to a negative d2p_dtd or cv
                let (r0, d0) = judge(cx, m, &mut e, &mix, &St { t, p, flag: 0, guess: 0.0 })?;
                if r0 == DRes::Ok && !all_positive(&mix.props(t, d0)) {
                    cx.rec.count("phase check objects");
                    continue;
                }
            }
            return Err(format!(
                "density() failed ({r:?}) although p rises all the way to this pressure (least slope {slope:.3} RT): {}",
                say(m, &s, &x)
            ));
        }
        cx.rec.count(&format!("solved {} {kind} {}", m.name(), if t < mix.tcx() { "below Tc" } else { "above Tc" }));
        cx.rec.sample(|| format!("{} -> D={d} (least slope {slope:.3} RT)", say(m, &s, &x)));
    }
    Ok(())
}

/// Flag 2 starts in the liquid: compressed pure liquids must come out as liquids.
fn liquid(cx: &mut Cx) -> Result<(), String> {
    let i = (cx.idx / 10 % NC as u64) as usize;
    let x = gen::pure(i);
    let mix = Mix::new(Model::Gerg, &x);
    let (tc, dc) = (mix.tcx(), mix.dcx());
    let pc = mix.p_jet(tc, dc).0.v;
    let mut e = Eos::new(Model::Gerg);
    load(cx, &mut e, &x)?;
    for _ in 0..8 {
        let t = tc * cx.rng.range(0.7, 0.95);
        let p = pc * cx.rng.logrange(1.05, 8.0);
        let (roots, _) = mix.roots(t, p, dc, 4.0 * dc, 120);
        let s = St { t, p, flag: 2, guess: 0.0 };
        let (r, d) = judge(cx, Model::Gerg, &mut e, &mix, &s)?;
        if roots.len() != 1 {
            cx.rec.count("liquid: several dense roots");
            continue;
        }
        if r != DRes::Ok || !((d / roots[0] - 1.0).abs() < 1e-6) {
            return Err(format!("the liquid root {:?} was not found ({r:?}, D={d:?}): {}", roots[0], say(Model::Gerg, &s, &x)));
        }
        cx.rec.count("solved liquid");
    }
    Ok(())
}
