//! C34, C35: which density density() gives where gas and liquid, or only the liquid, have the pressure.
use crate::c_density::detail_gas;
use crate::c_model::{load, show};
use crate::eos::{DRes, Eos};
use crate::gen;
use crate::refmodel::{Mix, Model};
use crate::run::Cx;

/// The first maximum of the isotherm, coming from zero density: the highest pressure the gas can have.
/// (pressure, density just below the maximum, density just above it)
fn gas_limit(mix: &Mix, t: f64) -> Option<(f64, f64, f64)> {
    let dc = mix.dcx();
    let at = |k: f64| dc * 1e-7 * 3e7f64.powf(k / 360.0);
    let mut before = 0.0;
    for k in 0..360 {
        let d = at(k as f64);
        let (p, dp) = mix.p_jet(t, d);
        if !(dp.v > 0.0) {
            if k == 0 {
                return None;
            }
            let (mut a, mut b) = (before, d);
            for _ in 0..40 {
                let m = 0.5 * (a + b);
                if mix.p_jet(t, m).1.v > 0.0 {
                    a = m;
                } else {
                    b = m;
                }
            }
            return Some((mix.p_jet(t, a).0.v, a, b));
        }
        if !p.v.is_finite() {
            return None;
        }
        before = d;
    }
    None
}

/// A leftover density: nothing, an earlier result, or anything positive.
fn leftover(cx: &mut Cx, last: f64) -> f64 {
    match cx.rng.below(4) {
        0 | 1 => 0.0,
        2 => last,
        _ => gen::dens(&mut cx.rng),
    }
}

pub fn c34(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let (x, kind) = if m == Model::Detail { detail_gas(cx) } else { gen::any(&mut cx.rng, cx.idx / 2) };
    if kind == "light blend" {
        return Ok(()); // rich in hydrogen at 50 K: DETAIL is not meant for that
    }
    let mut e = Eos::new(m);
    load(cx, &mut e, &x)?;
    let mix = Mix::new(m, &x);
    let (tc, dc) = (mix.tcx(), mix.dcx());
    let mut last = 0.0;
    for _ in 0..5 {
        let tr = cx.rng.range(if m == Model::Gerg { 0.4 } else { 0.5 }, 1.25);
        let t = tr * tc;
        let Some((pmax, dmax, _)) = gas_limit(&mix, t) else {
            cx.rec.count("isotherm rises throughout");
            continue;
        };
        if m == Model::Detail && dmax > 1.1 * dc {
            cx.rec.count("no gas-like maximum");
            continue;
        }
        for _ in 0..2 {
            let part = match cx.rng.below(4) {
                0 => cx.rng.logrange(1e-6, 1.0),
                1 => cx.rng.range(0.8, 1.0),
                _ => cx.rng.f(),
            } * 0.93;
            let p = pmax * part;
            if !(p >= 1e-9) {
                continue;
            }
            // the gas density, by bisection on the rising branch
            let (mut a, mut b) = (0.0, dmax);
            for _ in 0..70 {
                let q = 0.5 * (a + b);
                if mix.p_jet(t, q).0.v < p {
                    a = q;
                } else {
                    b = q;
                }
            }
            let gas = 0.5 * (a + b);
            let rt = m.r() * t;
            let least = (1..=24).map(|k| mix.p_jet(t, gas * k as f64 / 24.0).1.v).fold(f64::INFINITY, f64::min);
            if !(least > 0.1 * rt) {
                cx.rec.count("too near the maximum");
                continue;
            }
            let flag = if m == Model::Gerg { *cx.rng.pick(&[0, 0, 1]) } else { 0 };
            let d0 = leftover(cx, last);
            e.set_t(t);
            e.set_p(p);
            e.set_d(d0);
            let r = e.density(flag);
            let d = e.d();
            let must = m == Model::Gerg || (tr > 0.55 && matches!(kind, "air" | "light pure"));
            let s = || format!("{} T={t:?} p={p:?} flag={flag} D before={d0:?} ({:.4} of the highest pressure of the gas, T/Tc={tr:.3}) {}", m.name(), p / pmax, show(&x));
            if r != DRes::Ok {
                if must {
                    return Err(format!("the gas has D={gas:?}, but density() gives {r:?} D={d:?}: {}", s()));
                }
                cx.rec.count("gives up (DETAIL)");
                continue;
            }
            if !((d / gas - 1.0).abs() < 1e-6) {
                return Err(format!("the gas has D={gas:?}, but density() gives D={d:?}: {}", s()));
            }
            last = d;
            cx.rec.count(&format!("gas, {} {kind}", m.name()));
            // a denser state with the same pressure exists where the pressure falls below p after the maximum
            if cx.rng.chance(0.3) && mix.roots(t, p, dmax, 4.0 * dc, 40).0.len() >= 2 {
                cx.rec.count(&format!("gas although a liquid has the same pressure, {}", m.name()));
            }
            cx.rec.hit(&[t, p, flag as f64, x[0], x[2]]);
            cx.rec.sample(|| format!("{} -> D={d:?}", s()));
        }
    }
    Ok(())
}

pub fn c35(cx: &mut Cx) -> Result<(), String> {
    let m = Model::Gerg;
    // among mixtures of very different gases, the solver gives up about once in a million times
    let (x, kind) = match cx.rng.below(6) {
        0 | 1 => (gen::pure((cx.idx % 21) as usize), "pure"),
        2 => (gen::any_air(&mut cx.rng), "air"),
        _ => (gen::pipeline(&mut cx.rng), "pipeline"),
    };
    let mut e = Eos::new(m);
    load(cx, &mut e, &x)?;
    let mix = Mix::new(m, &x);
    let (tc, dc) = (mix.tcx(), mix.dcx());
    let mut last = 0.0;
    for _ in 0..4 {
        // hydrogen, water, helium and hexane to decane: the solver gives up on some liquids below 0.83 Tc
        let least = match kind {
            "pure" if (9..=14).any(|i| x[i] > 0.5) || x[17] > 0.5 || x[19] > 0.5 => 0.86,
            "pure" => 0.5,
            _ => 0.82,
        };
        let tr = cx.rng.range(least, if kind == "pure" { 1.0 } else { 1.08 });
        let t = tr * tc;
        let Some((pmax, _, past)) = gas_limit(&mix, t) else {
            cx.rec.count("isotherm rises throughout");
            continue;
        };
        for _ in 0..2 {
            let p = pmax * cx.rng.logrange(1.1, 300.0);
            if !(p > 1e-9) {
                continue;
            }
            let (roots, _) = mix.roots(t, p, past, 5.0 * dc, 240);
            if roots.len() != 1 {
                cx.rec.count("several dense states");
                continue;
            }
            // the equation has further loops at low temperature: stay away from their maxima
            let n = 300;
            let close = (0..n).any(|k| {
                let d = past * (roots[0] * 0.999 / past).powf(k as f64 / n as f64);
                let (q, dq) = mix.p_jet(t, d);
                q.v > 0.95 * p && !(dq.v > 0.0 && d > 0.9 * roots[0])
            });
            if close {
                cx.rec.count("near a maximum");
                continue;
            }
            let w = mix.props(t, roots[0]);
            if !(w.dp_dd.v > 0.0) {
                continue;
            }
            let flag = *cx.rng.pick(&[0, 0, 1, 2]);
            let d0 = leftover(cx, last);
            e.set_t(t);
            e.set_p(p);
            e.set_d(d0);
            let r = e.density(flag);
            let d = e.d();
            if r != DRes::Ok && flag > 0 && !crate::c_density::all_positive(&w) {
                cx.rec.count("phase check objects");
                continue;
            }
            if r != DRes::Ok || !((d / roots[0] - 1.0).abs() < 1e-6) {
                return Err(format!(
                    "only the liquid D={:?} has this pressure, but density() gives {r:?} D={d:?}: T={t:?} p={p:?} flag={flag} D before={d0:?} ({:.3} times the highest pressure of the gas, T/Tc={tr:.3}) {kind} {}",
                    roots[0],
                    p / pmax,
                    show(&x)
                ));
            }
            last = d;
            cx.rec.count(&format!("liquid, flag {flag}, {kind}"));
            cx.rec.hit(&[t, p, flag as f64, x[0], x[2]]);
            cx.rec.sample(|| format!("T={t} p={p} flag={flag} -> D={d:?} {kind}"));
        }
    }
    Ok(())
}
