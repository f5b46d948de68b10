//! C01-C04: the equations of state against independent models of the published equations.
use crate::eos::{comp, Eos};
use crate::gen;
use crate::jet::B;
use crate::refmodel::{Mix, Model, X};
use crate::run::Cx;

pub fn show(x: &X) -> String {
    let v: Vec<String> = x.iter().enumerate().filter(|(_, v)| **v != 0.0).map(|(i, v)| format!("{}={v:e}", crate::eos::NAMES[i])).collect();
    v.join(" ")
}

/// Put a composition in, sometimes through the checked entry point, sometimes directly.
pub fn load(cx: &mut Cx, e: &mut Eos, x: &X) -> Result<(), String> {
    if cx.rng.chance(0.5) {
        if let Err(k) = e.set_comp(&comp(x)) {
            return Err(format!("set_composition rejected a valid composition ({k:?}): {}", show(x)));
        }
    } else {
        e.set_x(x);
    }
    Ok(())
}

fn cmp(cx: &mut Cx, m: Model, name: &str, got: f64, want: B, t: f64, d: f64, x: &X) -> Result<bool, String> {
    if !want.sharp() {
        cx.rec.count(&format!("not decided: {name} (cancellation)"));
        return Ok(false);
    }
    if !want.holds(got) {
        return Err(format!(
            "{} {name}: library {got:e}, published equation {:e} (allowance {:.1e}) at T={t:?} D={d:?} {}",
            m.name(), want.v, want.e, show(x)
        ));
    }
    if want.e > 0.0 {
        let q = (got - want.v).abs() / want.e;
        cx.rec.max(&format!("{name} / allowance"), q, || format!("T={t} D={d} {}", show(x)));
    }
    Ok(true)
}

fn bands(cx: &mut Cx, t: f64, d: f64) {
    cx.rec.count(match t {
        t if t < 150.0 => "T<150",
        t if t < 250.0 => "T 150-250",
        t if t < 350.0 => "T 250-350",
        t if t < 500.0 => "T 350-500",
        _ => "T>500",
    });
    cx.rec.count(match d {
        d if d < 1e-3 => "D<1e-3",
        d if d < 1.0 => "D 1e-3..1",
        d if d < 10.0 => "D 1..10",
        _ => "D>10",
    });
}

/// Zero density: the ideal gas. s, g, jt and d2p_dd2 are conventions there and are left out.
fn vacuum(cx: &mut Cx, m: Model, e: &mut Eos, mix: &Mix, t: f64, full: bool, x: &X) -> Result<(), String> {
    e.set_d(0.0);
    let p = if full { e.properties() } else { e.pressure() };
    if p != 0.0 {
        return Err(format!("{} p is {p:e} at D=0 T={t:?} {}", m.name(), show(x)));
    }
    let w = mix.props(t, 1e-40);
    cmp(cx, m, "z", e.z(), w.z, t, 0.0, x)?;
    if full {
        let o = e.out();
        for (name, i, want) in [("mm", 1, w.mm), ("dp_dd", 3, w.dp_dd), ("u", 7, w.u), ("h", 8, w.h), ("cv", 10, w.cv), ("cp", 11, w.cp), ("w", 12, w.w), ("kappa", 15, w.kappa)] {
            cmp(cx, m, name, o[i], want, t, 0.0, x)?;
        }
        if o[6] != 0.0 {
            return Err(format!("{} dp_dt is {:e} at D=0 T={t:?} {}", m.name(), o[6], show(x)));
        }
        if m == Model::Gerg {
            cmp(cx, m, "d2p_dtd", o[5], w.d2p_dtd, t, 0.0, x)?;
        }
    }
    cx.rec.count("zero density");
    Ok(())
}

fn conform(cx: &mut Cx, m: Model, full: bool) -> Result<(), String> {
    let mut e = Eos::new(m);
    let comps = 2;
    let states = if full { 10 } else { 16 };
    for k in 0..comps {
        let (x, kind) = gen::any(&mut cx.rng, cx.idx * comps + k);
        load(cx, &mut e, &x)?;
        cx.rec.count(&format!("composition {kind}"));
        let mix = Mix::new(m, &x);
        let mut t = gen::temp(&mut cx.rng);
        for _ in 0..states {
            // isotherms as well as fresh temperatures
            if !cx.rng.chance(0.3) {
                t = gen::temp(&mut cx.rng);
            }
            let mut d = gen::dens(&mut cx.rng);
            if cx.rng.chance(0.08) {
                let at = mix.landmark(&mut cx.rng);
                if at.0 > 50.0 && at.0 < 2000.0 {
                    t = at.0;
                    if cx.rng.chance(0.4) {
                        d = at.1;
                    }
                    cx.rec.count("near reducing or critical values");
                }
            }
            e.set_t(t);
            if cx.rng.chance(0.04) {
                vacuum(cx, m, &mut e, &mix, t, full, &x)?;
            }
            e.set_d(d);
            bands(cx, t, d);
            if full {
                let w = mix.props(t, d);
                let by_properties = e.properties();
                let o = e.out();
                let mut n = 0;
                let mut go = |name: &str, got: f64, want: B| -> Result<(), String> {
                    n += cmp(cx, m, name, got, want, t, d, &x)? as u32;
                    Ok(())
                };
                go("p of properties()", by_properties, w.p)?;
                go("mm", o[1], w.mm)?;
                go("z", o[2], w.z)?;
                go("dp_dd", o[3], w.dp_dd)?;
                go("d2p_dd2", o[4], w.d2p_dd2)?;
                if m == Model::Gerg {
                    go("d2p_dtd", o[5], w.d2p_dtd)?;
                }
                go("dp_dt", o[6], w.dp_dt)?;
                go("u", o[7], w.u)?;
                go("h", o[8], w.h)?;
                go("s", o[9], w.s)?;
                go("cv", o[10], w.cv)?;
                go("cp", o[11], w.cp)?;
                go("g", o[13], w.g)?;
                go("jt", o[14], w.jt)?;
                if w.w2.positive() {
                    go("w", o[12], w.w)?;
                    go("kappa", o[15], w.kappa)?;
                } else if w.w2.negative() {
                    // mechanically unstable state: the speed of sound is reported as zero
                    cx.rec.count("unstable state, w = 0");
                    if o[12] != 0.0 {
                        return Err(format!("{} w is {:e} where w^2 < 0 at T={t} D={d} {}", m.name(), o[12], show(&x)));
                    }
                }
                if n > 0 {
                    cx.rec.hit(&[t, d, x[0], x[1], x[2], cx.idx as f64]);
                    cx.rec.add("quantities compared", n as u64);
                }
                cx.rec.sample(|| format!("{} {kind} T={t} D={d}: h={} (ref {}), cp={} w={} jt={}", m.name(), o[8], w.h.v, o[11], o[12], o[14]));
            } else {
                let (wp, wdp) = mix.p_jet(t, d);
                let wz = wp.scale(1.0 / (d * m.r() * t));
                let via_props = cx.rng.chance(0.3);
                let p = if via_props { e.properties() } else { e.pressure() };
                let mut ok = cmp(cx, m, "p", p, wp, t, d, &x)?;
                ok |= cmp(cx, m, "z", e.z(), wz, t, d, &x)?;
                if via_props {
                    ok |= cmp(cx, m, "dp_dd", e.out()[3], wdp, t, d, &x)?;
                } else if e.d() != d || e.t() != t {
                    return Err(format!("pressure() changed T or D at T={t} D={d}"));
                }
                if ok {
                    cx.rec.hit(&[t, d, x[0], x[1], x[2], cx.idx as f64]);
                    cx.rec.count(if via_props { "by properties()" } else { "by pressure()" });
                }
                cx.rec.sample(|| format!("{} {kind} T={t} D={d}: p={p} reference={} +- {:.1e} ({})", m.name(), wp.v, wp.e, show(&x)));
            }
        }
    }
    Ok(())
}

pub fn c01(cx: &mut Cx) -> Result<(), String> {
    conform(cx, Model::Detail, false)
}
pub fn c02(cx: &mut Cx) -> Result<(), String> {
    conform(cx, Model::Detail, true)
}
pub fn c03(cx: &mut Cx) -> Result<(), String> {
    conform(cx, Model::Gerg, false)
}
pub fn c04(cx: &mut Cx) -> Result<(), String> {
    conform(cx, Model::Gerg, true)
}
