//! C12 composition arithmetic, C13 set_composition, C14 molar mass.
use crate::c_model::show;
use crate::c_state::same;
use crate::eos::{comp, uncomp, Eos, NAMES};
use crate::gen;
use crate::refdata::{D_MMI, G_MMI};
use crate::refmodel::{Mix, Model, NC, X};
use crate::rng::Rng;
use crate::run::Cx;
use aga8::composition::CompositionError;

/// Neumaier-compensated sum and the sum of magnitudes.
fn exact_sum(x: &X) -> (f64, f64) {
    let (mut s, mut c, mut a) = (0.0f64, 0.0f64, 0.0f64);
    for &v in x {
        let t = s + v;
        if s.abs() >= v.abs() {
            c += (s - t) + v;
        } else {
            c += (v - t) + s;
        }
        s = t;
        a += v.abs();
    }
    (s + c, a)
}

fn any_fields(r: &mut Rng, idx: u64) -> X {
    let mut x = [0.0; NC];
    match r.below(10) {
        // around the thresholds of check()
        0 => {
            x = gen::any(r, idx).0;
            let s: f64 = x.iter().sum();
            let f = *r.pick(&[0.99, 1.01, 1e-10, 0.95, 1.05, 1.0]) * (1.0 + r.range(-1e-4, 1e-4)) / s;
            for v in x.iter_mut() {
                *v *= f;
            }
        }
        // small integers: every order of summation is exact
        1 => {
            for v in x.iter_mut() {
                *v = r.below(100) as f64;
            }
        }
        2 => x[(idx % NC as u64) as usize] = *r.pick(&[1.0, 100.0, 0.5, 1e-9, 1e-11, 1e5, 0.995]),
        3 => {
            for v in x.iter_mut() {
                if r.chance(0.4) {
                    *v = gen::hostile(r);
                }
            }
        }
        4 => {
            let s = r.logrange(1e-320, 1e307);
            for v in x.iter_mut() {
                *v = s * r.f();
            }
        }
        5 => {
            for v in x.iter_mut() {
                *v = r.range(-1.0, 1.0);
            }
        }
        6 => {
            x = gen::any(r, idx).0;
            for v in x.iter_mut() {
                *v = (*v * 1e4).round() / 100.0; // percentages with two decimals
            }
        }
        7 => {
            // cancels to nearly nothing
            let v = r.range(0.1, 10.0);
            x[r.below(NC)] = v;
            let j = r.below(NC);
            x[j] -= v * (1.0 + *r.pick(&[0.0, 1e-12, 1e-9, 1e-3]));
        }
        _ => x = gen::any(r, idx).0,
    }
    x
}

fn bits(x: &X) -> [u64; NC] {
    x.map(f64::to_bits)
}

pub fn c12(cx: &mut Cx) -> Result<(), String> {
    for k in 0..40 {
        let x = any_fields(&mut cx.rng, cx.idx * 40 + k);
        let c = comp(&x);
        let (s, a) = exact_sum(&x);
        let got = c.sum();
        cx.rec.hit(&x);
        let finite = x.iter().all(|v| v.is_finite()) && a.is_finite();
        if finite {
            if !((got - s).abs() <= 21.0 * 2.3e-16 * a + 1e-320) {
                return Err(format!("sum() is {got:?}, the components add up to {s:?}: {}", show(&x)));
            }
        } else if x.iter().any(|v| v.is_nan()) && !got.is_nan() {
            return Err(format!("sum() is {got:?} although a component is NaN: {}", show(&x)));
        }
        // check()
        let eps = 21.0 * 2.3e-16 * a;
        let ck = c.check();
        let want = if !finite {
            if got.is_nan() || got.is_infinite() { Some(Err(CompositionError::BadSum)) } else { None }
        } else if (s.abs() - 1e-10).abs() <= eps + 1e-24 || ((s - 1.0).abs() - 1e-2).abs() <= eps + 1e-15 {
            cx.rec.count("check: on a threshold");
            None
        } else if s.abs() < 1e-10 {
            Some(Err(CompositionError::Empty))
        } else if (s - 1.0).abs() <= 1e-2 {
            Some(Ok(()))
        } else {
            Some(Err(CompositionError::BadSum))
        };
        if let Some(w) = want {
            cx.rec.count(&format!("check {w:?}"));
            if ck != w {
                return Err(format!("check() says {ck:?} for a sum of {s:?}, expected {w:?}: {}", show(&x)));
            }
        }
        if bits(&uncomp(&c)) != bits(&x) {
            return Err(format!("check() or sum() changed a component: {}", show(&x)));
        }
        // normalize()
        let mut n = comp(&x);
        let r = n.normalize();
        let y = uncomp(&n);
        match &r {
            Err(e) => {
                if bits(&y) != bits(&x) {
                    return Err(format!("normalize() failed ({e:?}) but changed the composition: {} -> {}", show(&x), show(&y)));
                }
                if *e == CompositionError::Ok {
                    return Err("normalize() returned Err(CompositionError::Ok)".into());
                }
                if finite && s > 1e-290 && s < 1e290 && s > eps {
                    return Err(format!("normalize() refused ({e:?}) a positive sum {s:?}: {}", show(&x)));
                }
                if finite && s <= 0.0 && (s < -eps || a == 0.0) && *e != CompositionError::Empty {
                    return Err(format!("normalize() of a sum {s:?} says {e:?}, documented: Empty"));
                }
                cx.rec.count(&format!("normalize {e:?}"));
            }
            Ok(()) => {
                if !(got > 0.0) {
                    return Err(format!("normalize() says Ok for a sum of {got:?}: {}", show(&x)));
                }
                if y.iter().any(|v| !v.is_finite()) {
                    return Err(format!("normalize() says Ok but left a non-finite fraction: {} -> {}", show(&x), show(&y)));
                }
                let cond = a / s.abs();
                if s > eps * 1e3 && cond < 1e9 {
                    for i in 0..NC {
                        let w = x[i] / s;
                        if !((y[i] - w).abs() <= w.abs() * (1e-15 + 6e-15 * cond) + 1e-300) {
                            return Err(format!("normalize() turned {}={:?} into {:?}, expected {w:?} (sum {s:?})", NAMES[i], x[i], y[i]));
                        }
                    }
                    let t = n.sum();
                    if !((t - 1.0).abs() <= 2e-14 * cond) {
                        return Err(format!("after normalize() the sum is {t:?}: {}", show(&x)));
                    }
                    if cond < 1e6 && n.check() != Ok(()) {
                        return Err(format!("check() rejects a normalized composition: {}", show(&y)));
                    }
                    // idempotent
                    let mut again = comp(&y);
                    if again.normalize().is_err() || uncomp(&again).iter().zip(&y).any(|(p, q)| !same(*p, *q, 1e-13 * cond.max(1.0))) {
                        return Err(format!("normalize() is not idempotent: {}", show(&y)));
                    }
                    cx.rec.count("normalize Ok");
                }
            }
        }
        cx.rec.sample(|| format!("sum={got:?} check={ck:?} normalize={r:?}: {}", show(&x)));
    }
    Ok(())
}

/// A fingerprint that tells all 21 components apart, isomers included.
fn fingerprint(e: &mut Eos) -> [f64; 6] {
    let mut o = [0.0; 6];
    e.set_t(310.0);
    e.set_d(1.5);
    e.properties();
    let q = e.out();
    o[0] = q[1];
    o[1] = q[2];
    o[2] = q[7];
    o[3] = q[9];
    o[4] = q[11];
    o[5] = e.pressure();
    o
}

pub fn c13(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    let mut e = Eos::new(m);
    let mut held: Option<X> = None;
    for k in 0..10u64 {
        let mut x = gen::any(&mut cx.rng, cx.idx / 2 * 10 + k).0;
        // distinct weights in every slot, so that swapped slots show
        if cx.rng.chance(0.3) {
            for (i, v) in x.iter_mut().enumerate() {
                *v = 1.0 + 0.37 * i as f64 + cx.rng.f() * 0.1;
            }
            gen::norm(&mut x);
        }
        let reject = cx.rng.chance(0.4);
        if reject {
            match cx.rng.below(7) {
                0 => x = [0.0; NC],
                1 => x[cx.rng.below(NC)] = f64::NAN,
                2 => x[cx.rng.below(NC)] = f64::INFINITY,
                3 => x[cx.rng.below(NC)] += cx.rng.range(0.03, 5.0),
                4 => x = x.map(|v| v * 0.9),
                5 => x = x.map(|v| v * 100.0),
                _ => x = x.map(|v| v * 0.98),
            }
        } else if cx.rng.chance(0.3) {
            let f = cx.rng.range(0.9905, 1.0095);
            let s: f64 = x.iter().sum();
            x = x.map(|v| v * f / s);
        }
        // accepted by its sum, but no gas: only the places of the components are looked at
        let skewed = !reject && cx.rng.chance(0.1);
        if skewed {
            gen::norm(&mut x);
            x = gen::skew(&mut cx.rng, &x);
            if (x.iter().sum::<f64>() - 1.0).abs() > 9e-3 {
                x = gen::pure(0);
            }
        }
        let c = comp(&x);
        let want = c.check();
        let before = (e.x(), e.t(), e.p(), e.d(), e.out());
        let r = e.set_comp(&c);
        if r != want {
            return Err(format!("{} set_composition says {r:?}, check() says {want:?}: {}", m.name(), show(&x)));
        }
        if bits(&uncomp(&c)) != bits(&x) {
            return Err("set_composition changed its argument".into());
        }
        let now = (e.x(), e.t(), e.p(), e.d(), e.out());
        let rest = now.1.to_bits() != before.1.to_bits() || now.2.to_bits() != before.2.to_bits() || now.3.to_bits() != before.3.to_bits() || now.4.map(f64::to_bits) != before.4.map(f64::to_bits);
        if rest {
            return Err(format!("{} set_composition changed something besides the composition: {}", m.name(), show(&x)));
        }
        if reject != r.is_err() {
            return Err(format!("{} set_composition says {r:?}: {}", m.name(), show(&x)));
        }
        match r {
            Err(_) => {
                if bits(&now.0) != bits(&before.0) {
                    return Err(format!("{} a rejected composition overwrote the old one: {}", m.name(), show(&x)));
                }
                cx.rec.count("rejected");
            }
            Ok(()) => {
                for i in 0..NC {
                    if now.0[i].to_bits() != x[i].to_bits() {
                        return Err(format!("{} set_composition put {:?} where {} = {:?} belongs", m.name(), now.0[i], NAMES[i], x[i]));
                    }
                }
                held = Some(x);
                if skewed {
                    held = None;
                    cx.rec.count("accepted with negative or cancelling fractions");
                    let w: f64 = (0..NC).map(|i| x[i] * if m == Model::Detail { D_MMI[i] } else { G_MMI[i + 1] }).sum();
                    let size: f64 = x.iter().map(|v| v.abs()).sum();
                    let got = e.molar_mass();
                    if !((got - w).abs() < 1e-10 * size) || bits(&e.x()) != bits(&x) {
                        return Err(format!("{} molar mass {got}, the components give {w}: {}", m.name(), show(&x)));
                    }
                }
                cx.rec.count("accepted");
            }
        }
        // what the calculator computes is the gas last accepted
        if let Some(h) = held {
            let (t, p, d) = (e.t(), e.p(), e.d());
            let f = fingerprint(&mut e);
            e.set_t(t);
            e.set_p(p);
            e.set_d(d);
            let w = Mix::new(m, &h).props(310.0, 1.5);
            let ws = [w.mm, w.z, w.u, w.s, w.cp, w.p];
            for (i, b) in ws.iter().enumerate() {
                if b.sharp() && !b.holds(f[i]) {
                    return Err(format!(
                        "{}: after set_composition ({}) {} is {:?}, for the composition in force it is {:?}: {}",
                        m.name(), if r.is_ok() { "accepted" } else { "rejected" },
                        ["mm", "z", "u", "s", "cp", "p"][i], f[i], b.v, show(&h)
                    ));
                }
            }
            cx.rec.hit(&[h[0], h[1], h[2], h[3], k as f64, cx.idx as f64]);
        }
        cx.rec.sample(|| format!("{} {r:?}: {}", m.name(), show(&x)));
    }
    Ok(())
}

pub fn c14(cx: &mut Cx) -> Result<(), String> {
    for m in [Model::Detail, Model::Gerg] {
        let mut e = Eos::new(m);
        for k in 0..20u64 {
            let x = gen::any(&mut cx.rng, cx.idx * 20 + k).0;
            if cx.rng.chance(0.5) {
                if e.set_comp(&comp(&x)).is_err() {
                    return Err(format!("set_composition rejected {}", show(&x)));
                }
            } else {
                e.set_x(&x);
            }
            let t = gen::temp(&mut cx.rng);
            let d = gen::dens(&mut cx.rng);
            e.set_t(t);
            e.set_d(d);
            let mut w = 0.0;
            for i in 0..NC {
                w += x[i] * if m == Model::Detail { D_MMI[i] } else { G_MMI[i + 1] };
            }
            let before = (e.t(), e.d(), e.p(), e.z(), e.x());
            let via = cx.rng.below(3);
            let got = match via {
                0 => e.molar_mass(),
                1 => {
                    e.properties();
                    e.mm()
                }
                _ => {
                    e.pressure();
                    e.molar_mass()
                }
            };
            if via == 0 && (before.0 != e.t() || before.1 != e.d() || before.2.to_bits() != e.p().to_bits() || before.3.to_bits() != e.z().to_bits() || bits(&before.4) != bits(&e.x())) {
                return Err(format!("{} molar_mass() changed another public value", m.name()));
            }
            if !same(got, w, 1e-13) || !same(e.mm(), w, 1e-13) {
                return Err(format!("{} molar mass {got:?} (field {:?}), the components give {w:?}: {}", m.name(), e.mm(), show(&x)));
            }
            cx.rec.hit(&x);
            cx.rec.count(["by molar_mass()", "by properties()", "after pressure()"][via]);
            cx.rec.sample(|| format!("{} {got} g/mol: {}", m.name(), show(&x)));
        }
    }
    Ok(())
}
