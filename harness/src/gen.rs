//! Workload generation: compositions, states, hostile numbers.
use crate::refmodel::{NC, X};
use crate::rng::Rng;
use std::sync::OnceLock;

/// Typical pipeline gases (mole fraction ranges lo..hi); remainder is methane.
const PIPE: [(usize, f64); 20] = [
    (1, 0.08), (2, 0.06), (3, 0.10), (4, 0.035), (5, 0.008), (6, 0.01), (7, 0.003), (8, 0.003), (9, 0.0015),
    (10, 0.0006), (11, 0.0003), (12, 0.0001), (13, 0.00005), (14, 0.08), (15, 0.001), (16, 0.02), (17, 0.0005),
    (18, 0.001), (19, 0.003), (20, 0.001),
];

pub fn norm(x: &mut X) {
    let s: f64 = x.iter().sum();
    for v in x.iter_mut() {
        *v /= s;
    }
}

/// Natural gas of pipeline quality.
pub fn pipeline(r: &mut Rng) -> X {
    let mut x = [0.0; NC];
    let lean = r.f();
    let drop = r.f();
    let mut rest = 1.0;
    for (i, hi) in PIPE {
        if r.chance(drop * 0.8) {
            continue;
        }
        let v = hi * lean * r.f();
        x[i] = v;
        rest -= v;
    }
    x[0] = rest;
    x
}

/// AGA Report 8's normal range for pipeline gas: upper limits of the mole fractions (methane: at least 0.45).
const NORMAL: [(usize, f64); 20] = [
    (1, 0.2), (2, 0.1), (3, 0.1), (4, 0.04), (5, 0.01), (6, 0.01), (7, 0.003), (8, 0.003), (9, 0.002),
    (10, 0.002), (11, 0.002), (12, 0.002), (13, 0.002), (14, 0.1), (15, 0.0021), (16, 0.03), (17, 0.0005),
    (18, 0.0002), (19, 0.002), (20, 0.002),
];

pub fn normal_range(r: &mut Rng) -> X {
    loop {
        let mut x = [0.0; NC];
        let (lean, drop, edge) = (r.f().sqrt(), r.f(), r.f() * 0.5);
        for (i, hi) in NORMAL {
            if !r.chance(drop) {
                x[i] = hi * if r.chance(edge) { 1.0 } else { lean * r.f() };
            }
        }
        // the limits of the groups: butanes 1 %, pentanes 0.3 %, hexanes and above 0.2 %
        for (g, hi) in [(&[5usize, 6][..], 0.01), (&[7, 8], 0.003), (&[9, 10, 11, 12, 13], 0.002)] {
            let s: f64 = g.iter().map(|&i| x[i]).sum();
            if s > hi {
                g.iter().for_each(|&i| x[i] *= hi / s);
            }
        }
        x[0] = 1.0 - x[1..].iter().sum::<f64>();
        if x[0] >= 0.7 {
            return x;
        }
    }
}

/// Random mixture of k components with spread-out weights.
pub fn subset(r: &mut Rng, k: usize) -> X {
    let mut x = [0.0; NC];
    let skew = r.range(1.0, 4.0);
    let mut n = 0;
    while n < k.min(NC) {
        let i = r.below(NC);
        if x[i] == 0.0 {
            x[i] = r.expd().powf(skew) + 1e-9;
            n += 1;
        }
    }
    norm(&mut x);
    x
}

pub fn pure(i: usize) -> X {
    let mut x = [0.0; NC];
    x[i] = 1.0;
    x
}

pub fn binary(i: usize, j: usize, xi: f64) -> X {
    let mut x = [0.0; NC];
    x[i] = xi;
    x[j] += 1.0 - xi;
    x
}

pub fn binary_frac(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => 0.5,
        1 => r.logrange(1e-6, 0.5),
        2 => 1.0 - r.logrange(1e-6, 0.5),
        _ => r.range(0.02, 0.98),
    }
}

/// Add trace components.
pub fn traces(r: &mut Rng, x: &mut X) {
    for _ in 0..1 + r.below(4) {
        let i = r.below(NC);
        if x[i] == 0.0 {
            x[i] = r.logrange(1e-18, 1e-4);
        }
    }
    norm(x);
}

/// Any valid composition. `pairs` walks through pures and pairs systematically with idx.
pub fn any(r: &mut Rng, idx: u64) -> (X, &'static str) {
    let (mut x, k) = match r.below(16) {
        0 | 1 => (pure((idx as usize) % NC), "pure"),
        2..=6 => {
            let q = (idx as usize) % (NC * (NC - 1) / 2);
            let (mut i, mut n) = (0, q);
            while n >= NC - 1 - i {
                n -= NC - 1 - i;
                i += 1;
            }
            let f = binary_frac(r);
            (binary(i, i + 1 + n, f), "binary")
        }
        7 => (subset(r, 3), "ternary"),
        8 | 9 => {
            let k = 4 + r.below(10);
            (subset(r, k), "subset")
        }
        10 => (subset(r, NC), "all21"),
        11 => (any_air(r), "air"),
        12 => {
            // one dominant component in any gas
            let mut x = subset(r, 2 + (idx as usize) % 6);
            let i = r.below(NC);
            x[i] += r.range(1.0, 50.0);
            norm(&mut x);
            (x, "dominant")
        }
        _ => (pipeline(r), "pipeline"),
    };
    // feed the values that the source newly mentions
    if let Some(v) = lit_in(r, 1e-12, 1.0) {
        let i = r.below(NC);
        let w = v * nudge(r);
        if w < 1.0 {
            let rest = 1.0 - x[i];
            if rest > 1e-9 {
                for (j, y) in x.iter_mut().enumerate() {
                    if j != i {
                        *y *= (1.0 - w) / rest;
                    }
                }
                x[i] = w;
            }
        }
    }
    if r.chance(0.12) {
        traces(r, &mut x);
    }
    if r.chance(0.15) {
        let f = match r.below(4) {
            0 => 0.9901,
            1 => 1.0099,
            _ => r.range(0.9905, 1.0095),
        };
        for v in x.iter_mut() {
            *v *= f;
        }
    }
    (x, k)
}

pub fn nudge(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => 1.0 + 1e-9,
        2 => 1.0 - 1e-9,
        _ => 1.0 + r.range(-0.02, 0.02),
    }
}

/// Temperature over the extended range of the equations.
pub fn temp(r: &mut Rng) -> f64 {
    if let Some(v) = lit_in(r, 50.0, 2000.0) {
        return v * nudge(r);
    }
    match r.below(10) {
        0..=3 => r.range(250.0, 350.0),
        4..=6 => r.range(143.15, 676.15),
        7 => r.logrange(60.0, 1200.0),
        8 => *r.pick(&[273.15, 288.15, 288.705_555_555_555_5, 293.15, 298.15, 300.0, 400.0, 250.0, 350.0, 350.0 + 1.0 / 3.0]),
        _ => r.range(100.0, 450.0).round(),
    }
}

/// Density from nearly ideal to compressed liquid.
pub fn dens(r: &mut Rng) -> f64 {
    if let Some(v) = lit_in(r, 1e-12, 80.0) {
        return v * nudge(r);
    }
    match r.below(8) {
        0 => r.logrange(1e-13, 1e-3),
        1 | 2 => r.logrange(1e-3, 1.0),
        3 => *r.pick(&[0.5, 1.0, 2.0, 5.0, 10.0, 12.0, 15.0, 20.0]),
        4..=6 => r.range(0.05, 15.0),
        _ => r.range(10.0, 45.0),
    }
}

pub fn press(r: &mut Rng) -> f64 {
    if let Some(v) = lit_in(r, 1e-9, 1e7) {
        return v * nudge(r);
    }
    match r.below(8) {
        0 => r.logrange(1e-9, 1.0),
        1 | 2 => r.logrange(1.0, 5000.0),
        3 => *r.pick(&[100.0, 101.325, 101.0, 1000.0, 5000.0, 10_000.0, 20_000.0, 50_000.0, 70_000.0]),
        4 | 5 => r.range(100.0, 12_000.0),
        6 => r.range(5000.0, 70_000.0),
        _ => r.logrange(1e3, 3e5),
    }
}

/// Numbers a hostile caller may pass.
pub fn hostile(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => f64::MAX,
        6 => f64::MIN_POSITIVE,
        7 => 5e-324,
        8 => -r.logrange(1e-300, 1e300),
        9 => r.logrange(1e-300, 1e300),
        10 => f64::from_bits(r.u64()),
        11 => -f64::NAN,
        12 => *r.pick(&[1e-15, -1e-15, 1.000_000_1e-15, 9.9e-16, 1.0, -1.0, 1e20, 2.0]),
        _ => r.logrange(1e-3, 1e5),
    }
}

/// Fractions that are accepted but are no gas: slightly negative ones, and ones that cancel.
pub fn skew(r: &mut Rng, x: &X) -> X {
    let mut y = *x;
    for _ in 0..1 + r.below(3) {
        let (i, j) = (r.below(NC), r.below(NC));
        if r.chance(0.5) {
            y[i] = -r.logrange(1e-18, 3e-3);
        } else {
            let v = r.logrange(1e-6, 1e3);
            y[i] += v;
            y[j] -= v;
        }
    }
    y
}

/// Numeric literals that appear in /repo/src but not in the tree this framework was written
/// against; they steer the generators towards new thresholds. They never decide anything.
pub fn literals() -> &'static Vec<f64> {
    static L: OnceLock<Vec<f64>> = OnceLock::new();
    L.get_or_init(|| {
        std::env::var("VH_LITERALS")
            .unwrap_or_default()
            .split(',')
            .filter_map(|s| s.trim().parse::<f64>().ok())
            .filter(|v| v.is_finite() && *v != 0.0)
            .take(400)
            .collect()
    })
}

pub fn lit_in(r: &mut Rng, lo: f64, hi: f64) -> Option<f64> {
    let l = literals();
    if l.is_empty() || !r.chance(0.15) {
        return None;
    }
    let v = l[r.below(l.len())].abs();
    if v >= lo && v <= hi {
        return Some(v);
    }
    // the same number in other units
    for f in [1000.0, 0.001, 100.0, 0.01] {
        if r.chance(0.2) && v * f >= lo && v * f <= hi {
            return Some(v * f);
        }
    }
    None
}

pub fn any_air(r: &mut Rng) -> X {
    let mut x = [0.0; NC];
    x[1] = 0.7808 + r.range(-0.01, 0.01);
    x[15] = 0.2095;
    x[20] = 0.0093;
    norm(&mut x);
    x
}

/// A flag for GERG density(): mostly the documented ones.
pub fn flag(r: &mut Rng) -> i32 {
    match r.below(16) {
        0 => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, 256, 65_536, -2]),
        1 => r.u64() as i32,
        2 => -1,
        3 => 3,
        k => (k % 3) as i32,
    }
}

/// A value very close to another, as the next one of a slow series is.
pub fn close_to(r: &mut Rng, v: f64) -> f64 {
    let e = r.logrange(1e-12, 1e-1);
    v * (1.0 + if r.chance(0.5) { e } else { -e })
}
