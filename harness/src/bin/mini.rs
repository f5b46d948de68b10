//! Small workloads for interpreters and heavy instrumentation (Miri, TSan): `mini <9|16|18|29> <seed> <n>`.
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::ffi::{detail as fd, gerg2008 as fg};
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;

struct Rng(u64);
impl Rng {
    fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * ((self.u() >> 11) as f64 / (1u64 << 53) as f64)
    }
    fn wild(&mut self) -> f64 {
        match self.u() % 8 {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => -1.0,
            3 => 0.0,
            4 => 1e300,
            5 => 5e-324,
            6 => f64::from_bits(self.u()),
            _ => self.f(1.0, 500.0),
        }
    }
}

fn gas(r: &mut Rng) -> Composition {
    let (n, c, e, p) = (r.f(0.0, 0.1), r.f(0.0, 0.1), r.f(0.0, 0.1), r.f(0.0, 0.03));
    Composition { methane: 1.0 - n - c - e - p, nitrogen: n, carbon_dioxide: c, ethane: e, propane: p, ..Default::default() }
}

fn detail(seed: u64) -> Vec<u64> {
    let mut r = Rng(seed);
    let mut e = Detail::new();
    let mut o = vec![];
    for _ in 0..2 {
        let _ = e.set_composition(&gas(&mut r));
        e.t = r.f(260.0, 400.0);
        e.p = r.f(100.0, 10_000.0);
        e.d = 0.0;
        let ok = e.density().is_ok();
        e.properties();
        o.extend([ok as u64, e.d.to_bits(), e.p.to_bits(), e.w.to_bits(), e.h.to_bits(), e.cp.to_bits(), e.molar_mass().to_bits()]);
    }
    o
}
fn gerg(seed: u64) -> Vec<u64> {
    let mut r = Rng(seed);
    let mut e = Gerg2008::new();
    let mut o = vec![];
    for f in 0..2 {
        let _ = e.set_composition(&gas(&mut r));
        e.t = r.f(260.0, 400.0);
        e.p = r.f(100.0, 10_000.0);
        e.d = 0.0;
        let ok = e.density(f).is_ok();
        e.properties();
        o.extend([ok as u64, e.d.to_bits(), e.p.to_bits(), e.w.to_bits(), e.h.to_bits(), e.cp.to_bits()]);
    }
    o
}

fn threads(seed: u64, n: u64) -> u64 {
    let mut calls = 0;
    for k in 0..n {
        let s = seed.wrapping_mul(1000) + k * 10;
        let alone: Vec<Vec<u64>> = (0..3).map(|i| if (i + k) % 2 == 0 { detail(s + i) } else { gerg(s + i) }).collect();
        let b = std::sync::Arc::new(std::sync::Barrier::new(3));
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let b = b.clone();
                std::thread::spawn(move || {
                    b.wait();
                    if (i + k) % 2 == 0 { detail(s + i) } else { gerg(s + i) }
                })
            })
            .collect();
        for (i, h) in hs.into_iter().enumerate() {
            let v = h.join().expect("a thread died");
            if v != alone[i] {
                println!("BAD results of calculator {i} differ when others run at the same time (seed {s})");
                std::process::exit(1);
            }
            calls += v.len() as u64;
        }
    }
    calls
}

struct Send2<T>(*mut T);
// SAFETY: handed over whole, used by one thread at a time.
unsafe impl<T> Send for Send2<T> {}

macro_rules! life {
    ($r:expr, $calls:expr, $new:path, $free:path, $comp:path, $st:path, $sp:path, $sd:path, $gt:path, $gp:path, $gd:path, $props:path, $mass:path, $press:path, $dens:path, $calc:path) => {{
        unsafe {
            $free(std::ptr::null_mut());
            let hs = [$new(), $new(), $new()];
            for i in [2usize, 0, 1] {
                let h = hs[i];
                let mut ce = CompositionError::Ok;
                $comp(h, &Composition::default(), &mut ce);
                $comp(h, &gas($r), &mut ce);
                assert!(ce == CompositionError::Ok);
                $st(h, $r.f(260.0, 400.0));
                $sp(h, $r.f(100.0, 9000.0));
                $sd(h, 0.0);
                let mut de = DensityError::Ok;
                $dens(h, &mut de);
                let a = $mass(h) + $press(h) + $gt(h) + $gp(h) + $gd(h);
                $calc(h);
                let p = $props(h);
                std::hint::black_box((a, p.kappa, p.d, p.s));
                if i == 0 {
                    $free(hs[2]);
                }
                $calls += 16;
            }
            // freed elsewhere, after being used elsewhere
            let a = Send2(hs[1]);
            std::thread::spawn(move || {
                let b = a;
                let Send2(h) = b;
                let t = $gt(h);
                $free(h);
                t
            })
            .join()
            .unwrap();
            $free(hs[0]);
            $calls += 5;
        }
    }};
}

fn life(seed: u64, n: u64) -> u64 {
    let mut r = Rng(seed);
    let mut calls = 0u64;
    for _ in 0..n {
        life!(&mut r, calls, fd::aga8_new, fd::aga8_free, fd::aga8_set_composition, fd::aga8_set_temperature, fd::aga8_set_pressure, fd::aga8_set_density, fd::aga8_get_temperature, fd::aga8_get_pressure, fd::aga8_get_density, fd::aga8_get_properties, fd::aga8_calculate_molar_mass, fd::aga8_calculate_pressure, fd::aga8_calculate_density, fd::aga8_calculate_properties);
        life!(&mut r, calls, fg::gerg_new, fg::gerg_free, fg::gerg_set_composition, fg::gerg_set_temperature, fg::gerg_set_pressure, fg::gerg_set_density, fg::gerg_get_temperature, fg::gerg_get_pressure, fg::gerg_get_density, fg::gerg_get_properties, fg::gerg_calculate_molar_mass, fg::gerg_calculate_pressure, fg::gerg_calculate_density, fg::gerg_calculate_properties);
    }
    calls
}

/// Lives of handles, several threads at once.
fn crowd(seed: u64, n: u64) -> u64 {
    (0..n)
        .map(|k| {
            let hs: Vec<_> = (0..3).map(|i| std::thread::spawn(move || life(seed.wrapping_mul(1000) + 3 * k + i, 1))).collect();
            hs.into_iter().map(|h| h.join().expect("a thread died")).sum::<u64>()
        })
        .sum()
}

fn hostile(seed: u64, n: u64) -> u64 {
    let mut r = Rng(seed);
    let mut calls = 0;
    for k in 0..n {
        let mut c = gas(&mut r);
        if k % 2 == 0 {
            c.methane = r.wild();
            c.decane = r.wild();
        }
        let _ = c.check();
        let _ = c.normalize();
        let mut a = Detail::new();
        let mut b = Gerg2008::new();
        let _ = a.set_composition(&c);
        let _ = b.set_composition(&c);
        if k % 3 == 0 {
            a.x[(r.u() % 21) as usize] = r.wild();
            b.x[1 + (r.u() % 21) as usize] = r.wild();
        }
        for _ in 0..2 {
            (a.t, a.p, a.d) = (r.wild(), r.wild(), r.wild());
            (b.t, b.p, b.d) = (r.wild(), r.wild(), r.wild());
            a.molar_mass();
            b.molar_mass();
            a.properties();
            b.properties();
            a.pressure();
            b.pressure();
            calls += 6;
        }
        let _ = a.density();
        let _ = b.density((r.u() % 4) as i32 - 1);
        calls += 6;
    }
    calls
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).filter_map(|s| s.parse().ok()).collect();
    let (seed, n) = (a[1], a[2]);
    let calls = match a[0] {
        9 => threads(seed, n),
        16 => life(seed, n),
        29 => crowd(seed, n),
        _ => hostile(seed, n),
    };
    println!("MINI-OK mode {} seed {seed} rounds {n} calls {calls}", a[0]);
}
