//! Independent executable models of AGA8 DETAIL and GERG-2008.
//!
//! Only the Helmholtz energy a(T, D, x) is written down, in the form the standards publish it
//! (Gaussian-type departure functions with eta/epsilon/beta/gamma, reducing functions with
//! beta/gamma, K/U/G/Q/F mixing rules). Pressure, energies, heat capacities and all derivatives
//! follow by automatic differentiation, so nothing here shares a derivative formula, a cache or a
//! precombined coefficient with the code under test.
use crate::jet::{B, J, REL};
use crate::refdata::*;
use std::sync::OnceLock;

pub const NC: usize = 21;
pub type X = [f64; NC];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model {
    Detail,
    Gerg,
}

impl Model {
    pub fn r(self) -> f64 {
        match self {
            Model::Detail => 8.31451,
            Model::Gerg => 8.314472,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Model::Detail => "detail",
            Model::Gerg => "gerg",
        }
    }
    pub fn mm(self, x: &X) -> B {
        let (mut s, mut m) = (0.0, 0.0);
        for i in 0..NC {
            let t = x[i] * if self == Model::Detail { D_MMI[i] } else { G_MMI[i + 1] };
            s += t;
            m += t.abs();
        }
        B { v: s, e: 1e-12 * m }
    }
}

/// alpha_r = a_r/(RT) as Taylor coefficients [i in T][j in D] with magnitudes.
#[derive(Clone, Copy)]
pub struct Alpha<const NT: usize, const ND: usize> {
    pub v: [[f64; ND]; NT],
    pub m: [[f64; ND]; NT],
}

impl<const NT: usize, const ND: usize> Alpha<NT, ND> {
    fn zero() -> Self {
        Alpha { v: [[0.0; ND]; NT], m: [[0.0; ND]; NT] }
    }
    fn term(&mut self, c: f64, f: &J<NT>, g: &J<ND>) {
        let a = c.abs();
        for i in 0..NT {
            for j in 0..ND {
                self.v[i][j] += c * f.v[i] * g.v[j];
                self.m[i][j] += a * f.m[i] * g.m[j];
            }
        }
    }
    /// Traces below 1e-14 may be left out by an implementation: their terms go into the allowance.
    fn optional(&mut self, c: f64, f: &J<NT>, g: &J<ND>) {
        let a = c.abs();
        for i in 0..NT {
            for j in 0..ND {
                self.v[i][j] += c * f.v[i] * g.v[j];
                self.m[i][j] += a * f.m[i] * g.m[j] * (2.0 / REL);
            }
        }
    }
    /// a_r = R T alpha_r
    fn times_rt(&self, r: f64, t: f64) -> Self {
        let mut o = Self::zero();
        for i in 0..NT {
            for j in 0..ND {
                o.v[i][j] = r * t * self.v[i][j];
                o.m[i][j] = r * t * self.m[i][j];
                if i > 0 {
                    o.v[i][j] += r * self.v[i - 1][j];
                    o.m[i][j] += r * self.m[i - 1][j];
                }
            }
        }
        o
    }
}

// ---------------------------------------------------------------- DETAIL

struct DTab {
    b: Vec<[[f64; NC]; NC]>, // second virial interaction terms, per n < 18
}

fn dtab() -> &'static DTab {
    static T: OnceLock<DTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut b = vec![[[0.0; NC]; NC]; 18];
        for (n, bn) in b.iter_mut().enumerate() {
            for i in 0..NC {
                for j in 0..NC {
                    let e = D_EIJ[i][j] * (D_EI[i] * D_EI[j]).sqrt();
                    let g = D_GIJ[i][j] * (D_GI[i] + D_GI[j]) / 2.0;
                    let mut w = e.powf(D_UN[n]) * (D_KI[i] * D_KI[j]).powf(1.5);
                    if D_GN[n] == 1 {
                        w *= g;
                    }
                    if D_QN[n] == 1 {
                        w *= D_QI[i] * D_QI[j];
                    }
                    if D_FN[n] == 1 {
                        w *= D_FI[i] * D_FI[j];
                    }
                    if D_SN[n] == 1 {
                        w *= D_SI[i] * D_SI[j];
                    }
                    if D_WN[n] == 1 {
                        w *= D_WI[i] * D_WI[j];
                    }
                    bn[i][j] = D_AN[n] * w;
                }
            }
        }
        DTab { b }
    })
}

/// Composition-dependent part.
pub struct Mix {
    pub model: Model,
    pub x: X,
    // detail
    bn: [f64; 18],
    bm: [f64; 18],
    k3: f64,
    cn: [f64; 58],
    // gerg
    dr: f64,
    tr: f64,
}

impl Mix {
    pub fn new(model: Model, x: &X) -> Mix {
        let mut m = Mix { model, x: *x, bn: [0.0; 18], bm: [0.0; 18], k3: 0.0, cn: [0.0; 58], dr: 0.0, tr: 0.0 };
        match model {
            Model::Detail => m.detail(),
            Model::Gerg => m.gerg(),
        }
        m
    }

    fn detail(&mut self) {
        let x = &self.x;
        let t = dtab();
        for n in 0..18 {
            for i in 0..NC {
                for j in i..NC {
                    if x[i] != 0.0 && x[j] != 0.0 {
                        let f = if i == j { 1.0 } else { 2.0 };
                        let c = f * x[i] * x[j] * t.b[n][i][j];
                        self.bn[n] += c;
                        self.bm[n] += c.abs();
                    }
                }
            }
        }
        let (mut k, mut u, mut g, mut q, mut f) = (0.0, 0.0, 0.0, 0.0, 0.0);
        let (mut k5, mut u5) = (0.0, 0.0);
        for i in 0..NC {
            k += x[i] * D_KI[i].powf(2.5);
            u += x[i] * D_EI[i].powf(2.5);
            g += x[i] * D_GI[i];
            q += x[i] * D_QI[i];
            f += x[i] * x[i] * D_FI[i];
            for j in i + 1..NC {
                let xx = x[i] * x[j];
                k5 += 2.0 * xx * (D_KIJ[i][j].powf(5.0) - 1.0) * (D_KI[i] * D_KI[j]).powf(2.5);
                u5 += 2.0 * xx * (D_UIJ[i][j].powf(5.0) - 1.0) * (D_EI[i] * D_EI[j]).powf(2.5);
                g += xx * (D_GIJ[i][j] - 1.0) * (D_GI[i] + D_GI[j]);
            }
        }
        k5 += k * k;
        u5 += u * u;
        self.k3 = k5.powf(0.6);
        for n in 12..58 {
            let mut c = D_AN[n] * u5.powf(0.2 * D_UN[n]);
            if D_GN[n] == 1 {
                c *= g;
            }
            if D_QN[n] == 1 {
                c *= q * q;
            }
            if D_FN[n] == 1 {
                c *= f;
            }
            self.cn[n] = c;
        }
    }

    fn gerg(&mut self) {
        let x = &self.x;
        let (mut v, mut t) = (0.0, 0.0);
        for i in 0..NC {
            if x[i] == 0.0 {
                continue;
            }
            let a = i + 1;
            v += x[i] * x[i] / G_DC[a];
            t += x[i] * x[i] * G_TC[a];
            for j in i + 1..NC {
                if x[j] == 0.0 {
                    continue;
                }
                let b = j + 1;
                let w = 2.0 * x[i] * x[j] * (x[i] + x[j]);
                let (bv, gv) = (G_BVIJ[a][b], G_GVIJ[a][b]);
                let (bt, gt) = (G_BTIJ[a][b], G_GTIJ[a][b]);
                let vc = (G_DC[a].powf(-1.0 / 3.0) + G_DC[b].powf(-1.0 / 3.0)).powi(3) / 8.0;
                v += w * bv * gv / (bv * bv * x[i] + x[j]) * vc;
                t += w * bt * gt / (bt * bt * x[i] + x[j]) * (G_TC[a] * G_TC[b]).sqrt();
            }
        }
        self.dr = 1.0 / v;
        self.tr = t;
        // (x_i + x_i) for the diagonal: 2 x_i^3/(2 x_i) = x_i^2, as used above.
    }

    /// Pseudo-critical density (mole-fraction average of critical volumes).
    pub fn dcx(&self) -> f64 {
        let v: f64 = (0..NC).map(|i| self.x[i] / G_DC[i + 1]).sum();
        1.0 / v
    }
    /// A temperature and a density close to where the formulas have a landmark: reducing and critical values.
    pub fn landmark(&self, r: &mut crate::rng::Rng) -> (f64, f64) {
        let pick = |r: &mut crate::rng::Rng| loop {
            let i = r.below(NC);
            if self.x[i] > 0.0 || r.chance(0.02) {
                break i + 1;
            }
        };
        let near = |r: &mut crate::rng::Rng, v: f64| match r.below(8) {
            0 => v,
            k => v * (1.0 + r.logrange(1e-15, 0.1) * if k < 4 { -1.0 } else { 1.0 }),
        };
        let t = match r.below(4) {
            0 => self.tcx(),
            1 => G_TC[pick(r)],
            _ if self.tr > 0.0 => self.tr,
            _ => self.tcx(),
        };
        let d = match r.below(5) {
            0 => self.dcx(),
            1 => G_DC[pick(r)],
            2 if self.k3 > 0.0 => 1.0 / self.k3,
            _ if self.dr > 0.0 => self.dr,
            _ => self.dcx(),
        };
        (near(r, t), near(r, d))
    }
    pub fn tcx(&self) -> f64 {
        (0..NC).map(|i| self.x[i] * G_TC[i + 1]).sum()
    }

    pub fn alphar<const NT: usize, const ND: usize>(&self, t: f64, d: f64) -> Alpha<NT, ND> {
        let mut a = Alpha::zero();
        match self.model {
            Model::Detail => {
                let tj = J::<NT>::var(t);
                let dj = J::<ND>::var(d);
                let red = dj.scale(self.k3);
                let mut pw = [J::<ND>::con(1.0); 10];
                for k in 1..10 {
                    pw[k] = pw[k - 1].mul(&red);
                }
                let mut ex = [J::<ND>::con(1.0); 5];
                for k in 1..5 {
                    ex[k] = pw[k].scale(-1.0).exp();
                }
                let mut cache: Vec<(f64, J<NT>)> = Vec::with_capacity(32);
                for n in 0..58 {
                    let f = match cache.iter().find(|c| c.0 == D_UN[n]) {
                        Some(c) => c.1,
                        None => {
                            let j = tj.powf(-D_UN[n]);
                            cache.push((D_UN[n], j));
                            j
                        }
                    };
                    if n < 18 {
                        let mut g = dj;
                        for k in 0..ND {
                            g.v[k] *= self.bn[n];
                            g.m[k] *= self.bm[n];
                        }
                        a.term(1.0, &f, &g);
                        if n >= 12 {
                            a.term(-self.cn[n], &f, &red);
                        }
                    }
                    if n >= 12 {
                        a.term(self.cn[n], &f, &pw[D_BN[n]].mul(&ex[D_KN[n]]));
                    }
                }
            }
            Model::Gerg => {
                let lt = J::<NT>::var(t).ln().scale(-1.0).addc(self.tr.ln());
                let de = J::<ND>::var(d).scale(1.0 / self.dr);
                let mut pw = [J::<ND>::con(1.0); 9];
                for k in 1..9 {
                    pw[k] = pw[k - 1].mul(&de);
                }
                let mut ex = [J::<ND>::con(1.0); 7];
                for k in 1..7 {
                    ex[k] = pw[k].scale(-1.0).exp();
                }
                let tau = |p: f64| lt.scale(p).exp();
                for i in 1..=NC {
                    let xi = self.x[i - 1];
                    if xi == 0.0 {
                        continue;
                    }
                    for k in 1..=G_KPOL[i] + G_KEXP[i] {
                        let mut g = pw[G_DOIK[i][k]];
                        if k > G_KPOL[i] {
                            g = g.mul(&ex[G_COIK[i][k]]);
                        }
                        if xi < 1e-14 {
                            a.optional(xi * G_NOIK[i][k], &tau(G_TOIK[i][k]), &g);
                        } else {
                            a.term(xi * G_NOIK[i][k], &tau(G_TOIK[i][k]), &g);
                        }
                    }
                    for j in i + 1..=NC {
                        let xj = self.x[j - 1];
                        let mn = G_MNUMB[i][j];
                        if xj == 0.0 || mn == 0 {
                            continue;
                        }
                        let w = xi * xj * G_FIJ[i][j];
                        for k in 1..=G_KPOLIJ[mn] + G_KEXPIJ[mn] {
                            let mut g = pw[G_MIX_D[mn][k]];
                            if k > G_KPOLIJ[mn] {
                                let e = de.addc(-G_MIX_EPS[mn][k]);
                                let y = de.addc(-G_MIX_GAM[mn][k]);
                                let s = e.mul(&e).scale(-G_MIX_ETA[mn][k]).add(&y.scale(-G_MIX_BETA[mn][k]));
                                g = g.mul(&s.exp());
                            }
                            if xi.min(xj) < 1e-14 {
                            a.optional(w * G_MIX_N[mn][k], &tau(G_MIX_T[mn][k]), &g);
                        } else {
                            a.term(w * G_MIX_N[mn][k], &tau(G_MIX_T[mn][k]), &g);
                        }
                        }
                    }
                }
            }
        }
        a
    }

    /// Pressure and its first `ND-2` density derivatives.
    pub fn p_jet(&self, t: f64, d: f64) -> (B, B) {
        let r = self.model.r();
        let a: Alpha<1, 3> = self.alphar(t, d);
        let (a1, a2) = (B::new(a.v[0][1], a.m[0][1]), B::new(2.0 * a.v[0][2], 2.0 * a.m[0][2]));
        let rt = r * t;
        let z = B::new(1.0, 1.0) + a1.scale(d);
        (z.scale(rt * d), (B::new(1.0, 1.0) + a1.scale(2.0 * d) + a2.scale(d * d)).scale(rt))
    }

    /// Ideal-gas a0/(RT) - ln(D) part as a Taylor series in T (the D dependence is exactly ln D).
    fn alpha0(&self, t: f64) -> J<3> {
        let r = self.model.r();
        let d0 = 101.325 / r / 298.15;
        let tj = J::<3>::var(t);
        let inv = tj.powf(-1.0);
        let lnt = tj.ln();
        let mut s = J::<3>::con(0.0);
        for i in 0..NC {
            let x = self.x[i];
            if !(x > 0.0) {
                continue;
            }
            let (n, th, c): ([f64; 7], [f64; 4], f64) = match self.model {
                Model::Detail => (D_N0I[i], [D_TH0I[i][3], D_TH0I[i][4], D_TH0I[i][5], D_TH0I[i][6]], 1.0),
                Model::Gerg => {
                    let g = &G_N0I[i + 1];
                    let h = &G_TH0I[i + 1];
                    // ideal-gas constants were fitted with the older R; scaling keeps h = s = 0 at 298.15 K
                    let c = 8.31451 / 8.314472;
                    ([g[1], g[2] + 298.15 * (1.0 - 1.0 / c), g[3], g[4], g[5], g[6], g[7]], [h[4], h[5], h[6], h[7]], c)
                }
            };
            let mut q = J::<3>::con(n[0]).add(&inv.scale(n[1])).add(&lnt.scale(1.0 - n[2]));
            for k in 0..4 {
                if th[k] > 0.0 && n[3 + k] != 0.0 {
                    let u = inv.scale(th[k]);
                    let ep = u.exp();
                    let em = u.scale(-1.0).exp();
                    let (sgn, y) = if k % 2 == 0 { (1.0, ep.add(&em.scale(-1.0))) } else { (-1.0, ep.add(&em)) };
                    q = q.add(&y.scale(0.5).ln().scale(sgn * n[3 + k]));
                }
            }
            s = s.add(&q.scale(c).addc(x.ln()).scale(x)).addc(-x * d0.ln());
        }
        s
    }

    /// Everything the library reports at (T, D).
    pub fn props(&self, t: f64, d: f64) -> Props {
        let r = self.model.r();
        let ar: Alpha<3, 4> = self.alphar(t, d);
        let a = ar.times_rt(r, t);
        let b = |i: usize, j: usize, f: f64| B::new(f * a.v[i][j], f * a.m[i][j]);
        let (a00, ad, add, addd) = (b(0, 0, 1.0), b(0, 1, 1.0), b(0, 2, 2.0), b(0, 3, 6.0));
        let (at, atd, atdd, att) = (b(1, 0, 1.0), b(1, 1, 1.0), b(1, 2, 2.0), b(2, 0, 2.0));
        // ideal part
        let j = self.alpha0(t);
        let sx: f64 = self.x.iter().filter(|x| **x > 0.0).sum();
        let lnd = d.ln();
        let j = j.addc(sx * lnd);
        let mut i0: Alpha<3, 1> = Alpha::zero();
        for k in 0..3 {
            i0.v[k][0] = j.v[k];
            i0.m[k][0] = j.m[k];
        }
        let i0 = i0.times_rt(r, t);
        let c = |i: usize, f: f64| B::new(f * i0.v[i][0], f * i0.m[i][0]);
        let rt = B::new(r * t, r * t);
        let dd = B::exact(d);
        let tt = B::exact(t);
        let p = rt.scale(d) + ad.scale(d * d);
        let z = B::new(1.0, 1.0) + ad.scale(d / (r * t));
        let dp_dd = rt + ad.scale(2.0 * d) + add.scale(d * d);
        let d2p_dd2 = ad.scale(2.0) + add.scale(4.0 * d) + addd.scale(d * d);
        let dp_dt = B::new(r * d, r * d) + atd.scale(d * d);
        let d2p_dtd = B::new(r, r) + atd.scale(2.0 * d) + atdd.scale(d * d);
        let aa = c(0, 1.0) + a00;
        let s = (c(1, 1.0) + at).scale(-1.0);
        let u = aa + tt * s;
        let pd = rt + ad.scale(d);
        let h = u + pd;
        let g = aa + pd;
        let cv = (c(2, 2.0) + att).scale(-t);
        let q = dp_dt / dd;
        let cp = cv + tt * q * q / dp_dd;
        let mm = self.model.mm(&self.x);
        let jt = (tt * q / dp_dd - B::exact(1.0)) / cp / dd;
        let w2 = cp.scale(1000.0) / cv * dp_dd / mm;
        let w = w2.sqrt();
        let kappa = w2 * mm / rt.scale(1000.0) / z;
        Props { p, z, mm, dp_dd, d2p_dd2, d2p_dtd, dp_dt, u, h, s, cv, cp, w, w2, g, jt, kappa }
    }

    /// All D in (lo, hi) with p(T, D) = p, by scanning n log-spaced points and bisecting.
    /// Returns (D, dp/dD at D). Also returns whether p rises monotonically on the scan.
    pub fn roots(&self, t: f64, p: f64, lo: f64, hi: f64, n: usize) -> (Vec<f64>, bool) {
        let mut out = vec![];
        let mut mono = true;
        let f = |d: f64| self.p_jet(t, d).0.v - p;
        let (mut da, mut fa) = (lo, f(lo));
        for k in 1..=n {
            let db = lo * (hi / lo).powf(k as f64 / n as f64);
            let fb = f(db);
            if !(fb > fa) {
                mono = false;
            }
            if fa == 0.0 || (fa < 0.0) != (fb < 0.0) {
                let (mut a, mut b) = (da, db);
                let sa = fa < 0.0;
                for _ in 0..80 {
                    let m = 0.5 * (a + b);
                    if (f(m) < 0.0) == sa {
                        a = m;
                    } else {
                        b = m;
                    }
                }
                out.push(0.5 * (a + b));
            }
            da = db;
            fa = fb;
        }
        (out, mono)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Props {
    pub p: B,
    pub z: B,
    pub mm: B,
    pub dp_dd: B,
    pub d2p_dd2: B,
    pub d2p_dtd: B,
    pub dp_dt: B,
    pub u: B,
    pub h: B,
    pub s: B,
    pub cv: B,
    pub cp: B,
    pub w: B,
    pub w2: B,
    pub g: B,
    pub jt: B,
    pub kappa: B,
}

pub fn rel() -> f64 {
    REL
}
