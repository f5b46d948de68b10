//! Truncated Taylor arithmetic (automatic differentiation) that carries, next to every coefficient,
//! the size of the terms that were added up to make it. `REL * m` is then the allowance for
//! rounding: it survives any reordering of the sums and tightens where nothing cancels.

/// Taylor coefficients v[k] = f^(k)/k!, with magnitudes m[k] >= |v[k]|.
#[derive(Clone, Copy, Debug)]
pub struct J<const N: usize> {
    pub v: [f64; N],
    pub m: [f64; N],
}

impl<const N: usize> J<N> {
    pub fn con(c: f64) -> Self {
        let mut v = [0.0; N];
        let mut m = [0.0; N];
        v[0] = c;
        m[0] = c.abs();
        J { v, m }
    }
    pub fn var(x: f64) -> Self {
        let mut r = Self::con(x);
        if N > 1 {
            r.v[1] = 1.0;
            r.m[1] = 1.0;
        }
        r
    }
    pub fn add(&self, o: &Self) -> Self {
        let mut r = *self;
        for k in 0..N {
            r.v[k] += o.v[k];
            r.m[k] += o.m[k];
        }
        r
    }
    pub fn scale(&self, c: f64) -> Self {
        let mut r = *self;
        for k in 0..N {
            r.v[k] *= c;
            r.m[k] *= c.abs();
        }
        r
    }
    pub fn addc(&self, c: f64) -> Self {
        let mut r = *self;
        r.v[0] += c;
        r.m[0] += c.abs();
        r
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut r = J { v: [0.0; N], m: [0.0; N] };
        for i in 0..N {
            for j in 0..N - i {
                r.v[i + j] += self.v[i] * o.v[j];
                r.m[i + j] += self.m[i] * o.m[j];
            }
        }
        r
    }
    pub fn exp(&self) -> Self {
        let e = self.v[0].exp();
        let mut r = J { v: [0.0; N], m: [0.0; N] };
        r.v[0] = e;
        r.m[0] = e * self.m[0].max(1.0);
        for k in 1..N {
            for j in 1..=k {
                let w = j as f64 / k as f64;
                r.v[k] += w * self.v[j] * r.v[k - j];
                r.m[k] += w * self.m[j] * r.m[k - j];
            }
        }
        r
    }
    pub fn powf(&self, p: f64) -> Self {
        let u0 = self.v[0];
        let b = u0.powf(p);
        let mut r = J { v: [0.0; N], m: [0.0; N] };
        r.v[0] = b;
        let rel = (p * self.m[0] / u0).abs().max((p * u0.abs().ln()).abs()).max(1.0);
        r.m[0] = b.abs() * rel;
        for k in 1..N {
            for j in 1..=k {
                let w = (p * j as f64 - (k - j) as f64) / (k as f64 * u0);
                r.v[k] += w * self.v[j] * r.v[k - j];
                r.m[k] += w.abs() * self.m[j] * r.m[k - j];
            }
        }
        r
    }
    pub fn ln(&self) -> Self {
        let u0 = self.v[0];
        let mut r = J { v: [0.0; N], m: [0.0; N] };
        r.v[0] = u0.ln();
        r.m[0] = r.v[0].abs().max(self.m[0] / u0.abs());
        for k in 1..N {
            let mut s = self.v[k];
            let mut a = self.m[k];
            for j in 1..k {
                s -= j as f64 / k as f64 * r.v[j] * self.v[k - j];
                a += j as f64 / k as f64 * r.m[j] * self.m[k - j];
            }
            r.v[k] = s / u0;
            r.m[k] = a / u0.abs();
        }
        r
    }
}

/// Allowance for rounding, relative to the magnitude of the summed terms.
pub const REL: f64 = 3e-12;

/// A value with an error radius.
#[derive(Clone, Copy, Debug)]
pub struct B {
    pub v: f64,
    pub e: f64,
}

impl B {
    pub fn new(v: f64, m: f64) -> B {
        B { v, e: REL * m.max(v.abs()) }
    }
    pub fn exact(v: f64) -> B {
        B { v, e: 0.0 }
    }
    pub fn scale(self, c: f64) -> B {
        B { v: self.v * c, e: self.e * c.abs() }
    }
    /// Is `x` inside the ball?
    pub fn holds(self, x: f64) -> bool {
        (x - self.v).abs() <= self.e
    }
    /// Is the ball small enough to say something?
    pub fn sharp(self) -> bool {
        self.e.is_finite() && self.v.is_finite() && self.e <= 1e-4 * self.v.abs().max(1e-6)
    }
    pub fn positive(self) -> bool {
        self.v - self.e > 0.0
    }
    pub fn negative(self) -> bool {
        self.v + self.e < 0.0
    }
    pub fn sqrt(self) -> B {
        let lo = self.v - self.e;
        if !(lo > 0.0) {
            return B { v: self.v.max(0.0).sqrt(), e: f64::INFINITY };
        }
        let s = self.v.sqrt();
        B { v: s, e: self.e / (2.0 * lo.sqrt()) + REL * 1e-3 * s }
    }
}
impl std::ops::Add for B {
    type Output = B;
    fn add(self, o: B) -> B {
        B { v: self.v + o.v, e: self.e + o.e + 4e-16 * (self.v.abs() + o.v.abs()) }
    }
}
impl std::ops::Sub for B {
    type Output = B;
    fn sub(self, o: B) -> B {
        self + o.scale(-1.0)
    }
}
impl std::ops::Mul for B {
    type Output = B;
    fn mul(self, o: B) -> B {
        let v = self.v * o.v;
        B { v, e: self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + 1e-15 * v.abs() }
    }
}
impl std::ops::Div for B {
    type Output = B;
    fn div(self, o: B) -> B {
        let v = self.v / o.v;
        let lo = o.v.abs() - o.e;
        if !(lo > 0.0) {
            return B { v, e: f64::INFINITY };
        }
        B { v, e: (self.e + v.abs() * o.e) / lo + 1e-15 * v.abs() }
    }
}
