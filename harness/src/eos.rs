//! Uniform access to the two calculators of the crate under test.
use crate::refmodel::{Model, NC, X};
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DRes {
    Ok,
    Iter,
    Low,
    ErrOk,
}

#[allow(unreachable_patterns)]
pub fn dres(r: Result<(), DensityError>) -> DRes {
    match r {
        Ok(()) => DRes::Ok,
        Err(DensityError::IterationFail) => DRes::Iter,
        Err(DensityError::PressureTooLow) => DRes::Low,
        Err(_) => DRes::ErrOk,
    }
}

pub enum Eos {
    D(Box<Detail>),
    G(Box<Gerg2008>),
}

// SAFETY: C33 asks whether the calculators are `Send`, and says so if not; the other monitors still compile then.
unsafe impl Send for Eos {}

/// Names of `out()`.
pub const OUT: [&str; 16] = [
    "d", "mm", "z", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt", "kappa",
];

macro_rules! each {
    ($s:expr, $e:ident => $b:expr) => {
        match $s {
            Eos::D($e) => $b,
            Eos::G($e) => $b,
        }
    };
}

impl Eos {
    pub fn new(m: Model) -> Eos {
        match m {
            Model::Detail => Eos::D(Box::new(Detail::new())),
            Model::Gerg => Eos::G(Box::new(Gerg2008::new())),
        }
    }
    pub fn set_comp(&mut self, c: &Composition) -> Result<(), CompositionError> {
        each!(self, e => e.set_composition(c))
    }
    /// Write the public fraction array directly.
    pub fn set_x(&mut self, x: &X) {
        match self {
            Eos::D(e) => e.x.copy_from_slice(x),
            Eos::G(e) => e.x[1..=NC].copy_from_slice(x),
        }
    }
    pub fn x(&self) -> X {
        let mut o = [0.0; NC];
        match self {
            Eos::D(e) => o.copy_from_slice(&e.x),
            Eos::G(e) => o.copy_from_slice(&e.x[1..=NC]),
        }
        o
    }
    pub fn t(&self) -> f64 {
        each!(self, e => e.t)
    }
    pub fn p(&self) -> f64 {
        each!(self, e => e.p)
    }
    pub fn d(&self) -> f64 {
        each!(self, e => e.d)
    }
    pub fn z(&self) -> f64 {
        each!(self, e => e.z)
    }
    pub fn mm(&self) -> f64 {
        each!(self, e => e.mm)
    }
    pub fn set_t(&mut self, v: f64) {
        each!(self, e => e.t = v)
    }
    pub fn set_p(&mut self, v: f64) {
        each!(self, e => e.p = v)
    }
    pub fn set_d(&mut self, v: f64) {
        each!(self, e => e.d = v)
    }
    pub fn pressure(&mut self) -> f64 {
        each!(self, e => e.pressure())
    }
    /// Runs properties() and returns the pressure it computed.
    pub fn properties(&mut self) -> f64 {
        match self {
            Eos::D(e) => {
                e.properties();
                e.p
            }
            Eos::G(e) => e.properties(),
        }
    }
    pub fn molar_mass(&mut self) -> f64 {
        match self {
            Eos::D(e) => e.molar_mass(),
            Eos::G(e) => {
                e.molar_mass();
                e.mm
            }
        }
    }
    pub fn density(&mut self, flag: i32) -> DRes {
        match self {
            Eos::D(e) => dres(e.density()),
            Eos::G(e) => dres(e.density(flag)),
        }
    }
    pub fn out(&self) -> [f64; 16] {
        each!(self, e => [
            e.d, e.mm, e.z, e.dp_dd, e.d2p_dd2, e.d2p_dtd, e.dp_dt, e.u, e.h, e.s, e.cv, e.cp, e.w, e.g, e.jt, e.kappa
        ])
    }
}

/// The 21 public fields, by name, in the order the documentation lists them.
pub fn comp(x: &X) -> Composition {
    Composition {
        methane: x[0],
        nitrogen: x[1],
        carbon_dioxide: x[2],
        ethane: x[3],
        propane: x[4],
        isobutane: x[5],
        n_butane: x[6],
        isopentane: x[7],
        n_pentane: x[8],
        hexane: x[9],
        heptane: x[10],
        octane: x[11],
        nonane: x[12],
        decane: x[13],
        hydrogen: x[14],
        oxygen: x[15],
        carbon_monoxide: x[16],
        water: x[17],
        hydrogen_sulfide: x[18],
        helium: x[19],
        argon: x[20],
    }
}

pub fn uncomp(c: &Composition) -> X {
    [
        c.methane,
        c.nitrogen,
        c.carbon_dioxide,
        c.ethane,
        c.propane,
        c.isobutane,
        c.n_butane,
        c.isopentane,
        c.n_pentane,
        c.hexane,
        c.heptane,
        c.octane,
        c.nonane,
        c.decane,
        c.hydrogen,
        c.oxygen,
        c.carbon_monoxide,
        c.water,
        c.hydrogen_sulfide,
        c.helium,
        c.argon,
    ]
}

pub const NAMES: [&str; NC] = [
    "methane", "nitrogen", "carbon_dioxide", "ethane", "propane", "isobutane", "n_butane", "isopentane", "n_pentane",
    "hexane", "heptane", "octane", "nonane", "decane", "hydrogen", "oxygen", "carbon_monoxide", "water",
    "hydrogen_sulfide", "helium", "argon",
];
