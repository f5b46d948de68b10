//! vh: runtime monitors for royvegard/aga8. See /verif/DESIGN.md.
mod c_comp;
mod c_density;
#[cfg(feature = "ffi")]
mod c_env;
#[cfg(feature = "ffi")]
mod c_ffi;
mod c_model;
mod c_more;
mod c_phase;
#[cfg(feature = "ffi")]
mod c_start;
mod c_state;
mod c_thermo;
mod eos;
mod gen;
mod jet;
mod refdata;
mod refmodel;
mod rng;
mod run;
mod trace;

use run::{Opts, Spec};

#[cfg(feature = "ffi")]
#[global_allocator]
static ALLOC: c_ffi::Count = c_ffi::Count;


const MODEL_RULE: &str = "one calculator per case, two compositions, random walks over T and D; non-trivial: the allowance for rounding was at most 1e-4 of the value for at least one compared quantity; distinct by (T, D, composition)";

const DENS_RULE: &str = "density() calls over T, p, composition, flag and prior D; non-trivial: the call succeeded and the pressure of the reference equation at the returned D could be compared with the requested one; distinct by (T, p, D, flag, composition)";

fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C01", case: c_model::c01, cases: (360000, 5400000), rule: MODEL_RULE, need: &[("evals", 6000000)], cpu_limit: 60.0 },
        Spec { id: "C02", case: c_model::c02, cases: (240000, 3600000), rule: MODEL_RULE, need: &[("evals", 2400000)], cpu_limit: 60.0 },
        Spec { id: "C03", case: c_model::c03, cases: (360000, 5400000), rule: MODEL_RULE, need: &[("evals", 6000000)], cpu_limit: 60.0 },
        Spec { id: "C04", case: c_model::c04, cases: (240000, 3600000), rule: MODEL_RULE, need: &[("evals", 2400000)], cpu_limit: 60.0 },
        Spec { id: "C05", case: c_density::c05, cases: (200000, 2000000), rule: DENS_RULE, need: &[("evals", 200000)], cpu_limit: 60.0 },
        Spec { id: "C06", case: c_density::c06, cases: (200000, 2000000), rule: DENS_RULE, need: &[("evals", 200000)], cpu_limit: 60.0 },
        Spec { id: "C07", case: c_density::c07, cases: (60000, 1200000), rule: DENS_RULE, need: &[("evals", 60000)], cpu_limit: 60.0 },
        Spec { id: "C08", case: c_state::c08, cases: (100000, 2000000), rule: "random call histories on one calculator (compositions swapped, drifting, rejected; T, p, D moved, some of them hostile; calls that fail), every computed result compared with a new calculator given the same x, T, p, D; distinct by inputs and position", need: &[("pressure", 250000), ("density", 250000), ("properties", 150000)], cpu_limit: 60.0 },
        Spec { id: "C09", case: c_state::c09, cases: (72000, 1200000), rule: "2 to 5 calculators, random interleavings or concurrent threads, every result compared with the same calls run alone; distinct by interleaving", need: &[("calculators run on concurrent threads", 30000), ("calculators interleaved on one thread", 90000)], cpu_limit: 60.0 },
        Spec { id: "C12", case: c_comp::c12, cases: (400000, 6000000), rule: "compositions: valid, near the thresholds of check(), integers, single components, hostile numbers, huge and tiny scales, cancelling; distinct by all 21 fields", need: &[("check Ok(())", 1000000), ("check Err(Empty)", 10000), ("check Err(BadSum)", 1000000), ("normalize Ok", 1000000)], cpu_limit: 60.0 },
        Spec { id: "C13", case: c_comp::c13, cases: (240000, 3600000), rule: "sequences of accepted and rejected compositions on one calculator; after each, the x array and the computed mm, z, u, s, cp, p are compared with the composition in force; distinct by composition", need: &[("accepted", 600000), ("rejected", 480000)], cpu_limit: 60.0 },
        Spec { id: "C14", case: c_comp::c14, cases: (160000, 2400000), rule: "any valid composition; distinct by all 21 fractions", need: &[("evals", 4000000)], cpu_limit: 60.0 },
        Spec { id: "C18", case: c_state::c18, cases: (240000, 4000000), rule: "any 64-bit patterns in T, p, D, x and flag, mixed with valid ones; every call must return, without a panic, and density() must not claim success it cannot have; distinct by inputs", need: &[("several hostile inputs", 120000), ("clean inputs", 120000), ("recovered after hostile inputs", 120000)], cpu_limit: 30.0 },
        Spec { id: "C10", case: c_thermo::c10, cases: (192000, 3200000), rule: "states over T, D and composition; identities between the reported values, and differences of the library's own values against its reported derivatives; distinct by state", need: &[("identities checked", 4800000), ("derivatives checked", 1600000)], cpu_limit: 60.0 },
        Spec { id: "C11", case: c_thermo::c11, cases: (240000, 4000000), rule: "zero density and densities from 1e-13 to 1e-4 mol/l; distinct by state", need: &[("virial slope", 100000), ("second-order limits", 500000), ("reference state", 200000)], cpu_limit: 60.0 },
        Spec { id: "C20", case: c_thermo::c20, cases: (240000, 4500000), rule: "natural gases, pure light gases and air, 270-350 K, up to 12 MPa, both equations; distinct by state", need: &[("evals", 1500000)], cpu_limit: 60.0 },
        Spec { id: "C21", case: c_thermo::c21, cases: (200000, 3750000), rule: "gases above 1.35 Tc up to 60 MPa, along isotherms and isobars; distinct by state", need: &[("evals", 3750000)], cpu_limit: 60.0 },
        Spec { id: "C22", case: c_thermo::c22, cases: (400000, 6000000), rule: "pairs of states a tiny step apart in T, D or one fraction, and paths between distant states (searched for the step where the library leaves the equation); the change of each output against the change of the reference equation; distinct by state and step", need: &[("quantities compared", 8000000), ("long paths", 500000)], cpu_limit: 60.0 },
        Spec { id: "C23", case: c_thermo::c23, cases: (40000, 800000), rule: "D -> pressure() -> density() -> D where the isotherm rises throughout; distinct by state", need: &[("evals", 80000)], cpu_limit: 60.0 },
        Spec { id: "C24", case: c_more::c24, cases: (40000, 800000), rule: "every pure fluid at 0.6-0.94 of its critical temperature: the pressure at which gas and liquid balance, and the slope of the vapour-pressure curve; distinct by fluid and temperature", need: &[("evals", 20000), ("liquid found by flag 2", 50000)], cpu_limit: 60.0 },
        Spec { id: "C25", case: c_more::c25, cases: (120000, 2400000), rule: "random call histories; every public field before and after each call; distinct by inputs", need: &[("set_composition, refused", 100000), ("molar_mass", 150000), ("pressure", 500000), ("density", 200000), ("density, failed", 100000), ("properties", 300000)], cpu_limit: 60.0 },
        Spec { id: "C26", case: c_more::c26, cases: (50000, 1000000), rule: "dilute mixtures against their components alone at their partial densities; distinct by state and composition", need: &[("evals", 150000)], cpu_limit: 60.0 },
        Spec { id: "C28", case: c_more::c28, cases: (200000, 3000000), rule: "density() from estimates for which Newton's method must converge (Kantorovich), over gases and liquids; distinct by state and estimate", need: &[("evals", 400000), ("gerg liquid found from afar", 10000), ("detail liquid found from afar", 3000)], cpu_limit: 60.0 },
        Spec { id: "C34", case: c_phase::c34, cases: (40000, 800000), rule: "pressures below the first maximum of the isotherm, where a gas exists, often with liquids of the same pressure; distinct by state and composition", need: &[("evals", 100000), ("gas although a liquid has the same pressure, gerg", 15000), ("gas although a liquid has the same pressure, detail", 15000)], cpu_limit: 60.0 },
        Spec { id: "C35", case: c_phase::c35, cases: (40000, 800000), rule: "pressures above every pressure of the gas, below or near the critical temperature, where one dense state has the pressure; distinct by state and composition", need: &[("evals", 120000)], cpu_limit: 60.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C27", case: c_more::c27, cases: (40000, 800000), rule: "whole lives of calculators, four times each, and long runs of different calls, with the allocator's books compared; distinct by case", need: &[("lives", 30000), ("long runs", 16)], cpu_limit: 120.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C29", case: c_ffi::c29, cases: (48000, 800000), rule: "2 to 6 handles, random interleavings or concurrent threads, everything visible after every call compared with the Rust interface used alone; distinct by interleaving", need: &[("handles on concurrent threads", 60000), ("handles in turn on one thread", 60000), ("results read by three threads", 10000)], cpu_limit: 60.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C30", case: c_env::c30, cases: (60000, 900000), rule: "calls timed by the thread's CPU clock against properties() of a 21-component gas, on a 2 MiB stack; distinct by history", need: &[("calls timed", 3000000), ("hostile histories", 15000), ("long runs", 32)], cpu_limit: 120.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C33", case: c_start::c33, cases: (30000, 600000), rule: "a calculator made in one of eight ways and moved between calls, against one from new() that stays where it is, every public field bit for bit; distinct by history", need: &[("default()", 2000), ("what mem::take() leaves", 2000), ("sent to another thread and back", 8000), ("swapped with another", 8000), ("calls compared", 600000)], cpu_limit: 60.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C31", case: c_env::c31, cases: (40000, 800000), rule: "histories of calls on threads whose system calls for input, output, files, processes, signals, timers and sleep are stopped and reported; floating-point control registers compared after every call; distinct by history", need: &[("calls", 4000000)], cpu_limit: 60.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C15", case: c_ffi::c15, cases: (160000, 2400000), rule: "random call sequences on one to three handles of the C interface, each call repeated on the Rust interface and everything visible compared bit for bit; distinct by position and state", need: &[("evals", 3200000), ("aga8 calculate_properties", 120000), ("gerg calculate_properties", 120000)], cpu_limit: 60.0 },
        #[cfg(feature = "ffi")]
        Spec { id: "C16", case: c_ffi::c16, cases: (40000, 600000), rule: "handles made, used, passed on and freed in random order, with the allocator's books compared before and after; distinct by case", need: &[("handles made and freed", 400000), ("calls", 2000000), ("handle passed between threads", 3000)], cpu_limit: 60.0 },
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|s| s == k).and_then(|i| a.get(i + 1)).cloned();
    let o = Opts {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            if get("--only").is_some() { 1 } else { std::thread::available_parallelism().map_or(8, |n| n.get()) }
        }),
        json: get("--json"),
        crumb: get("--crumb"),
        only: get("--only").and_then(|s| s.parse().ok()),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        wall: get("--wall").and_then(|s| s.parse().ok()).unwrap_or(1e9),
    };
    let id = a.get(1).cloned().unwrap_or_default();
    let arg = |k: usize| a.get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    match id.as_str() {
        #[cfg(feature = "ffi")]
        "null" => return c_ffi::null_call(arg(2) as usize),
        #[cfg(feature = "ffi")]
        "abi" => return print!("{}", c_ffi::abi_script(arg(2), arg(3) as usize)),
        #[cfg(feature = "ffi")]
        "layout" => return print!("{}", c_ffi::layout()),
        #[cfg(feature = "ffi")]
        "cases" => return c_env::cases(arg(2), &a.get(3).cloned().unwrap_or_default(), arg(4), arg(5)),
        "trace" => return trace::trace(arg(2), arg(3), arg(4)),
        _ => {}
    }
    let Some(s) = specs().into_iter().find(|s| s.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(4);
    };
    std::process::exit(run::run(&s, &o));
}
