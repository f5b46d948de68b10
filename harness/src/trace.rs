//! C19: one line per call with its inputs and results, to be compared between builds.
use crate::c_state::{apply, Op};
use crate::eos::Eos;
use crate::gen;
use crate::refmodel::{Mix, Model, NC};
use crate::rng::Rng;

/// Where rounding cannot decide the outcome: gases away from phase boundaries.
pub fn trace(seed: u64, from: u64, n: u64) {
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for i in from..from + n {
        let mut r = Rng::new(seed, "C19", i);
        let m = if i % 2 == 0 { Model::Detail } else { Model::Gerg };
        let mut e = Eos::new(m);
        let mut ops: Vec<(char, Op)> = vec![];
        macro_rules! push {
            ($k:literal, $($o:expr),+) => {{ $( ops.push(($k, $o)); )+ }};
        }
        for _ in 0..2 {
            let mut x = match r.below(6) {
                0 => gen::any_air(&mut r),
                1 => gen::pure(*r.pick(&[0usize, 1, 2, 3, 15, 16, 20])),
                2 => {
                    let (i, j) = (r.below(NC), r.below(NC));
                    gen::binary(i, j, r.range(0.1, 0.9))
                }
                _ => gen::pipeline(&mut r),
            };
            if r.chance(0.15) {
                let f = r.range(0.5, 2.0);
                x.iter_mut().for_each(|v| *v *= f);
            }
            push!('n', if r.chance(0.2) { Op::Comp([0.0; NC]) } else { Op::Comp(x) });
            let sum: f64 = x.iter().sum();
            if (sum - 1.0).abs() > 0.009 {
                gen::norm(&mut x);
            }
            push!('n', Op::X(x));
            let mix = Mix::new(m, &x);
            for _ in 0..4 {
                let t = r.range(1.4, 3.0) * mix.tcx().max(200.0);
                let p = if r.chance(0.1) { 0.0 } else { r.logrange(1e-3, 20_000.0) };
                push!('n', Op::T(t), Op::P(p), Op::D(if r.chance(0.3) { gen::dens(&mut r) } else { 0.0 }), Op::Mass);
                push!('n', Op::Density(if m == Model::Gerg { *r.pick(&[0, 1, 2, 0, 1, 2, -1, 3, i32::MIN, i32::MAX]) } else { 0 }));
                if p > 0.0 {
                    push!('n', Op::Pressure, Op::Properties);
                }
                match r.below(8) {
                    0 | 1 => push!('n', Op::T(r.range(400.0, 700.0)), Op::D(r.range(0.01, 3.0)), Op::Properties),
                    // next to nothing in the pipe
                    2 | 3 => {
                        let d = if r.chance(0.4) { 0.0 } else { r.logrange(1e-17, 1e-4) };
                        let t = gen::temp(&mut r).clamp(60.0, 2000.0);
                        push!('d', Op::T(t), Op::D(d), Op::Properties, Op::Pressure);
                    }
                    // anything, phases or not
                    4 | 5 => {
                        let (t, d) = (gen::temp(&mut r).clamp(60.0, 2000.0), gen::dens(&mut r));
                        push!('w', Op::T(t), Op::D(d), Op::Pressure, Op::Properties);
                    }
                    // no numbers at all
                    6 => {
                        let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                        match r.below(3) {
                            0 => push!('h', Op::T(bad)),
                            1 => push!('h', Op::P(bad)),
                            _ => push!('h', Op::P(-r.logrange(1e-3, 1e4))),
                        }
                        push!('h', Op::D(0.0), Op::Density(0), Op::D(0.0));
                    }
                    _ => {}
                }
            }
        }
        for (k, (tag, op)) in ops.iter().enumerate() {
            let v = apply(&mut e, op);
            let _ = writeln!(out, "{i}.{k}{tag} {} {}", op.short().replace(' ', "_"), v.iter().map(|(n, v)| format!("{}={v:e}", n.replace(' ', "_"))).collect::<Vec<_>>().join(" "));
        }
    }
}
