//! C33 every calculator starts the same, however it is made, and can be moved.
use crate::c_env::history;
use crate::c_more::fields;
use crate::c_state::apply;
use crate::eos::Eos;
use crate::refmodel::Model;
use crate::run::Cx;
use aga8::composition::Composition;
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use std::marker::PhantomData;

/// Whether a type may go to, or be looked at from, another thread; an answer, not a failure to compile.
struct Ask<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Ask<T> {}
struct AskSync<T>(PhantomData<T>);
impl<T> No for AskSync<T> {}
impl<T: Send> Ask<T> {
    const SEND: bool = true;
}
impl<T: Sync> AskSync<T> {
    const SYNC: bool = true;
}

struct Carry<T>(T);
// SAFETY: used only after the question above was answered.
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn take(self) -> T {
        self.0
    }
}

fn used(mut e: Eos, cx: &mut Cx, m: Model) -> Eos {
    let idx = cx.idx;
    for o in history(&mut cx.rng, m, idx, 12, false) {
        apply(&mut e, &o);
    }
    e
}

fn make(cx: &mut Cx, m: Model) -> (Eos, &'static str) {
    let how = cx.rng.below(8);
    let what = ["new()", "default()", "Box::default()", "new() on another thread", "default() on another thread", "what mem::take() leaves", "the last of a crowd", "new() after others were used"][how];
    let new = || Eos::new(m);
    let default = || match m {
        Model::Detail => Eos::D(Box::new(Detail::default())),
        Model::Gerg => Eos::G(Box::new(Gerg2008::default())),
    };
    let e = match how {
        0 => new(),
        1 => default(),
        2 => match m {
            Model::Detail => Eos::D(Box::default()),
            Model::Gerg => Eos::G(Box::default()),
        },
        3 | 4 => {
            let b = std::thread::Builder::new().stack_size([1 << 21, 1 << 22][cx.rng.below(2)]);
            let b = match cx.rng.below(4) {
                0 => b,
                1 => b.name("main".into()),
                2 => b.name(format!("worker-{}", cx.rng.below(9))),
                _ => b.name("tokio-runtime-worker".into()),
            };
            std::thread::scope(|s| b.spawn_scoped(s, || Carry(if how == 3 { new() } else { default() })).ok().and_then(|h| h.join().ok())).map_or_else(new, Carry::take)
        }
        5 => {
            let mut e = used(new(), cx, m);
            match &mut e {
                Eos::D(d) => drop(std::mem::take(&mut **d)),
                Eos::G(g) => drop(std::mem::take(&mut **g)),
            }
            e
        }
        6 => (0..30).map(|_| new()).last().unwrap_or_else(new),
        _ => {
            let a = used(new(), cx, m);
            let e = new();
            drop(a);
            e
        }
    };
    (e, what)
}

/// Put the calculator somewhere else.
fn moved(cx: &mut Cx, m: Model, e: Eos) -> (Eos, &'static str) {
    match cx.rng.below(5) {
        0 => (
            match e {
                Eos::D(d) => {
                    let on_stack = *d;
                    Eos::D(Box::new(std::hint::black_box(on_stack)))
                }
                Eos::G(g) => {
                    let on_stack = *g;
                    Eos::G(Box::new(std::hint::black_box(on_stack)))
                }
            },
            "moved to another address",
        ),
        1 => {
            let mut e = e;
            let mut other = used(Eos::new(m), cx, m);
            match (&mut e, &mut other) {
                (Eos::D(a), Eos::D(b)) => std::mem::swap(&mut **a, &mut **b),
                (Eos::G(a), Eos::G(b)) => std::mem::swap(&mut **a, &mut **b),
                _ => {}
            }
            // the other stays alive, and in use, where this one was
            (used(e, cx, m), other).1.pipe("swapped with another")
        }
        2 => (
            match e {
                Eos::D(d) => {
                    let mut v = Vec::with_capacity(1);
                    v.push(*d);
                    for _ in 0..4 {
                        v.insert(0, Detail::new());
                    }
                    Eos::D(Box::new(v.pop().unwrap_or_default()))
                }
                Eos::G(g) => {
                    let mut v = Vec::with_capacity(1);
                    v.push(*g);
                    for _ in 0..4 {
                        v.insert(0, Gerg2008::new());
                    }
                    Eos::G(Box::new(v.pop().unwrap_or_default()))
                }
            },
            "kept in a vector that grew",
        ),
        3 => {
            let c = Carry(e);
            let e = std::thread::scope(|s| {
                s.spawn(move || {
                    let e = c;
                    Carry(e.take())
                })
                .join()
            });
            (e.map_or_else(|_| Eos::new(m), Carry::take), "sent to another thread and back")
        }
        _ => (e, "left where it was"),
    }
}

trait Pipe: Sized {
    fn pipe(self, s: &'static str) -> (Self, &'static str) {
        (self, s)
    }
}
impl Pipe for Eos {}

pub fn c33(cx: &mut Cx) -> Result<(), String> {
    let m = if cx.idx % 2 == 0 { Model::Detail } else { Model::Gerg };
    for (n, s) in [
        ("Detail can be sent to another thread", Ask::<Detail>::SEND),
        ("Gerg2008 can be sent to another thread", Ask::<Gerg2008>::SEND),
        ("Composition can be sent to another thread", Ask::<Composition>::SEND),
        ("Detail can be looked at from another thread", AskSync::<Detail>::SYNC),
        ("Gerg2008 can be looked at from another thread", AskSync::<Gerg2008>::SYNC),
        ("Composition can be looked at from another thread", AskSync::<Composition>::SYNC),
    ] {
        if !s {
            return Err(format!("no longer so: {n}"));
        }
    }
    let c = crate::eos::uncomp(&Composition::default());
    if c.iter().any(|v| v.to_bits() != 0) {
        return Err(format!("a default composition is not empty: {c:?}"));
    }
    let (mut e, what) = make(cx, m);
    let mut f = Eos::new(m);
    for (k, v) in fields(&e).iter().enumerate() {
        if v.to_bits() != 0 {
            return Err(format!("{} {what}: public field number {k} starts as {v:?}", m.name()));
        }
    }
    cx.rec.count(what);
    let idx = cx.idx;
    let hostile = idx % 5 == 0;
    let mut ops = history(&mut cx.rng, m, idx, 30, hostile);
    if cx.rng.chance(0.3) {
        // a first call without preparation
        let k = cx.rng.below(ops.len().min(8));
        ops.rotate_left(k);
    }
    // another of its kind, made in another way or elsewhere, is used in between
    let mut rival = if cx.rng.chance(0.4) { Some(make(cx, m).0) } else { None };
    let theirs = if rival.is_some() { history(&mut cx.rng, m, idx + 1, 30, false) } else { vec![] };
    let mut way = "";
    for (k, o) in ops.iter().enumerate() {
        if cx.rng.chance(0.15) {
            let (g, w) = moved(cx, m, e);
            e = g;
            way = w;
            cx.rec.count(w);
        }
        if let (Some(r), Some(o)) = (&mut rival, theirs.get(k)) {
            apply(r, o);
            cx.rec.count("calls on another in between");
        }
        let (a, b) = (apply(&mut e, o), apply(&mut f, o));
        let (u, v) = (fields(&e), fields(&f));
        let eq = |p: f64, q: f64| p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan();
        let off = a.iter().zip(&b).find(|(p, q)| !eq(p.1, q.1)).map(|(p, q)| (p.0.to_string(), p.1, q.1));
        let off = off.or_else(|| u.iter().zip(&v).enumerate().find(|(_, (p, q))| !eq(**p, **q)).map(|(n, (p, q))| (format!("public field {n}"), *p, *q)));
        if let Some((n, p, q)) = off {
            return Err(format!(
                "{} {what}, {way}: {n} is {p:?}, with new() unmoved {q:?}, in call {k} {} after {}",
                m.name(),
                o.short(),
                ops[..k].iter().rev().take(8).rev().map(|o| o.short()).collect::<Vec<_>>().join(" ; ")
            ));
        }
        cx.rec.count("calls compared");
    }
    cx.rec.hit(&[idx as f64, e.t(), e.p(), e.d()]);
    cx.rec.sample(|| format!("{} {what}, {way}: {} calls the same", m.name(), ops.len()));
    Ok(())
}
