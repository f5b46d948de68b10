#!/usr/bin/env python3
"""Driver: builds the monitors against /repo's working tree, runs them, writes evidence and replays.

  check.py <ID> [--tier quick|thorough] [--seed N]     run one property's check
  check.py --replay <file>                             repeat a recorded violation
  check.py --setup                                     build everything once

Exit 0: held on everything explored. 1: violated (VIOLATION line). Anything else: no verdict.
"""
import json
import math, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path("/repo")
B = V / "build"
T0 = time.time()
TRIPLE = "x86_64-unknown-linux-gnu"
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


class Stop(Exception):
    """No verdict."""


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "MIRIFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def sh(cmd, timeout, e=None, cwd=None, stdin=None):
    try:
        return subprocess.run([str(c) for c in cmd], capture_output=True, text=True, errors="replace", timeout=timeout, env=e or env(), cwd=cwd, input=stdin)
    except subprocess.TimeoutExpired:
        raise Stop(f"timed out after {timeout} s: {' '.join(map(str, cmd))[:200]}")


def forget(d):
    """Cargo judges freshness by mtime; make it rebuild the crate under test.
    Stable keeps .fingerprint/aga8-<hash>, nightly keeps build/aga8/<hash>/fingerprint."""
    gone = [Path(r) / n for r, ds, _ in os.walk(d) for n in ds if n == "aga8" or n.startswith("aga8-")]
    for p in gone:
        shutil.rmtree(p, ignore_errors=True)


def fresh(r, what):
    if "Compiling aga8 " not in r.stderr:
        raise Stop(f"{what}: cargo did not rebuild the crate under test\n" + r.stderr[-1500:])


# ---- builds -------------------------------------------------------------------------------------

BUILDS = {
    # name: (toolchain, cargo arguments, RUSTFLAGS, directory of the binaries)
    "rel": (None, ["--release"], "", "release"),
    "checked": (None, ["--profile", "checked"], "", "checked"),
    "ship": (None, ["--profile", "ship"], "", "ship"),
    "dev": (None, [], "", "debug"),
    "plain": (None, ["--release", "--no-default-features"], "", "release"),
    "abort": (None, ["--release"], "-Cpanic=abort -Copt-level=2", "release"),
    "v3": (None, ["--release"], "-Ctarget-cpu=x86-64-v3", "release"),
    "asan": ("+nightly", ["--profile", "checked", "--target", TRIPLE], "-Zsanitizer=address", f"{TRIPLE}/checked"),
    "tsan": ("+nightly", ["--profile", "checked", "--target", TRIPLE, "-Zbuild-std"], "-Zsanitizer=thread", f"{TRIPLE}/checked"),
}


def build(name):
    tc, args, flags, sub = BUILDS[name]
    d = B / name
    d.mkdir(parents=True, exist_ok=True)
    forget(d)
    cmd = ["cargo"] + ([tc] if tc else []) + ["build", "--offline", "--locked", "--manifest-path", V / "harness/Cargo.toml", "--bin", "vh"] + args
    r = sh(cmd, 850, env(CARGO_TARGET_DIR=d, **({"RUSTFLAGS": flags} if flags else {})))
    if r.returncode != 0:
        raise Stop(f"build '{name}' failed:\n" + r.stderr[-4000:])
    fresh(r, f"build '{name}'")
    return d / sub


def lock():
    if not (REPO / "Cargo.lock").exists() and Path("/opt/vp/Cargo.lock").exists():
        shutil.copy("/opt/vp/Cargo.lock", REPO / "Cargo.lock")  # ignored by git there


def build_real():
    """The library as the repository ships it: its own release profile, its own header."""
    lock()
    d = B / "real"
    d.mkdir(parents=True, exist_ok=True)
    forget(d)
    h = d / "aga8.h"
    if h.exists():
        h.unlink()
    r = sh(["cargo", "build", "--offline", "--manifest-path", REPO / "Cargo.toml", "--release", "--lib", "--features", "extern"], 850, env(CARGO_TARGET_DIR=d))
    if r.returncode != 0:
        raise Stop("building the shipped library failed:\n" + r.stderr[-4000:])
    fresh(r, "the shipped library")
    for f in ("aga8.h", "release/libaga8.a", "release/libaga8.so"):
        if not (d / f).exists():
            raise Stop(f"the build did not produce {f}")
    return d


# ---- literals: workload guidance ----------------------------------------------------------------

NUM = re.compile(r"(?<![\w.])(\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d[\d_]*)?)(?:_?f64|_?[iu]\d+|_?usize)?")


def numbers():
    out = {}
    for p in sorted((REPO / "src").rglob("*.rs")):
        t = re.sub(r"//[^\n]*", "", p.read_text(errors="replace"))
        for m in NUM.finditer(t):
            try:
                v = float(m.group(1).replace("_", ""))
            except ValueError:
                continue
            out[v] = out.get(v, 0) + 1
    return out


def new_literals():
    base = V / "literals.txt"
    if not base.exists():
        return []
    old = {}
    for l in base.read_text().split("\n"):
        if l.strip():
            v, n = l.split()
            old[float(v)] = int(n)
    # a number seen more often than before counts as new too; round numbers are everywhere
    return sorted(v for v, n in numbers().items() if n > old.get(v, 0) and v != 0)


# ---- stages -------------------------------------------------------------------------------------

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.lits = new_literals()
        self.tmp = B / "run" / pid
        self.tmp.mkdir(parents=True, exist_ok=True)

    def vhenv(self, **kw):
        return env(VH_LITERALS=",".join(repr(v) for v in self.lits), **kw)


def held(stage, **kw):
    return dict(stage=stage, status="held", **kw)


def bad(stage, what, **kw):
    return dict(stage=stage, status="violated", what=what, **kw)


def san_report(err):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer: data race[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: ThreadSanitizer: (?!CHECK)[^\n]*|runtime error: [^\n]*)", err)
    return m.group(1) if m else None


def vh(c, which="rel", scale=1.0, wall=None, pid=None, threads=None, extra=None, name=None):
    pid = pid or c.pid
    name = name or f"{pid} workload, build '{which}'"
    bindir = build(which)
    js, crumb = c.tmp / f"{which}-{pid}.json", c.tmp / f"{which}-{pid}.crumb"
    for p in (js, crumb):
        if p.exists():
            p.unlink()
    wall = wall or (400 if c.tier == "quick" else 2400)
    args = [pid, "--seed", c.seed, "--tier", c.tier, "--scale", scale]
    cmd = [bindir / "vh"] + args + ["--wall", wall, "--json", js, "--crumb", crumb]
    if threads:
        cmd += ["--threads", threads]
    r = sh(cmd, wall + 200, c.vhenv(**(extra or {})))
    rep = json.loads(js.read_text()) if js.exists() else None
    replay = dict(build=which, args=[str(a) for a in args], literals=c.lits, env=extra or {})
    if which in ("asan", "tsan"):
        s = san_report(r.stderr)
        if s:
            return bad(name, f"sanitizer report: {s}", replay=replay, log=r.stderr[:6000], observed=rep)
    if r.returncode < 0:
        sig = -r.returncode
        if sig not in CRASH:
            raise Stop(f"{name}: ended by signal {sig}")
        live = []
        if crumb.exists():
            data = crumb.read_bytes()
            live = [int.from_bytes(data[i:i + 8], "little") - 1 for i in range(0, len(data), 8)]
            live = [k for k in live if k >= 0]
        culprit = None
        for k in live:
            q = sh([bindir / "vh"] + args + ["--only", k, "--json", c.tmp / "only.json"], 300, c.vhenv(**(extra or {})))
            if q.returncode < 0 and -q.returncode in CRASH:
                culprit = k
                break
        replay["case"] = culprit
        last = [l for l in r.stderr.strip().split("\n") if l.strip()][:3]
        return bad(name, f"the process died of {signal.Signals(sig).name} in case {culprit if culprit is not None else live}: {' | '.join(last)[:400]}", replay=replay, log=r.stderr[:6000])
    if rep is None:
        raise Stop(f"{name}: no report (exit {r.returncode})\n{r.stderr[-2000:]}")
    if r.returncode == 1:
        b = rep["bad"]
        replay["case"] = b["case"]
        return bad(name, f"case {b['case']}: {b['what']}", replay=replay, observed={k: v for k, v in rep.items() if k != "bad"})
    if r.returncode != 0:
        raise Stop(f"{name}: exit {r.returncode}: {rep.get('bad')} {r.stderr[-2000:]}")
    return held(name, observed=rep)


def miri(c, mode, n, thorough_n):
    name = f"Miri, small workload {mode}"
    d = B / "miri"
    d.mkdir(parents=True, exist_ok=True)
    e = env(CARGO_TARGET_DIR=d, MIRIFLAGS="-Zmiri-deterministic-floats")
    forget(d)
    k = n if c.tier == "quick" else thorough_n
    r = sh(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--manifest-path", V / "harness/Cargo.toml", "--bin", "mini", "--", mode, c.seed, k], 800 if c.tier == "quick" else 3000, e)
    out = r.stdout + r.stderr
    replay = dict(miri=[mode, c.seed, k])
    if r.returncode == 0 and "MINI-OK" in r.stdout:
        fresh(r, name)
        return held(name, observed=dict(line=re.search(r"MINI-OK[^\n]*", r.stdout).group(0)))
    m = re.search(r"(error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: abnormal termination[^\n]*|error: deadlock[^\n]*|BAD [^\n]*)", out)
    if m:
        return bad(name, m.group(1), replay=replay, log=out[-5000:])
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", out)
    if m and ("/repo/src" in m.group(1) or "mini.rs" in m.group(1)):
        return bad(name, f"panic at {m.group(1)} {m.group(2)}", replay=replay, log=out[-5000:])
    raise Stop(f"{name}: exit {r.returncode}\n{out[-3000:]}")


def nulls(c):
    """Each call with a null handle, each in its own process, in the optimised build."""
    name = "null handles"
    d = build("rel")
    seen = {}
    for k in range(28):
        r = sh([d / "vh", "null", k], 60, env())
        fn = ("aga8_" if k < 14 else "gerg_") + f"#{k % 14}"
        free = k % 14 in (0, 13)
        if r.returncode == 0 and "returned" in r.stdout:
            seen["returned"] = seen.get("returned", 0) + 1
        elif (r.returncode < 0 and -r.returncode in (signal.SIGABRT, signal.SIGILL, signal.SIGTRAP)) or (r.returncode == 101 and "panicked at /repo/src" in r.stderr):
            if free:
                return bad(name, f"freeing a null handle ended the process ({fn}, signal {-r.returncode})", replay=dict(null=k), log=r.stderr[:2000])
            seen["stopped"] = seen.get("stopped", 0) + 1
        elif r.returncode < 0 and -r.returncode in CRASH:
            return bad(name, f"a null handle was used as if it were valid: call {k} died of {signal.Signals(-r.returncode).name}", replay=dict(null=k), log=r.stderr[:2000])
        else:
            raise Stop(f"{name}: call {k} exit {r.returncode} {r.stdout[:200]} {r.stderr[:300]}")
    return held(name, observed=seen)


CCS = [("gcc", ["-std=c99"]), ("clang", ["-std=c99"]), ("gcc", ["-std=c17"]), ("g++", ["-std=c++17"]), ("clang++", ["-std=c++17"])]


def num(h):
    import struct
    return struct.unpack(">d", bytes.fromhex(h))[0]


def close(a, b):
    x, y = num(a), num(b)
    if x == y or (x != x and y != y):
        return True
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-12


def run_script(exe, script, label, e=None):
    """Feed the commands to a C program and compare its answers. Returns (problem or None, compared)."""
    cmds, want = [], []
    for l in script.split("\n"):
        if l[:1] in "=~" and l:
            want.append(l)
        elif l:
            cmds.append(l)
    r = sh([exe], 300, e or env(), stdin="\n".join(cmds) + "\n")
    s = san_report(r.stderr)
    if s:
        return f"{label}: {s}", 0, r.stderr[:5000]
    if r.returncode < 0 and -r.returncode in CRASH:
        return f"{label}: died of {signal.Signals(-r.returncode).name}", 0, r.stderr[:3000]
    lines = [l for l in r.stdout.split("\n") if l]
    if r.returncode == 41:
        return f"{label}: {lines[-1]}", 0, ""
    if r.returncode != 0 or not lines or lines[-1] != "END":
        raise Stop(f"{label}: exit {r.returncode} {r.stderr[-1000:]}")
    lines.pop()
    if len(lines) != len(want):
        raise Stop(f"{label}: {len(lines)} answers to {len(want)} questions")
    n = 0
    for got, w in zip(lines, want):
        g, x = got.split(), w[1:].split()
        ok = g == x if w[0] == "=" else len(g) == len(x) and g[0] == x[0] and all(close(p, q) for p, q in zip(g[1:], x[1:]))
        n += max(1, len(x) - 1)
        if not ok:
            show = lambda t: " ".join(repr(num(v)) if len(v) == 16 else v for v in t)
            return f"{label}: the C program got [{show(g)}], the Rust interface gives [{show(x)}]", n, ""
    return None, n, ""


def abi(c):
    name = "C programs through the generated header"
    w = c.tmp
    # is the C toolchain itself in order?
    for cc, fl in CCS:
        r = sh([cc] + fl + ["-x", "c++" if "++" in cc else "c", V / "abi/sane.c", "-o", w / "sane"], 120)
        if r.returncode != 0 or sh([w / "sane"], 20).stdout != "sane\n":
            raise Stop(f"{cc} does not work here: {r.stderr[:500]}")
    real, rel = build_real(), build("rel")
    seen = dict(compilers=0, layout_facts=0, answers_compared=0, symbols=0, programs=0)
    inc = ["-I", real]
    libs = ["-lm", "-lpthread", "-ldl"]
    st, so = real / "release/libaga8.a", real / "release/libaga8.so"
    # exported symbols
    head = (real / "aga8.h").read_text()
    decl = set(re.findall(r"\b((?:aga8|gerg)_[a-z_]+)\s*\(", head))
    nm = set(re.findall(r" T ((?:aga8|gerg)_\w+)", sh(["nm", "-D", "--defined-only", so], 60).stdout))
    if decl != nm:
        return bad(name, f"the header and the shared library disagree on what exists: only in the header {sorted(decl - nm)}, only in the library {sorted(nm - decl)}", replay=dict(abi=c.seed))
    seen["symbols"] = len(decl)
    layout = sh([rel / "vh", "layout"], 30).stdout
    cases = 60 if c.tier == "quick" else 600
    script = sh([rel / "vh", "abi", c.seed, cases], 300).stdout
    if "=c" not in script:
        raise Stop("no script")
    sample = script[:0]
    for cc, fl in CCS:
        lang = ["-x", "c++" if "++" in cc else "c"]
        for src in ("layout", "driver"):
            r = sh([cc] + fl + ["-Wall", "-O1"] + inc + lang + [V / f"abi/{src}.c", "-x", "none", st, "-o", w / f"{src}-a"] + libs, 300)
            if r.returncode != 0:
                return bad(name, f"a program using the generated header does not build with {cc} {fl[0]}: " + "; ".join(l for l in r.stderr.split("\n") if "error" in l or "undefined" in l)[:600], replay=dict(abi=c.seed), log=r.stderr[:5000])
            seen["programs"] += 1
        got = sh([w / "layout-a"], 30).stdout
        for a, b in zip(got.split("\n"), layout.split("\n")):
            if a != b:
                return bad(name, f"layout of the header ({cc}): {a}; of the library: {b}", replay=dict(abi=c.seed))
            seen["layout_facts"] += 1
        p, n, log = run_script(w / "driver-a", script, f"{cc} {fl[0]}, static library")
        if p:
            return bad(name, p, replay=dict(abi=c.seed), log=log)
        seen["answers_compared"] += n
        seen["compilers"] += 1
    # shared library, unoptimised and optimised
    for cc, fl in (("gcc", ["-O0"]), ("clang", ["-O2"])):
        r = sh([cc] + fl + inc + [V / "abi/driver.c", so, "-o", w / "driver-so", f"-Wl,-rpath,{so.parent}"] + libs, 300)
        if r.returncode != 0:
            return bad(name, f"linking against the shared library fails: {r.stderr[:600]}", replay=dict(abi=c.seed))
        p, n, log = run_script(w / "driver-so", script, f"{cc}, shared library")
        if p:
            return bad(name, p, replay=dict(abi=c.seed), log=log)
        seen["answers_compared"] += n
        seen["programs"] += 1
    # AddressSanitizer and UBSan on the C side
    for cc in ("gcc", "clang"):
        r = sh([cc, "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + inc + [V / "abi/driver.c", st, "-o", w / "driver-san"] + libs, 300)
        if r.returncode != 0:
            raise Stop(f"sanitizer build of the C program failed: {r.stderr[:600]}")
        p, n, log = run_script(w / "driver-san", script, f"{cc} with ASan and UBSan", env(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1"))
        if p:
            return bad(name, p, replay=dict(abi=c.seed), log=log)
        seen["answers_compared"] += n
        seen["programs"] += 1
    sample = [l for l in script.split("\n") if l[:1] in "=~"][:4]
    cmds = {l for l in script.split("\n") if l and l[0] not in "=~"}
    return held(name, observed=dict(evaluations=seen["answers_compared"] + seen["layout_facts"], distinct_nontrivial=len(cmds) + seen["layout_facts"] // len(CCS),
                rule="one script of calls, run by C and C++ programs built by five compiler settings against the static and the shared library; every answer compared with the Rust interface; distinct commands with distinct arguments, plus layout facts",
                samples=sample, observed=seen))


def parse_trace(t):
    for l in t.split("\n"):
        if l:
            f = l.split(" ")
            yield f[0], f[1], [x.split("=", 1) for x in f[2:] if x]


def unlike(ref, got, label):
    """Compares two traces of the same calls: (what differs, values compared, largest difference, calls)."""
    if len(got) != len(ref):
        raise Stop(f"trace {label} has {len(got)} lines, not {len(ref)}")
    compared, calls, worst = 0, set(), (0.0, "")
    for (k, op, v), (k0, op0, v0) in zip(got, ref):
        if (k, op) != (k0, op0):
            raise Stop(f"traces do not line up: {k} {op} / {k0} {op0}")
        o, o0 = {a: float(z) for a, z in v}, {a: float(z) for a, z in v0}
        big = 1.0 + 8.3 * 700.0
        for a in o0:
            x, y = o[a], o0[a]
            compared += 1
            if x == y or (x != x and y != y):
                continue
            scale = max(abs(x), abs(y), {"u": big, "h": big, "g": big, "s": 10.0, "jt": 1e-3, "d2p_dd2": 1.0}.get(a, 0.0))
            dev = abs(x - y) / scale if scale else 0.0
            # 'd' dilute: the Joule-Thomson coefficient is a difference of nearly equal numbers;
            # 'w' anywhere: so is everything near a spinodal; 'h' not numbers: only the outcome counts
            if k[-1] == "d" and a == "jt" and (x < 1e19) == (y < 1e19):
                continue
            if k[-1] in "wh" and a not in ("result", "density() result"):
                if math.isfinite(x) == math.isfinite(y) and (dev <= 1e-3 or k[-1] == "h" or a not in ("pressure()", "pressure of properties()", "mm", "u", "h", "s", "g")):
                    continue
                dev = math.inf
            if dev > worst[0]:
                worst = (dev, f"{a} {label} at step {k}")
            if not dev <= 1e-10:
                return f"{a} is {y!r} in build 'rel' and {x!r} {label}, step {k}, after {op}", compared, worst, calls
        calls.add(op)
    return None, compared, worst, calls


def profiles(c):
    """The same calls in differently built libraries."""
    names = ["rel", "dev", "checked", "ship", "plain", "abort"]
    if {"avx2", "fma", "bmi2"} <= set(Path("/proc/cpuinfo").read_text().split()):
        names.append("v3")
    name = f"the same calls in {len(names)} builds"
    n = 4000 if c.tier == "quick" else 60_000
    ref, compared, calls, worst = None, 0, set(), (0.0, "")
    for b in names:
        d = build(b)
        r = sh([d / "vh", "trace", c.seed, 0, n], 900, c.vhenv())
        if r.returncode != 0:
            if (r.returncode < 0 and -r.returncode in CRASH) or "/repo/src" in r.stderr:
                return bad(name, f"build '{b}' fails where others do not: {r.stderr[:500]}", replay=dict(trace=[b, c.seed, n]), log=r.stderr[:3000])
            raise Stop(f"trace of build '{b}': exit {r.returncode} {r.stderr[-800:]}")
        got = list(parse_trace(r.stdout))
        if ref is None:
            ref = got
            continue
        p, k, w, done = unlike(ref, got, f"in build '{b}'")
        if p:
            return bad(name, p, replay=dict(trace=[b, c.seed, n]))
        compared, worst, calls = compared + k, max(worst, w), calls | done
    return held(name, observed=dict(evaluations=compared, distinct_nontrivial=len(calls), rule="values compared between builds (release, dev, release with debug assertions and overflow checks, the shipped profile, without the C interface, with panics that abort, and for newer processors); distinct calls with distinct arguments",
                samples=[f"{a} {b} {d[:3]}" for a, b, d in ref[5:8]], observed=dict(builds=names, lines_per_build=len(ref), largest_relative_difference=f"{worst[0]:.2e} {worst[1]}")))


TARGETS = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"], ["aarch64-unknown-linux-gnu", "x86_64-pc-windows-gnu"]


def targets(c):
    """The same calls in the library built for other processors and systems, run by Miri."""
    quick = c.tier == "quick"
    which, pieces, each = (TARGETS[0], 4, 2) if quick else (TARGETS[0] + TARGETS[1], 4, 10)
    name = "the same calls on other processors, in Miri"
    native = build("rel") / "vh"
    compared, calls, worst, lines = 0, set(), (0.0, ""), 0
    todo, refs = [], {}
    for k in range(pieces):
        r = sh([native, "trace", c.seed, 1000 + k * each, each], 300, c.vhenv())
        if r.returncode != 0:
            raise Stop(f"native trace: exit {r.returncode} {r.stderr[-500:]}")
        refs[k] = list(parse_trace(r.stdout))

    def run(t, start, n):
        e = c.vhenv()
        e.update(CARGO_TARGET_DIR=str(B / "miri-targets"), MIRIFLAGS="-Zmiri-deterministic-floats -Zmiri-env-forward=VH_LITERALS")
        return sh(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--manifest-path", V / "harness/Cargo.toml", "--bin", "vh", "--target", t, "--", "trace", c.seed, start, n], 800 if quick else 3000, e)

    (B / "miri-targets").mkdir(parents=True, exist_ok=True)
    forget(B / "miri-targets")
    for t in which:
        r = run(t, 0, 0)
        if r.returncode != 0:
            raise Stop(f"build for {t}: {r.stderr[-1500:]}")
        fresh(r, t)
        todo += [(t, k) for k in range(pieces)]
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        done = list(pool.map(lambda j: run(j[0], 1000 + j[1] * each, each), todo))
    for (t, k), r in zip(todo, done):
        replay = dict(target=[t, c.seed, 1000 + k * each, each])
        if r.returncode != 0:
            m = re.search(r"(error: Undefined Behavior[^\n]*|error: abnormal termination[^\n]*|panicked at /repo/src[^\n]*)", r.stderr)
            if m:
                return bad(name, f"{t}: {m.group(1)}", replay=replay, log=r.stderr[-5000:])
            raise Stop(f"trace for {t}: exit {r.returncode} {r.stderr[-1500:]}")
        p, n, w, seen = unlike(refs[k], list(parse_trace(r.stdout)), f"on {t}")
        if p:
            return bad(name, p, replay=replay)
        compared, worst, calls, lines = compared + n, max(worst, w), calls | seen, lines + len(refs[k])
    return held(name, observed=dict(evaluations=compared, distinct_nontrivial=len(calls), rule="values compared between the library on this processor and on others (32-bit, big-endian" + ("" if quick else ", ARM, Windows") + "), interpreted by Miri, which also watches for undefined behaviour there; distinct calls with distinct arguments",
                samples=[f"{a} {b} {d[:3]}" for a, b, d in refs[0][5:8]], observed=dict(targets=which, lines=lines, largest_relative_difference=f"{worst[0]:.2e} {worst[1]}")))


def worlds(c):
    """The same cases in different processes, orders and surroundings: the same answers."""
    name = "the same cases in different processes"
    n, single = (20_000, 64) if c.tier == "quick" else (200_000, 1200)
    exe = build("rel") / "vh"
    words = set()
    for p in sorted((REPO / "src").rglob("*.rs")):
        words |= set(re.findall(r'"([A-Za-z_]\w{2,60})"', p.read_text(errors="replace")))
    words = {w for w in words if not w.startswith(("LD_", "MALLOC", "GLIBC"))}
    away = c.tmp / "away"
    away.mkdir(exist_ok=True)
    base = c.vhenv()
    few = {k: base[k] for k in ("VH_LITERALS",)}

    def lone():
        os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})

    def fixed():
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)  # no address randomisation, where that is allowed

    def narrow():
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (32, 32))
        os.nice(5)

    copy = away / "another-name"
    shutil.copy(exe, copy)
    W = [
        ("in order", "fwd", {}),
        ("in reverse order", "rev", {}),
        ("shuffled over eight threads", "mix", {}),
        ("in order, in another language and time zone, in another directory", "fwd", dict(env={**few, "LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8", "TZ": "Asia/Kolkata", "HOME": str(away), "PATH": "/nowhere", "TMPDIR": str(away)}, cwd=away)),
        ("in order, with no environment", "fwd", dict(env=few)),
        ("in order, on one processor", "fwd", dict(preexec_fn=lone)),
        ("in order, at fixed addresses", "fwd", dict(preexec_fn=fixed)),
        ("in order, with memory filled", "fwd", dict(env={**base, "MALLOC_PERTURB_": "165", "MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "33554432"})),
        ("in reverse order, with few files, another name and a lower priority", "rev", dict(preexec_fn=narrow, exe=copy)),
    ] + [(f"in order, with the environment variables the source mentions, {v}", "fwd", dict(env={**base, **{w: v for w in words}, "RUST_LOG": "trace", "RUST_BACKTRACE": "full", "DEBUG": v, "CI": v, "NO_COLOR": v, "TERM": "dumb", "RAYON_NUM_THREADS": "3", "OMP_NUM_THREADS": "3"})) for v in ("1", "0", "true")]

    def go(how, at, k, exe=exe, **kw):
        try:
            r = subprocess.run([str(exe), "cases", str(c.seed), how, str(at), str(k)], capture_output=True, text=True, errors="replace", timeout=600, stdin=subprocess.DEVNULL, **{"env": base, **kw})
        except subprocess.TimeoutExpired:
            raise Stop(f"{name}: timed out")
        if r.returncode < 0 and -r.returncode in CRASH or r.returncode == 101:
            return None, r.stderr[:600]
        if r.returncode != 0 or r.stdout.count("\n") != k:
            raise Stop(f"{name}: exit {r.returncode} {r.stderr[:600]}")
        return r.stdout.split("\n")[:-1], ""

    ref, compared = None, 0
    rep = dict(world=[c.seed, n])
    for what, how, kw in W:
        got, err = go(how, 0, n, **kw)
        if got is None:
            return bad(name, f"{what}: the process died: {err}", replay=rep)
        ref = ref or got
        compared += n
        for a, b in zip(ref, got):
            if a != b:
                return bad(name, f"case {a.split()[0]}, {what}: hash and first values {b.split()[1:]}, but {a.split()[1:]} in order in an ordinary process ({sum(x != y for x, y in zip(ref, got))} of {n} cases differ)", replay=rep)
    for j in range(single):
        k = j * n // single + j % 2
        got, err = go("fwd", k, 1)
        if got is None:
            return bad(name, f"case {k} alone: the process died: {err}", replay=rep)
        compared += 1
        if got[0] != ref[k]:
            return bad(name, f"case {k}: hash and first values {got[0].split()[1:]} in a process of its own, {ref[k].split()[1:]} after other cases", replay=rep)
    return held(name, observed=dict(evaluations=compared, distinct_nontrivial=len({l.split(" ", 1)[1] for l in ref}), rule="whole histories of calls (both interfaces) hashed over everything visible after each call, compared between processes; distinct by hash",
                samples=ref[:4], observed=dict(cases=n, processes=len(W) + single, surroundings=[w for w, _, _ in W], environment_variables_set=sorted(words)[:20])))


STAGES = {
    "C09": [lambda c: vh(c), lambda c: vh(c, "tsan", 0.1 if c.tier == "quick" else 0.2, extra={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, name="C09 workload under ThreadSanitizer"), lambda c: miri(c, 9, 2, 40)],
    "C16": [lambda c: vh(c), nulls, lambda c: vh(c, "asan", 0.2, extra={"ASAN_OPTIONS": "detect_leaks=0:exitcode=66"}, name="C16 workload under AddressSanitizer, overflow checks and debug assertions"), lambda c: miri(c, 16, 2, 40)],
    "C17": [abi],
    "C18": [lambda c: vh(c), lambda c: vh(c, "checked", 0.3, name="C18 workload with overflow checks and debug assertions"), lambda c: vh(c, "asan", 0.1, extra={"ASAN_OPTIONS": "detect_leaks=0:exitcode=66"}, name="C18 workload under AddressSanitizer"), lambda c: miri(c, 18, 3, 60)],
    "C19": [profiles, targets],
    "C29": [lambda c: vh(c), lambda c: vh(c, "tsan", 0.1 if c.tier == "quick" else 0.2, extra={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, name="C29 workload under ThreadSanitizer"), lambda c: miri(c, 29, 1, 20)],
    "C32": [worlds],
}
IDS = [f"C{i:02d}" for i in range(1, 36)]


def known(pid):
    f = V / "KNOWN_FINDINGS.txt"
    for l in f.read_text().split("\n") if f.exists() else []:
        m = re.match(r"finding: property=(\w+) (.*)", l)
        if m and m.group(1) == pid:
            print(f"KNOWN-FINDING: property={pid} {m.group(2)}")


def trim(o, n=700):
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + "..."
    if isinstance(o, list):
        return [trim(v, n) for v in o[:12]]
    if isinstance(o, dict):
        return {k: trim(v, n) for k, v in list(o.items())[:80]}
    return o


def run(pid, tier, seed):
    c = Ctx(pid, tier, seed)
    known(pid)
    res = []
    for s in STAGES.get(pid, [lambda c: vh(c)]):
        t = time.time()
        r = s(c)
        r["wall_s"] = round(time.time() - t, 2)
        res.append(r)
        print(f"[{pid}] {r['stage']}: {r['status']} ({r['wall_s']} s)")
        if r["status"] == "violated":
            break
    main = res[0].get("observed") or {}
    vio = [r for r in res if r["status"] == "violated"]
    cov = dict(
        evaluations=int(main.get("evaluations", 0)),
        distinct_nontrivial=int(main.get("distinct_nontrivial", 0)),
        rule=main.get("rule", "see stages"),
        samples=trim(main.get("samples") or [res[0].get("what", "none")], 500),
        stages=[trim({k: v for k, v in r.items() if k not in ("log", "replay")} if i else {k: v for k, v in r.items() if k not in ("log", "replay", "observed")}) for i, r in enumerate(res)],
        observed=trim(main.get("observed", {})),
        largest_deviation=trim(main.get("largest_deviation", {}), 260),
        new_literals_fed_to_generators=len(c.lits),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - T0, 2), violations=len(vio),
              assumptions=["the executions of this run only", "the reference equations and tables in /verif/harness are right (DESIGN.md says how they were checked)"])
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1)[:60000] if len(json.dumps(ev)) < 58000 else json.dumps({**ev, "coverage": {k: cov[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")}}))
    if vio:
        r = vio[0]
        (V / "replays").mkdir(exist_ok=True)
        f = V / "replays" / f"{pid}.json"
        f.write_text(json.dumps(dict(property=pid, tier=tier, seed=seed, stage=r["stage"], what=r["what"], replay=r.get("replay"), log=r.get("log")), indent=1))
        print(f"[{pid}] {r['what'][:1500]}")
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    return 0


def replay(path):
    j = json.loads(Path(path).read_text())
    p, pid = j["replay"] or {}, j["property"]
    print(f"{pid} ({j['stage']}): {j['what']}")
    if "args" in p:
        d = build(p["build"])
        cmd = [str(d / "vh")] + p["args"] + (["--only", str(p["case"])] if p.get("case") is not None else [])
        e = env(VH_LITERALS=",".join(map(repr, p.get("literals", []))), **p.get("env", {}))
        print("$ " + " ".join(cmd))
        return 1 if subprocess.run(cmd, env=e).returncode else 0
    if "target" in p:
        t, seed, start, n = map(str, p["target"])
        print(f"$ cargo +nightly miri run --manifest-path {V}/harness/Cargo.toml --bin vh --target {t} -- trace {seed} {start} {n}   # and compare with the native build")
    if "null" in p:
        return 1 if subprocess.run([build("rel") / "vh", "null", str(p["null"])]).returncode else 0
    return run(pid, j["tier"], j["seed"])


def setup():
    t = time.time()
    for b in BUILDS:
        build(b)
        print(f"built {b} ({time.time() - t:.0f} s)", flush=True)
    build_real()
    c = Ctx("setup", "quick", 1)
    print(miri(c, 18, 1, 1)["status"], f"miri ({time.time() - t:.0f} s)")
    return 0


def main(a):
    tier, seed = os.environ.get("VERIF_TIER") or "quick", int(os.environ.get("VERIF_SEED") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    try:
        if "--setup" in a:
            return setup()
        if "--replay" in a:
            return replay(a[a.index("--replay") + 1])
        if "--literals" in a:
            (V / "literals.txt").write_text("".join(f"{v!r} {n}\n" for v, n in sorted(numbers().items())))
            return 0
        if a[0] not in IDS:
            raise Stop(f"unknown property {a[0]}")
        return run(a[0], tier, seed)
    except Stop as e:
        print(f"NO VERDICT: {e}", file=sys.stderr)
        return 4


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
