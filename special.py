"""Checks that need more than one build: C16 to C19."""
import json
import os
import re
import signal
import threading
from concurrent.futures import ThreadPoolExecutor

import forms
import gen
import vlib
from vlib import Build, Check, HARNESS, LIBS, NoAnswer, WORK, monitor, program, sh, sub_seed

FULL = ["std", "cgmath", "glam", "nalgebra"]
X64, I686, S390X = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"
# Other instruction sets, systems, and the mixed cases of width and order.
OTHERS = ["aarch64-apple-darwin", "x86_64-pc-windows-gnu", "powerpc-unknown-linux-gnu", "arm-unknown-linux-gnueabi", "riscv64gc-unknown-linux-gnu"]
MIRI_TARGET = os.path.join(WORK, "miri")


def run(prop, tier, seed):
    return {"C16": c16, "C17": c17, "C18": c18, "C19": c19}[prop](tier, seed)


def add(c, rep, label):
    c.evaluations += rep["evaluations"]
    c.distinct += rep["distinct"]
    for k, v in rep["counters"].items():
        c.counters[k] = c.counters.get(k, 0) + v
    c.samples += [f"[{label}] {s}" for s in rep["samples"][:2]]
    c.runs.append({"run": label, "evaluations": rep["evaluations"], "distinct": rep["distinct"], "ended_s": round(-c.left(0))})


# Miri ----------------------------------------------------------------------

# As in an optimised build, nothing stops what an assertion would.
NO_ASSERTS = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}


class Miri:
    """An interpreter of the monitors on one target."""

    def __init__(self, name, triple, features, seed, flags="", asserts=True):
        libs = ("mint",) + tuple(f for f in features if f != "std")
        self.name, self.triple, self.flags, self.features = name, triple, flags, features
        self.build = Build("miri-" + name, [gen.small(seed, libs), [], [], []], features, more=None if asserts else NO_ASSERTS)
        self.target = os.path.join(MIRI_TARGET, name)

    def env(self):
        e = self.build.gen_env()
        e["CARGO_TARGET_DIR"] = self.target
        e["XDG_CACHE_HOME"] = os.path.join(WORK, "cache")
        e["MIRIFLAGS"] = self.flags
        return e

    def cmd(self, args):
        return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                "-p", "harness", "--features", ",".join(self.features), "--target", self.triple, "--"] + args

    def setup(self):
        return sh(["cargo", "+nightly", "miri", "setup", "--target", self.triple], 900, cwd=WORK,
                  XDG_CACHE_HOME=os.path.join(WORK, "cache"))

    def run(self, args, timeout, fresh=True):
        if fresh:
            vlib.stale(self.target)
        return sh(self.cmd(args), timeout, cwd=WORK, **self.env())


def undefined(err):
    """The first report of undefined behaviour in Miri's output."""
    m = re.search(r"error: Undefined Behavior: (.*)", err) or re.search(r"error: (Data race.*)", err)
    if m:
        at = re.search(r"-->\s*(\S+)", err[m.start():])
        return m.group(1).strip(), at.group(1) if at else "?", err[m.start():][:3500]
    m = re.search(r"error: (memory leaked|abnormal termination|.*deallocat.*)", err)
    return None


def report(out):
    for line in reversed(out.splitlines()):
        if line.startswith("{"):
            return json.loads(line)


def c17(tier, seed):
    c = Check("C17", tier, seed, "exploration",
              "the monitors' workloads (encode, decode, threads, writers, slices, faults, GLSL) run under Miri, AddressSanitizer, MemorySanitizer, "
              "ThreadSanitizer and valgrind's memcheck; any report is a violation; distinct: distinct cases the monitors executed under them, as in C03 to C15")
    vlib.stale(os.path.join(HARNESS, "target"))
    for n in NATIVE:
        vlib.stale(os.path.join(WORK, n))
    seeds = [sub_seed(seed, i) for i in range(4 if c.thorough else 1)]
    limit = 2400 if c.thorough else 700
    for i, s in enumerate(seeds):
        if i and c.left(4800) < 1500:
            break
        stacked = Miri("sb", X64, ["std", "cgmath", "glam"], s, f"-Zmiri-seed={s % 1000}")
        tree = Miri("tb", X64, FULL, s + 1, f"-Zmiri-tree-borrows -Zmiri-seed={s % 1000}", asserts=False)
        i686 = Miri("i686-plain", I686, ["std"], s + 2, "-Zmiri-symbolic-alignment-check", asserts=False)
        s390 = Miri("s390x", S390X, ["std"], s + 3, "-Zmiri-symbolic-alignment-check")
        jobs = [(stacked, "UB1", s), (stacked, "UB2", s + 3), (stacked, "UB3", s + 5), (tree, "UB2", s + 1), (i686, "UB2", s + 2), (s390, "UB2", s + 4)]
        if c.thorough:
            jobs += [(tree, "UB1", s + 6), (tree, "UB3", s + 7), (i686, "UB1", s + 8), (i686, "UB3", s + 9), (s390, "UB1", s + 8), (s390, "UB3", s + 9)]
        if c.thorough:
            jobs += [(stacked, "UB2", s + k) for k in range(10, 14)]
        for m in (stacked, tree, i686, s390):
            vlib.stale(m.target)
        # Each interpreter is built by its first job; the others wait for cargo.
        with ThreadPoolExecutor(7) as ex:
            timed = lambda m, p, k: m.run(["monitor", p, str(k), "0", "-"], limit if c.thorough else max(c.left(ENOUGH), 1), False)
            runs = [(m, p, k, ex.submit(timed, m, p, k)) for m, p, k in jobs]
            native = ex.submit(natives, c, s)
        done = 0
        for m, p, k, f in runs:
            code, out, err = f.result()
            label = f"miri {m.name} {p} part {k % 10}"
            ub = undefined(err)
            if ub:
                c.viol(f"miri: {ub[0]} at {ub[1]}", f"{label}: {ub[2]}", run=label)
                continue
            if code is None:
                cut(c, label)
                continue
            rep = report(out)
            if code != 0 or rep is None:
                raise NoAnswer(f"{label}: {vlib.died(code)}: {err[-2500:]}")
            done += 1
            if rep["harness_errors"]:
                raise NoAnswer(f"{label}: {rep['harness_errors']}")
            add(c, rep, label)
            c.counters["interpreted runs"] = c.counters.get("interpreted runs", 0) + 1
        native.result()
        if not done:
            raise NoAnswer("no interpreted run came to its end in time")
    return c


# The quick check stops here, whatever has not ended.
ENOUGH = 790


def cut(c, label):
    """A run that had to stop before its end; nothing was reported by then."""
    c.counters["runs cut short"] = c.counters.get("runs cut short", 0) + 1
    c.runs.append({"run": label, "evaluations": 0, "distinct": 0, "cut": round(c.left(0) * -1)})


NATIVE = {
    "asan": dict(rustflags="-Zsanitizer=address", words="AddressSanitizer|LeakSanitizer",
                 options="abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:detect_leaks=1"),
    "tsan": dict(rustflags="-Zsanitizer=thread", words="ThreadSanitizer", options="exitcode=99:halt_on_error=1"),
    "msan": dict(rustflags="-Zsanitizer=memory", words="MemorySanitizer", options="exitcode=99"),
}


def sanitized(name, seed, timeout=1500):
    more = dict(NO_ASSERTS)
    if name != "asan":
        # These must see what the standard library does.
        more["CARGO_UNSTABLE_BUILD_STD"] = "std,panic_unwind"
    return Build(name, program(seed), FULL, cargo=("cargo", "+nightly", "--config", "profile.dev.package.mon.opt-level=1"),
                 target=os.path.join(WORK, name), rustflags=NATIVE[name]["rustflags"], triple=X64, timeout=timeout, more=more)


def natives(c, seed):
    """The native sanitizers."""
    lock = threading.Lock()
    limit = lambda: 1500 if c.thorough else max(c.left(ENOUGH), 1)

    def sanitizer(name):
        o, b = NATIVE[name], sanitized(name, seed, limit())
        try:
            b.build(fresh=False)
        except NoAnswer:
            if limit() > 1:
                raise
            with lock:
                cut(c, f"{name} build")
            return
        for p in ("UB4",) if name == "tsan" else ("UB1", "UB2", "UB3"):
            label = f"{name} {p} {seed}"
            code, out, err = twice([b.path, "monitor", p, str(seed), "4" if c.thorough else "1", "-"], limit(), RUST_MIN_STACK="67108864",
                                   **{name.upper() + "_OPTIONS": o["options"]})
            m = re.search(rf"(?:ERROR|WARNING): (?:{o['words']}): ([^\n(]*)", err)
            with lock:
                if m:
                    at = re.search(r"/src/(\S+\.rs:\d+)", err[m.start():])
                    c.viol(f"{name}: {m.group(1).split(' 0x')[0].strip()} {at.group(1) if at else ''}", f"{label}: {err[m.start():][:3500]}", run=label)
                else:
                    ended(c, label, code, out, err)

    def memcheck():
        mem = Build("memcheck", program(seed), FULL)
        mem.build(fresh=False)
        for p in ("UB1", "UB2", "UB3"):
            label = f"memcheck {p} {seed}"
            code, out, err = twice(["valgrind", "--error-exitcode=99", "--leak-check=no", "-q", "--num-callers=30", mem.path, "monitor", p, str(seed), "0", "-"], limit())
            with lock:
                if code == 99:
                    m = re.search(r"==\d+== (.*)", err)
                    c.viol(f"memcheck: {m.group(1) if m else '?'}", f"{label}: {err[:3500]}", run=label)
                else:
                    ended(c, label, code, out, err)

    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(sanitizer, n) for n in ("msan", "tsan", "asan")] + [ex.submit(memcheck)]:
            f.result()


def twice(cmd, timeout, **extra):
    """Runs a sanitized program, again if it stopped without a report: a thread
    the machine had no room for is no answer of the code's."""
    code, out, err = sh(cmd, timeout, cwd=WORK, **extra)
    if code == 101:
        code, out, err = sh(cmd, timeout, cwd=WORK, **extra)
    return code, out, err


def ended(c, label, code, out, err):
    if code is None and not c.thorough:
        cut(c, label)
        return
    if code is None or code in (-signal.SIGKILL, -signal.SIGTERM):
        raise NoAnswer(f"{label}: {'no answer' if code is None else vlib.died(code)}")
    if code < 0:
        c.viol(f"crash {label.split()[0]}", f"{label}: {vlib.died(code)}: {err[-2000:]}", run=label)
        return
    rep = report(out)
    if code != 0 or rep is None or rep["harness_errors"]:
        raise NoAnswer(f"{label}: {vlib.died(code)}: {err[-2000:]} {rep and rep['harness_errors']}")
    add(c, rep, label)
    c.counters["native sanitizer runs"] = c.counters.get("native sanitizer runs", 0) + 1


# C18 -----------------------------------------------------------------------

CONFIGS = [
    ("none", [], "dev"), ("std", ["std"], "dev"), ("cgmath", ["cgmath"], "dev"), ("glam", ["glam"], "dev"), ("nalgebra", ["nalgebra"], "dev"),
    ("all", FULL, "dev"), ("none-release", [], "release"), ("all-release", FULL, "release"),
    ("std-cgmath", ["std", "cgmath"], "dev"), ("std-glam", ["std", "glam"], "dev"), ("std-nalgebra", ["std", "nalgebra"], "dev"),
    ("libs", ["cgmath", "glam", "nalgebra"], "dev"), ("debug-methods", ["std", "debug-methods"], "dev"),
]
MORE = [
    ("cgmath-glam", ["cgmath", "glam"], "release"), ("glam-nalgebra", ["std", "glam", "nalgebra"], "release"),
    ("cgmath-nalgebra", ["cgmath", "nalgebra"], "release"), ("std-release", ["std"], "release"),
    ("debug-release", ["std", "debug-methods"], "release"),
]


def dump_of(text):
    out = {}
    for line in text.splitlines():
        if "\t" in line:
            k, v = line.split("\t", 1)
            out[k] = v
    return out


def c18(tier, seed):
    c = Check("C18", tier, seed, "exploration",
              "a dump (size, alignment, encoded components of four kinds of values, decoded values with clean and garbage padding, sizer offsets, "
              "writer output, GLSL names) of every type and generated struct in each configuration (features, profile, target), compared line by line "
              "with the reference configuration; distinct: lines compared in at least two configurations")
    seeds = [sub_seed(seed, i) for i in range(3 if c.thorough else 1)]
    for s in seeds:
        compare(c, s)
    return c


def dump_build(name, features, profile, parts):
    return Build("dump-" + name, parts, features, profile=profile, target=os.path.join(WORK, "dump", name))


def compare(c, seed):
    parts = [gen.full(seed, 0, ("mint",)), gen.full(seed, 1, ("mint",)), gen.extra(seed), []]
    configs = CONFIGS + (MORE if c.thorough else [])
    small = [gen.targets(seed), [], [], []]

    def native(cfg):
        name, features, profile = cfg
        b = dump_build(name, features, profile, parts)
        try:
            b.build()
        except NoAnswer as e:
            return None, str(e), b
        out = os.path.join(WORK, "out", f"dump-{name}.txt")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        code, _, err = sh([b.path, "dump", str(seed), "1", out], 300)
        if code is not None and code < 0 and code != -9:
            return {}, f"died: {vlib.died(code)} {err[-500:]}", b
        if code != 0:
            raise NoAnswer(f"dump {name}: {vlib.died(code)} {err[-2000:]}")
        return dump_of(open(out).read()), None, b

    def interpreted(what):
        name, triple, features = what
        if triple is None:
            b = Build("dump-small", small, features, target=os.path.join(WORK, "dump", "small"))
            b.build()
            code, out, err = sh([b.path, "dump", str(seed), "0", "-"], 300)
            if code != 0:
                raise NoAnswer(f"dump small: {err[-1000:]}")
            return dump_of(out), None, b
        m = Miri(name, triple, features, seed)
        m.build = Build("dump-" + name, small, features)
        code, out, err = m.run(["dump", str(seed), "0", "-"], 1500 if c.thorough else max(c.left(ENOUGH), 1))
        if code is None and not c.thorough:
            cut(c, name)
            return None
        if code is None:
            raise NoAnswer(f"{name}: no answer")
        ub = undefined(err)
        if ub:
            return {}, f"undefined behaviour: {ub[2]}", m.build
        if code != 0:
            if re.search(r"error(\[E\d+\])?: ", err):
                return None, err[-3000:], m.build
            raise NoAnswer(f"{name}: {vlib.died(code)} {err[-2000:]}")
        return dump_of(out), None, m.build

    targets = [("small", None, ["std"]), ("i686", I686, ["std"]), ("s390x", S390X, ["std"])]
    if c.thorough:
        targets += [(n.split("-")[0], n, ["std"]) for n in OTHERS]
    with ThreadPoolExecutor(6) as ex:
        it = [ex.submit(interpreted, t) for t in targets]
        na = [ex.submit(native, cfg) for cfg in configs]
        nostd = ex.submit(no_std, c)
        na = [f.result() for f in na]
        it = [f.result() for f in it]
        names = [x[0] for x in configs]
        # The largest configuration that builds is the reference.
        ref = dict(zip(names, na))
        built = [n for n in names if ref[n][0]]
        try:
            nostd.result()
        except NoAnswer as e:
            if not built or not re.search(r"error(\[E\d+\])?: ", str(e)):
                raise
            c.viol("the crate does not build without features", f"{built[-1]} builds; {e}")
    if not built:
        raise NoAnswer(f"no configuration builds: {na[0][1]}")
    base_name = "all" if "all" in built else built[0]
    diff(c, seed, base_name, ref[base_name], [(n, ref[n]) for n in names if n != base_name])
    if not it[0][0]:
        raise NoAnswer(f"small: {it[0][1]}")
    diff(c, seed, "x86-64", it[0], [(n[0], r) for n, r in zip(targets[1:], it[1:]) if r])


def diff(c, seed, base_name, base, others):
    base_dump, base_err, base_build = base
    if base_err:
        c.viol(f"configuration {base_name} dies", base_err)
        return
    for n, (d, err, b) in others:
        if d is None:
            c.viol(f"configuration {n} does not build", f"{n} does not build although {base_name} does: {err}")
            continue
        if err:
            c.viol(f"configuration {n} dies", f"{n}: {err}")
            continue
        broken = set(b.broken) ^ set(base_build.broken)
        for s in sorted(broken)[:3]:
            c.viol(f"{s} compiles in one of {base_name}, {n} only", f"{b.describe(s)}: {(b.broken.get(s) or base_build.broken.get(s))[:1500]}")
        # Every line of the smaller configuration that the larger has, and the
        # other way round for types both must have.
        both = [k for k in d if k in base_dump]
        lost = [k for k in d if k not in base_dump]
        if lost and base_name in ("all", "x86-64") and not broken:
            c.viol(f"{lost[0]} is missing in {base_name}", f"{n} has {lost[:5]}, {base_name} has not")
        core = [k for k in base_dump if k not in d and ("mint::" in k or re.search(r" (f32|f64|i32|u32|bool)( |$)", k)) and not k.startswith(("glsl", "writer"))]
        core = [k for k in core if "cgmath" not in k and "glam" not in k and "nalgebra" not in k]
        if core and not broken:
            c.viol(f"{core[0]} is missing in {n}", f"{base_name} has {core[:5]}, {n} has not")
        c.evaluations += len(both)
        c.counters[f"lines compared: {n}"] = c.counters.get(f"lines compared: {n}", 0) + len(both)
        for k in both:
            if d[k] != base_dump[k]:
                x, y = base_dump[k], d[k]
                at = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                c.viol(f"{n} differs from {base_name}: {k}",
                       f"{k}: {base_name} ...{x[max(0, at-60):at+80]}... {n} ...{y[max(0, at-60):at+80]}...", seed=seed)
                if len(c.viols) > 20:
                    break
    c.distinct += len([k for k in base_dump if sum(1 for _, (d, _, _) in others if d and k in d) >= 1])
    ks = sorted(base_dump)
    for k in ks[:: max(1, len(ks) // 3)][:3]:
        c.samples.append(f"[{base_name}] {k}: {base_dump[k][:300]}")


NO_STD = """#![no_std]
#![forbid(unsafe_op_in_unsafe_fn)]
use crevice::{std140::{self, AsStd140, DynamicUniform, Std140}, std430::{self, AsStd430, Std430}, glsl::Glsl};

#[derive(AsStd140, AsStd430)]
pub struct A { pub a: f32, pub v: mint::Vector3<f32>, pub m: mint::ColumnMatrix2<f64>, pub b: bool }
#[derive(AsStd140, AsStd430)]
pub struct B { pub x: A, pub y: mint::Point2<u32>, pub e: E }
#[derive(AsStd140, AsStd430)]
pub struct E {}
#[derive(AsStd140)]
pub struct D { pub f: f32, pub d: DynamicUniform<f32> }

pub fn all(b: &B, out: &mut [u8]) -> (usize, usize, B, B, &'static str) {
    let x = b.as_std140();
    out[..x.as_bytes().len()].copy_from_slice(x.as_bytes());
    let y = b.as_std430();
    out[..y.as_bytes().len()].copy_from_slice(Std430::as_bytes(&y));
    let mut s = std140::Sizer::new();
    s.add::<A>();
    s.add::<DynamicUniform<B>>();
    let mut t = std430::Sizer::new();
    t.add::<A>();
    t.add::<B>();
    (s.len() + B::std140_size_static(), t.len() + B::std430_size_static(), B::from_std140(x), B::from_std430(y), <mint::Vector3<f32>>::NAME)
}
"""


def no_std(c):
    """A crate without the standard library that uses what is offered there."""
    b = Build("nostd", [[], [], [], []], [], target=os.path.join(WORK, "dump", "none2"))
    b.package = "mon"
    crev, mint, deps = rlibs(b)
    src = vlib.write(os.path.join(WORK, "nostd", "lib.rs"), NO_STD)
    code, err = rustc(src, crev, mint, deps, os.path.join(WORK, "nostd"))
    c.evaluations += 1
    c.counters["no_std crates"] = c.counters.get("no_std crates", 0) + 1
    if code != 0:
        c.viol("no_std use does not compile", f"a no_std crate using conversions, sizing and wrapping does not compile: {err[:3000]}")


def rlibs(b):
    """The libraries a crate needs to use crevice, by compiling the monitors."""
    vlib.stale(b.target)
    e = b.gen_env()
    cmd = [x for x in b.cmd() if x != "-q"]
    cmd[cmd.index("--manifest-path") + 1] = os.path.join(vlib.VERIF, "mon" if b.package == "mon" else "harness", "Cargo.toml")
    code, out, err = sh(cmd, 600, cwd=HARNESS, **e)
    if code != 0:
        raise NoAnswer(f"{b.name} does not build: {err[-3000:]}")
    found = {}
    for line in out.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        found[m["target"]["name"]] = f
    return found["crevice"], found["mint"], os.path.join(b.target, "debug", "deps")


def rustc(src, crev, mint, deps, out):
    code, so, se = sh(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "case", "--cap-lints", "allow", "--emit=obj", "-C", "opt-level=0",
                       "-L", f"dependency={deps}", "--extern", f"crevice={crev}", "--extern", f"mint={mint}", "-o", os.path.join(out, os.path.basename(src) + ".o"),
                       src], 200)
    return code, se


# C19 -----------------------------------------------------------------------


def c19(tier, seed):
    c = Check("C19", tier, seed, "exploration",
              "declarations of many forms (field counts, names, attributes, visibilities, macros, places, ways of naming types) are derived, compiled and run "
              "under the monitors of layout, placement, round trip, sizes and GLSL; every rejected declaration must fail to compile while its accepted "
              "neighbour compiles; distinct: accepted declarations, plus rejected ones, plus distinct values run")
    for i in range(3 if c.thorough else 1):
        s = sub_seed(seed, i)
        items = forms.accepted(s, c.thorough)
        parts = [forms.Text(items[k::gen.PARTS]) for k in range(gen.PARTS)]
        b = Build("forms", parts, FULL, timeout=600)
        try:
            b.build()
        except NoAnswer as e:
            if "took more than" not in str(e):
                raise
            slow(c, items, e)
            return c
        for n, msg in b.broken.items():
            text = dict(items)[n]
            c.viol(f"rejected: {n}", f"the declaration {n} is rejected: {msg[:1500]}\n{text[:1500]}")
        c.counters["declarations accepted"] = c.counters.get("declarations accepted", 0) + len(items) - len(b.broken)
        c.evaluations += len(items)
        c.distinct += len(items) - len(b.broken)
        monitor(c, b, "FORMS", s, 2 if not c.thorough else 6, f"forms {s}")
    rejects(c, seed)
    return c


def slow(c, items, e):
    """A build that does not end: are large declarations to blame?"""
    few = [x for x in items if not re.match(r"count_(1[2-9]|[2-9]\d|\d{3})|deep|doubling|names", x[0])]
    b = Build("forms", [forms.Text(few[k::gen.PARTS]) for k in range(gen.PARTS)], FULL, timeout=150)
    b.build()
    c.viol("large declarations do not compile", f"{e}; without those of 12 fields and more, or nested deeply, the build ends")


def rejects(c, seed):
    b = Build("rejects", [[], [], [], []], ["std"])
    b.package = "mon"
    b.target = os.path.join(WORK, "dump", "rejects")
    crev, mint, deps = rlibs(b)
    d = os.path.join(WORK, "rejects")
    pairs = forms.rejected(seed, c.thorough)

    def one(i):
        n, bad, ok = pairs[i]
        p = vlib.write(os.path.join(d, f"bad{i}.rs"), bad + "\n")
        q = vlib.write(os.path.join(d, f"ok{i}.rs"), ok + "\n")
        return rustc(p, crev, mint, deps, d), rustc(q, crev, mint, deps, d)

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(pairs))))
    for (n, bad, ok), ((bc, be), (oc, oe)) in zip(pairs, res):
        c.evaluations += 1
        if bc is None or oc is None:
            raise NoAnswer(f"rustc on {n}: no answer")
        if oc != 0:
            c.viol(f"rejected: neighbour of {n}", f"{ok}\nis rejected: {oe[:1500]}")
        elif bc == 0:
            c.viol(f"accepted: {n}", f"{bad}\ncompiles")
        else:
            c.distinct += 1
            c.counters["declarations rejected"] = c.counters.get("declarations rejected", 0) + 1
    c.samples.append(f"[rejected] {pairs[seed % len(pairs)][1]}")


# C16 -----------------------------------------------------------------------

GPU = os.path.join(vlib.VERIF, "gpu")
VULKAN = "/usr/share/vulkan/icd.d/lvp_icd.json"
VULKAN_ENV = dict(VK_DRIVER_FILES=VULKAN, VK_ICD_FILENAMES=VULKAN, MESA_SHADER_CACHE_DISABLE="true", XDG_RUNTIME_DIR="/tmp")


def gpu_build(seed, scale=1, general=True):
    parts = [gen.Wrapped(gen.shaders(seed, 0, scale)), gen.Wrapped(gen.shaders(seed, 1, scale)), gen.full(seed, 2) if general else [], []]
    return Build("gpu", parts, FULL, package="gpu", bin="gpu", crate=GPU, target=os.path.join(WORK, "gpu"))


def c16(tier, seed):
    c = Check("C16", tier, seed, "exploration",
              "a compute shader using the generated definition copies each component of an uploaded value, of items after a count, and of "
              "values at dynamic offsets to a buffer of words, and writes components a program decodes; distinct: (type, layout, uploaded bytes)")
    for i in range(6 if c.thorough else 2):
        if i and c.left(3000 if c.thorough else 600) < 300:
            break
        s = sub_seed(seed, i)
        b = gpu_build(s, 1 + i % 3 if c.thorough else 1, general=False)
        b.build(fresh=i == 0)
        gpu_monitor(c, b, "run", s, 1 + 4 * c.thorough, f"shaders {s}")
    return c


def naga(c):
    """C15: the definitions in front of a real GLSL compiler."""
    for i in range(4 if c.thorough else 1):
        s = sub_seed(c.seed, i)
        b = gpu_build(s, 1 + 2 * (i % 2))
        b.build(fresh=i == 0)
        gpu_monitor(c, b, "naga", s, 1, f"naga {s}")


def gpu_monitor(c, b, mode, s, deep, label):
    parts = 7 if mode == "run" else 1

    def one(k):
        out = os.path.join(WORK, "out", f"{c.prop}-gpu-{os.getpid()}-{k}.json")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        args = [str(k), str(parts)] if parts > 1 else []
        code, so, se = sh([b.path, mode, str(s), str(deep), out] + args, 900 if c.thorough else 500, cwd=WORK, LP_NUM_THREADS="1", **VULKAN_ENV)
        if code is None:
            raise NoAnswer(f"{label}: no answer")
        if code != 0 or not os.path.exists(out):
            raise NoAnswer(f"{label}: {vlib.died(code)}: {se[-2000:]}")
        rep = json.load(open(out))
        os.remove(out)
        return rep

    with ThreadPoolExecutor(parts) as ex:
        fs = [ex.submit(one, k) for k in range(parts)]
        bad = None
        for k, f in enumerate(fs):
            try:
                c.merge(f.result(), f"{label} part {k}" if parts > 1 else label)
            except NoAnswer as e:
                bad = e
    if bad:
        raise bad


# Setup ---------------------------------------------------------------------


def prebuild():
    def miri(m):
        code, out, err = m.setup()
        if code != 0:
            raise SystemExit(f"miri setup {m.triple}: {err[-2000:]}")

    ms = [Miri("sb", X64, ["std", "cgmath", "glam"], 1), Miri("tb", X64, FULL, 1, asserts=False), Miri("i686", I686, ["std"], 1),
          Miri("s390x", S390X, ["std"], 1), Miri("i686-plain", I686, ["std"], 1, asserts=False)]
    for m in [ms[0], ms[2], ms[3]]:
        miri(m)
    seed = 1
    parts = [gen.full(seed, 0, ("mint",)), gen.full(seed, 1, ("mint",)), gen.extra(seed), []]
    jobs = [lambda m=m: m.run(["dump", "1", "0", "/nonexistent/x"], 1, False) for m in []]
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(lambda cfg=cfg: dump_build(cfg[0], cfg[1], cfg[2], parts).build(fresh=False)) for cfg in CONFIGS]
        fs.append(ex.submit(lambda: Build("dump-small", [gen.targets(seed), [], [], []], ["std"], target=os.path.join(WORK, "dump", "small")).build(fresh=False)))
        fs += [ex.submit(lambda n=n: sanitized(n, 1).build(fresh=False)) for n in NATIVE]
        # One line of work each: compiles the interpreters' crates.
        fs += [ex.submit(m.run, ["nothing"], 600, False) for m in ms]
        for f in fs:
            f.result()
    gpu_build(1).build(fresh=False)
    for name, features in (("none2", []), ("rejects", ["std"])):
        b = Build(name, [[], [], [], []], features, target=os.path.join(WORK, "dump", name))
        b.package = "mon"
        rlibs(b)


