"""What the checks share: building the monitors against /repo's working tree,
running them, known findings, evidence and verdicts."""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

import gen

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CREVICE_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
LIBS = ("mint", "cgmath", "glam", "nalgebra")


class NoAnswer(Exception):
    """The check cannot tell; it ends with neither 0 nor 1."""


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUST", "CARGO", "MIRI")) and k not in ("RUSTUP_HOME", "CARGO_HOME"):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra)
    return e


def sh(cmd, timeout, cwd=None, **extra):
    """Runs a command in a process group of its own; (code or None on timeout,
    stdout, stderr)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        code = None
    return code, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def stale(target):
    """Makes cargo rebuild the code under test, whatever its files' times."""
    for pat in ("crevice-*",):
        for d in glob.glob(os.path.join(target, "**", ".fingerprint", pat), recursive=True):
            shutil.rmtree(d, ignore_errors=True)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return path
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)
    return path


def errors_of(stdout):
    """Compiler errors from cargo's JSON messages."""
    out = []
    for line in stdout.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"].get("level") in ("error", "error: internal compiler error"):
            out.append(m["message"])
    return out


def all_spans(msg):
    """Every place a message points at, through macro expansions."""
    todo = [s for s in msg.get("spans", [])]
    for c in msg.get("children", []):
        todo += c.get("spans", [])
    while todo:
        s = todo.pop()
        yield s
        if s.get("expansion"):
            todo.append(s["expansion"]["span"])


class Build:
    """A generated program and the monitors, compiled together."""

    def __init__(self, name, parts, features, profile="dev", cargo=("cargo",), package="harness", bin="harness",
                 target=None, rustflags=None, triple=None, only=None, timeout=700, crate=HARNESS, more=None):
        self.name, self.parts, self.features, self.profile = name, parts, features, profile
        self.cargo, self.package, self.bin = list(cargo), package, bin
        self.target = target or os.path.join(HARNESS, "target")
        self.rustflags, self.triple, self.timeout = rustflags, triple, timeout
        self.skip = set()
        self.broken = {}  # struct name -> compiler message
        self.only = only
        self.crate = crate
        self.more = more or {}
        self.path = None

    def gen_env(self):
        e = {}
        self.lines = {}
        for i in range(gen.PARTS):
            structs = self.parts[i] if i < len(self.parts) else []
            text = structs.render(self.skip) if hasattr(structs, "render") else gen.render(structs, self.skip)
            p = write(os.path.join(WORK, "gen", self.name, f"g{i}.rs"), text)
            e[f"GEN_RS_{i}"] = p
            cur = None
            names = structs.names if hasattr(structs, "names") else {s.name for s in structs}
            marks = []
            for n, line in enumerate(text.splitlines(), 1):
                m = re.match(r"// struct (\S+)", line)
                if m and m.group(1) in names:
                    cur = m.group(1)
                if line.startswith("pub fn register"):
                    cur = None
                m = re.search(r"::<([A-Za-z0-9_]+)>\(\"", line)
                if line.startswith("    ") and cur is None and m and m.group(1) in names:
                    marks.append(m.group(1))
                else:
                    marks.append(cur)
            self.lines[os.path.abspath(p)] = marks
        if self.rustflags:
            e["RUSTFLAGS"] = self.rustflags
        e["CARGO_TARGET_DIR"] = self.target
        e.update(self.more)
        return e

    def cmd(self, what="build"):
        c = self.cargo + [what, "--offline", "--message-format=json", "-q", "--manifest-path",
                          os.path.join(self.crate, "Cargo.toml"), "-p", self.package]
        if self.features:
            c += ["--features", ",".join(self.features)]
        if self.profile == "release":
            c += ["--release"]
        if self.triple:
            c += ["--target", self.triple]
        return c

    def struct(self, name):
        for p in self.parts:
            for s in p:
                if s.name == name:
                    return s

    def build(self, fresh=True, rounds=8):
        if fresh:
            stale(self.target)
        for _ in range(rounds):
            e = self.gen_env()
            code, out, err = sh(self.cmd(), self.timeout, cwd=self.crate, **e)
            if code is None:
                raise NoAnswer(f"building {self.name} took more than {self.timeout} s")
            if code == 0:
                d = os.path.join(self.target, self.triple or "", "release" if self.profile == "release" else "debug")
                self.path = os.path.join(d, self.bin)
                return self
            bad = {}
            msgs = errors_of(out)
            for m in msgs:
                for s in all_spans(m):
                    f = s["file_name"]
                    f = os.path.abspath(os.path.join(self.crate, f))
                    marks = self.lines.get(f)
                    if marks and 0 < s["line_start"] <= len(marks) and marks[s["line_start"] - 1]:
                        bad.setdefault(marks[s["line_start"] - 1], m.get("rendered") or m["message"])
            if not bad:
                text = "\n".join((m.get("rendered") or m["message"]) for m in msgs[:3]) or err[-3000:]
                raise NoAnswer(f"{self.name} does not build:\n{text[:4000]}")
            self.broken.update(bad)
            self.skip |= set(bad)
        raise NoAnswer(f"{self.name} does not build even without {sorted(self.skip)}")

    def describe(self, name):
        s = self.struct(name)
        return s.describe() if s else name


def attribute(build, name):
    """Which derives of a struct that does not compile are at fault."""
    out = []
    for what in ("std140", "std430", "GlslStruct"):
        want = build.struct(name)
        keep, todo = set(), [want]
        structs = [s for p in build.parts for s in p]
        by = {s.name: s for s in structs}
        while todo:
            s = todo.pop()
            if s.name in keep:
                continue
            keep.add(s.name)
            for _, t in s.fields:
                for n in by:
                    if t.struct and t.struct.name == n or f"<{n}>" in t.rust:
                        todo.append(by[n])
        sub = []
        for s in structs:
            if s.name in keep:
                c = gen.Struct(s.name, s.fields, s.family)
                c.s140 = s.s140 and what == "std140"
                c.s430 = s.s430 and what == "std430"
                c.glsl = s.glsl and what == "GlslStruct"
                sub.append(c)
        orig = [c for c in sub if c.name == name][0]
        if not (orig.s140 or orig.s430 or orig.glsl):
            continue
        b = Build("attribute", [sub], build.features)
        try:
            b.build(fresh=False)
        except NoAnswer:
            out.append(what)
            continue
        if name in b.broken:
            out.append(what)
    return out


# Verdicts ------------------------------------------------------------------


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


class Check:
    current = None

    def __init__(self, prop, tier, seed, level, rule):
        Check.current = self
        self.prop, self.tier, self.seed, self.level, self.rule = prop, tier, seed, level, rule
        self.t0 = time.time()
        self.evaluations = self.distinct = 0
        self.samples, self.counters, self.viols, self.runs = [], {}, [], []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def viol(self, sig, detail, **more):
        if sig not in {v["sig"] for v in self.viols}:
            self.viols.append(dict(sig=sig, detail=detail, **more))

    def merge(self, rep, label, **more):
        """A monitor's report."""
        if rep["harness_errors"]:
            raise NoAnswer(f"{label}: {rep['harness_errors'][:3]}")
        self.evaluations += rep["evaluations"]
        self.distinct += rep["distinct"]
        for k, v in rep["counters"].items():
            self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max ") else self.counters.get(k, 0) + v
        take = 4 if not self.samples else 1
        self.samples += [f"[{label}] {s}" for s in rep["samples"][:take]]
        for v in rep["violations"]:
            self.viol(v["sig"], v["detail"], run=label, **more)
        self.runs.append({"run": label, "evaluations": rep["evaluations"], "distinct": rep["distinct"],
                          "violations": len(rep["violations"])})

    def unlisted(self):
        known = known_findings(self.prop)
        return [v for v in self.viols if v["sig"] not in known]

    def finish(self):
        known = known_findings(self.prop)
        seen = [k for k in known if k in {v["sig"] for v in self.viols}]
        new = [v for v in self.viols if v["sig"] not in known]
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rule,
                "samples": self.samples[:12] or ["none"],
                "observed": self.counters,
                "runs": self.runs,
                "known_findings_seen": seen,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not new and not self.distinct:
            print(f"{self.prop}: no answer: nothing was observed")
            return 2
        if not new:
            print(f"{self.prop}: held on {self.evaluations} evaluations ({self.distinct} distinct), {ev['wall_s']} s")
            return 0
        p = os.path.join(WORK, "replay", f"{self.prop}-{self.tier}-{self.seed}.json")
        write(p, json.dumps({
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "again": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 {VERIF}/run.py {self.prop}",
            "violations": new,
        }, indent=1))
        for v in new[:5]:
            print(f"  {v['sig']}: {v['detail'][:1500]}")
        print(f"VIOLATION property={self.prop} replay={p}")
        return 1


def died(code):
    """How a process ended that should have ended well."""
    if code is not None and code < 0:
        try:
            return signal.Signals(-code).name
        except ValueError:
            return f"signal {-code}"
    return f"exit status {code}"


def monitor(check, build, prop, seed, deep, label, timeout=600, wrap=(), **extra):
    out = os.path.join(WORK, "out", f"{check.prop}-{os.getpid()}.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    args = list(wrap) + [build.path, "monitor", prop, str(seed), str(deep), out]
    code, so, se = sh(args, timeout, cwd=WORK, **extra)
    if code is None:
        raise NoAnswer(f"{label}: no answer in {timeout} s")
    if code in (-signal.SIGKILL, -signal.SIGTERM):
        raise NoAnswer(f"{label}: ended by {died(code)}")
    if code != 0 or not os.path.exists(out):
        if code < 0 or code == 134:
            check.viol(f"crash {prop}", f"{label}: the program died with {died(code)}: {se[-1500:]}", run=label)
            return None
        raise NoAnswer(f"{label}: {died(code)}: {se[-2000:]}")
    rep = json.load(open(out))
    os.remove(out)
    check.merge(rep, label, command=" ".join(args[:-1]))
    return rep


def program(seed, libs=LIBS, scale=1):
    return [gen.full(seed, i, libs, scale) for i in range(gen.PARTS)]


def sub_seed(seed, i):
    """The i-th seed of a run; the first is the run's own."""
    if i == 0:
        return seed
    return int(hashlib.sha256(f"{seed}/{i}".encode()).hexdigest()[:8], 16)
