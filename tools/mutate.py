"""Mutation testing: python3 tools/mutate.py [file...] in a copy;
MUT_RANDOM=seed for a random order.

CREVICE_REPO must name a scratch copy of the repository (never /repo). Makes
one small change at a time to its sources; those that compile and pass the
tests should be caught by a monitor. Prints what becomes of each."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
R = os.environ["CREVICE_REPO"]
assert os.path.realpath(R) != "/repo"
import vlib
from vlib import Build, LIBS, program, sh, WORK, NoAnswer
FEATURES = ["std", "cgmath", "glam", "nalgebra"]
FILES = ["src/internal.rs", "src/bool.rs", "src/util.rs", "src/glsl.rs", "src/std140/writer.rs", "src/std430/writer.rs", "src/std140/sizer.rs",
         "src/std430/sizer.rs", "src/std140/traits.rs", "src/std430/traits.rs", "src/std140/dynamic_uniform.rs", "crevice-derive/src/layout.rs",
         "crevice-derive/src/glsl.rs", "crevice-derive/src/lib.rs", "src/std140/primitives.rs", "src/std430/primitives.rs", "src/imp/imp_mint.rs",
         "src/imp/imp_cgmath.rs", "src/imp/imp_glam.rs", "src/imp/imp_nalgebra.rs", "src/std140.rs", "src/std430.rs"]
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" \+= ", " = "), (r" > ", " >= "), (r" > ", " < "), (r" < ", " <= "), (r" == ", " != "),
         (r" \|\| ", " && "), (r"!= 0", "== 1"), (r"\b(\d+)(usize)?\b", lambda m: str(int(m.group(1)) + 1)), (r"\b(\d+)(usize)?\b", lambda m: str(int(m.group(1)) * 2)),
         (r"\b(\d+)(usize)?\b", "0"), (r"\?;", ".ok();"), (r"T::ALIGNMENT", "1"), (r"T::ALIGNMENT", "16"), (r"Self::NAME", '"S"'), (r"self\.offset\b", "0"),
         (r"%", "/"), (r"\bx, y\b", "y, x"), (r"\by, z\b", "z, y"), (r"\bz, w\b", "w, z"), (r"Vec3\b", "Vec4"), (r"Vec4\b", "Vec3"), (r"\bMat", "DMat"),
         (r"\bf32\b", "f64"), (r"\bu32\b", "i32"), (r"\bi32\b", "u32"), (r"bvec", "vec"), (r"dvec", "vec"), (r"uvec", "ivec"), (r"dmat", "mat"), (r'"(\w+)"', r'"x\1"'),
         (r"\b_pad_(\w)", r"_pad_\1\1"), (r"std140", "std430"), (r"std430", "std140"), (r"140", "430"), (r"\bx: ", "y: "), (r"\by: ", "z: "), (r"if let Some", "while let Some"),
         (r"panic!\(.*?\)", "return TokenStream::new()"), (r"zeroed\(\)", "zeroed().clone()")]

def lines_of(f):
    t = open(os.path.join(R, f)).read().split("\n")
    end = next((i for i, l in enumerate(t) if "#[cfg(test)]" in l), len(t))
    doc = False
    for i, l in enumerate(t[:end]):
        s = l.strip()
        if s.startswith("/**") or s.startswith("/*!"):
            doc = True
        if doc:
            if "*/" in s:
                doc = False
            continue
        if s.startswith(("//", "since =", "note =")) or s.startswith("#") or s.startswith("use ") or not s:
            continue
        yield i, l

def mutants(files):
    seen = set()
    for f in files:
        src = open(os.path.join(R, f)).read().split("\n")
        for i, l in lines_of(f):
            outs = []
            for pat, rep in RULES:
                for m in re.finditer(pat, l):
                    outs.append(l[:m.start()] + m.expand(rep) * 1 + l[m.end():] if isinstance(rep, str) and "\\" in rep else l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():])
            if l.strip().endswith((";", "),", "},")) or re.match(r"\s+\w+ .*,$", l):
                outs.append("")
            for o in outs:
                if o != l and (f, i, o) not in seen:
                    seen.add((f, i, o))
                    yield f, i, l, o, "\n".join(src[:i] + [o] + src[i + 1:])

def clean():
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)

KNOWN = {re.search(r"signature=(.*)", l).group(1) for l in open(os.path.join(V, "known_findings.txt")) if "signature=" in l} if os.path.exists(os.path.join(V, "known_findings.txt")) else set()

def judge():
    t = "cargo test --offline -q --workspace --no-fail-fast --features test-all-math-libraries"
    p = subprocess.run(f"cargo check --offline -q --workspace --features test-all-math-libraries && cargo check --offline -q --no-default-features && timeout 200 {t}", shell=True, cwd=R, capture_output=True, text=True)
    if p.returncode:
        return "tests" if "test result" in p.stdout else "compiler"
    b = Build("full", program(1), FEATURES)
    try:
        b.build()
    except NoAnswer as e:
        return "build: " + str(e)[-200:].replace("\n", " ")
    if b.broken:
        return f"CAUGHT broken {len(b.broken)}"
    def one(p):
        code, so, se = sh([b.path, "monitor", p, "1", "1", "-"], 300, cwd=WORK)
        if code is None:
            return p + " timeout"
        if code != 0:
            return p + f" died {code}"
        for line in reversed(so.splitlines()):
            if line.startswith("{"):
                r = json.loads(line)
                v = [x for x in r["violations"] if not (p == "C11" and x["signature" if "signature" in x else "sig"] in KN11)]
                return p if v else None
    with ThreadPoolExecutor(8) as ex:
        got = [g for g in ex.map(one, [f"C{i:02}" for i in range(1, 16)]) if g]
    return "CAUGHT " + " ".join(got) if got else "SURVIVES"

KN11 = set()
def main():
    files = sys.argv[1:] or FILES
    clean()
    # What C11 reports on the unchanged tree.
    b = Build("full", program(1), FEATURES); b.build()
    code, so, _ = sh([b.path, "monitor", "C11", "1", "1", "-"], 300, cwd=WORK)
    for v in json.loads([l for l in so.splitlines() if l.startswith("{")][-1])["violations"]:
        KN11.add(v.get("signature", v.get("sig")))
    print("known", len(KN11), flush=True)
    todo = list(mutants(files))
    print(len(todo), "mutants", flush=True)
    if os.environ.get("MUT_RANDOM"):
        import random
        random.Random(os.environ["MUT_RANDOM"]).shuffle(todo)
    for f, i, l, o, text in todo:
        clean()
        open(os.path.join(R, f), "w").write(text)
        t = time.time()
        r = judge()
        if r not in ("tests", "compiler"):
            print(f"{r} [{time.time()-t:.0f} s] {f}:{i+1}: {l.strip()!r} -> {o.strip()!r}", flush=True)
        else:
            print(f"{r[0]}", end=" ", flush=True)
    clean()
main()
