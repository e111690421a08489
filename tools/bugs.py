#!/usr/bin/env python3
"""Makes and confirms planted bugs: python3 tools/bugs.py [id...].

Each entry of bugs/*.py style below becomes /verif/seeded/<id>. Confirmation is
done in a scratch copy of /repo: the patch applies, builds, passes the tests,
and the demonstration fails with it and passes without it."""
import json, os, subprocess, sys, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/vp-scratch"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

DEMO = """#!/bin/bash
# Run with cwd at the root of crevice: 0 when the behaviour is right.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
D=/tmp/vp-demo-%(id)s
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cp "$HERE/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crevice = { path = "$PWD"%(features)s }
bytemuck = "1.12.3"
mint = "0.5.9"
%(deps)s
[profile.release]
debug-assertions = false
END
cd "$D" || exit 3
%(run)s
R=$?
rm -rf /tmp/vp-demo-%(id)s
exit $R
"""
DEPS = {
 "cgmath": 'cgmath = { version = "0.18.0", default-features = false }',
 "glam": 'glam = { version = "0.33", default-features = false, features = ["mint", "std"] }',
 "nalgebra": 'nalgebra = { version = "0.35", default-features = false, features = ["mint"] }',
}


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, (p.stdout + p.stderr)[-3000:]


def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- . && git clean -fdq -e target -e Cargo.lock", S)
    for f, old, new in b["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        n = t.count(old)
        assert n == 1 or (n > 1 and b.get("all")), f"{b['id']}: {f}: {n} times: {old}"
        open(p, "w").write(t.replace(old, new))
    code, out = sh("git diff", S)
    patch = subprocess.run("git diff", shell=True, cwd=S, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    libs = b.get("libs", [])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(
        id=b["id"], features=", features = [%s]" % ", ".join(f'"{l}"' for l in libs) if libs else "",
        deps="\n".join([DEPS[l] for l in libs] + ([b["deps"]] if "deps" in b else [])), run=b.get("run", "cargo run --offline -q")))
    if b.get("default") is False:
        t = open(os.path.join(d, "demo.sh")).read().replace('path = "$PWD"', 'path = "$PWD", default-features = false')
        open(os.path.join(d, "demo.sh"), "w").write(t)
    open(os.path.join(d, "main.rs"), "w").write(b["demo"])
    shutil.copy("/repo/Cargo.lock", os.path.join(d, "Cargo.lock"))
    # With the change.
    res = {}
    code, out = sh("(cargo test --offline -q --workspace --no-fail-fast --features test-all-math-libraries; cargo test -q -p crevice-tests --features wgpu-validation --no-fail-fast --offline; cargo check -q --workspace --all-targets --no-default-features --offline) 2>&1 | grep -E 'test result|FAILED|failed|error' | sort | uniq -c", S)
    res["tests"] = out
    bad = "FAILED" in out or "error" in out or "failed;" in out and " 0 failed" not in out
    code, out1 = sh(f"bash {d}/demo.sh", S)
    res["patched"] = code
    sh("git checkout -q -- .", S)
    code0, out0 = sh(f"bash {d}/demo.sh", S)
    res["clean"] = code0
    ok = not bad and code != 0 and code0 == 0
    print(b["id"], "OK" if ok else "BAD", res["patched"], res["clean"])
    if not ok:
        print(res["tests"], "\nPATCHED:", out1[-1200:], "\nCLEAN:", out0[-1200:])
    else:
        print("   ", out1.strip().splitlines()[-3:][0][:160] if out1.strip() else "")
    return ok


if __name__ == "__main__":
    import bugspecs
    if not os.path.isdir(S):
        sh(f"git clone -q /repo {S} && cp /repo/Cargo.lock {S}/", "/tmp")
    sh("git fetch -q && git reset -q --hard origin/HEAD", S)
    want = sys.argv[1:]
    for b in bugspecs.BUGS:
        if not want or b["id"] in want:
            make(b)
