#!/usr/bin/env python3
"""Turns a description of a planted bug into /verif/seeded/<id>/ after having
confirmed it in a scratch copy of /repo: it applies, builds, passes the stable
tests, and its demonstration passes without it and fails with it.

    mkbug.py SPECS.py [ID...]

SPECS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old,
new)...], demo="Rust source of a main.rs", features=None|[...])]."""
import json, os, shutil, subprocess, sys, runpy, re

SCRATCH = "/tmp/mkbug"
REPO = SCRATCH + "/repo"
DEMO = '''#!/bin/bash
# Builds the program beside this script against the library in the current
# directory, and runs it: 0 when what it asserts holds.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable
HERE=$(cd "$(dirname "$0")" && pwd) || exit 2
REPO=$(pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf -- "$D"' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs" || exit 2
cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
oct = { path = "$REPO/oct"@FEAT@ }
[profile.dev]
incremental = false
debug = false
@PROF@[workspace]
TOML
cd "$D" || exit 2
cargo build --offline --quiet --target-dir "$D/target" || exit 3
ulimit -c 0
timeout 60 "$D/target/debug/demo"
'''

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d

def run_tests():
    # /opt/vp/test.sh is hard-wired to /repo, so the same commands here.
    r = sh("export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable; . /root/.cargo/env 2>/dev/null; export PATH=/root/.cargo/bin:$PATH; "
           "cargo test --workspace --lib --bins --tests --no-fail-fast --offline 2>&1; A=$?;"
           "RUSTUP_TOOLCHAIN=nightly cargo test --workspace --doc --no-fail-fast --offline --target-dir target/nightly 2>&1; B=$?; exit $((A+B))", REPO)
    return r

def main():
    specs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    subprocess.check_call(["cp", "-a", "/repo", REPO])
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    bad = []
    for b in specs:
        if want and b["id"] not in want: continue
        sh("git checkout -q -- .", REPO)
        ok = True
        for f, old, new in b["edits"]:
            p = f"{REPO}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not match once:", f, s.count(old)); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: bad.append(b["id"]); continue
        diff = sh("git diff", REPO).stdout
        # Which removed lines are not of the original repository?
        out = f"{SCRATCH}/{b['id']}"
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/main.rs", "w").write(b["demo"])
        feat = ', default-features = false, features = ' + json.dumps(b["features"]) if b.get("features") is not None else ""
        open(out + "/demo.sh", "w").write((b.get("demo_sh") or DEMO).replace("@FEAT@", feat).replace("@PROF@", b.get("profile", "")))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        added = [l for f, old, new in b["edits"] for l in old.splitlines()]
        mine = []
        for f, old, new in b["edits"]:
            orig = sh(f"git show {base}:{f}", REPO).stdout
            news = new.splitlines()
            for l in old.splitlines():
                if l.strip() and l not in news and l not in orig.splitlines(): mine.append(l)
        r = run_tests()
        if r.returncode:
            print(b["id"], "TESTS fail"); print(r.stdout[-1500:]); bad.append(b["id"]); continue
        d1 = sh(f"bash {out}/demo.sh", REPO)
        sh("git checkout -q -- .", REPO)
        d0 = sh(f"bash {out}/demo.sh", REPO)
        if d0.returncode != 0 or d1.returncode in (0, 2, 3) and not (d1.returncode == 3 and b.get("compile")):
            print(b["id"], "DEMO", d0.returncode, d1.returncode, d0.stderr[-1500:], "--- patched:", d1.stderr[-1500:]); bad.append(b["id"]); continue
        dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(b["id"], "ok", "demo", d1.returncode, (d1.stderr.strip().splitlines() or [""])[0][:100], ("NOTE changes lines that are not original: %r" % mine) if mine else "")
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print("bad:", bad)

main()
