#!/usr/bin/env python3
"""Confirm planted bugs: plant.py DEFS.py [id ...]

DEFS.py defines BUGS: {id: dict(prop, needs, breaks, edits=[(file, old, new)], main=rust source of the demonstration, deps=[...])}.
Each is tried in a scratch copy of /repo; kept in /verif/seeded/<id> if the demonstration passes without it and fails
with it, it builds, and the existing tests pass.
"""
import importlib.util, json, os, shutil, subprocess, sys

SCR = "/tmp/plant"
REPO = SCR + "/repo"
DEMO = '''#!/bin/bash
# builds and runs main.rs against the crate in the current directory, in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
k = { path = "$repo", features = ["serde-serialize"] }
urdf-rs = "0.6"
serde_json = "1"
EOF
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$t/target" CARGO_PROFILE_DEV_DEBUG=0 RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS
cd "$t" || exit 2
cargo build --offline --quiet > build.log 2>&1 || { tail -20 build.log; exit 2; }
timeout 60 ./target/debug/demo
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=REPO + "/target",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    os.makedirs(SCR, exist_ok=True)
    if not os.path.exists(REPO):
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", REPO)
    for bid, b in m.BUGS.items():
        if len(sys.argv) > 2 and bid not in sys.argv[2:]:
            continue
        sh("git checkout -q -- .", REPO)
        d = os.path.join("/verif/seeded", bid)
        tmp = os.path.join(SCR, "demo-" + bid)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write(b.get("demo", DEMO))
        if "main" in b:
            open(tmp + "/main.rs", "w").write(b["main"])
        rc0, o0 = sh("bash %s/demo.sh" % tmp, REPO)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, "edit does not match", f, s.count(old))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        rc1, o1 = sh("cargo test --workspace --offline -q 2>&1; cargo build --lib --all-features --offline -q", REPO)
        bad = [l for l in o1.splitlines() if "FAILED" in l or l.startswith("error")]
        rc2, o2 = sh("bash %s/demo.sh" % tmp, REPO)
        diff = subprocess.run(["git", "diff"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        base = "\n".join(sh("git show b7bc1bc:%s" % f, "/repo")[1] for f, _, _ in b["edits"])
        mine = [l for l in removed if l not in base.splitlines()]
        good = rc0 == 0 and rc2 != 0 and rc2 != 2 and rc1 == 0 and not bad
        print(bid, "KEPT" if good else "REJECTED", "demo %d -> %d" % (rc0, rc2), "tests", rc1, bad[:3], "not original: %s" % mine if mine else "")
        if not good:
            print("  ", o0[-700:] if rc0 else "", o2[-300:], o1[-600:] if rc1 or bad else "")
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", REPO)


main()
