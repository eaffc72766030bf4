#!/usr/bin/env python3
"""mkseed.py TABLE.py [ID..]: turn a table of planted bugs into /verif/seeded/<id>/ after confirming, in a
scratch copy of /repo, that each builds, passes the tests, and that its demonstration tells the two trees apart."""
import json, os, runpy, subprocess, sys
SC = "/tmp/seedwork"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", PATH="/root/.cargo/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Run in the repository. Exit 0: it behaves as stated in meta.json's property; nonzero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
rm -rf /tmp/skillratings-demo
t=/tmp/skillratings-demo
mkdir -p "$t/src" || exit 3
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
skillratings = { path = "$repo"FEAT }
DEPS[workspace]
T
CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet --manifest-path "$t/Cargo.toml"
rc=$?
rm -rf /tmp/skillratings-demo
exit $rc
'''
def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def main():
    table = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    if not os.path.isdir(SC):
        subprocess.check_call(["cp", "-a", "/repo", SC])
    for s in table:
        if want and s["id"] not in want: continue
        sh("git checkout -q -- .")
        ok = True
        for f, old, new in s["edits"]:
            p = f"{SC}/src/{f}"; t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], f, "old text found", n, "times"); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        diff = sh("git diff").stdout
        r = sh("cargo build --workspace --all-targets --offline && cargo test --workspace --offline --no-fail-fast && cargo test --workspace --all-features --offline --no-fail-fast")
        if r.returncode:
            print(s["id"], "TESTS FAIL:", "; ".join(l for l in (r.stdout + r.stderr).splitlines() if "FAILED" in l or l.startswith("error"))[:400]); continue
        d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        serde = s.get("serde")
        open(d + "/demo.sh", "w").write(DEMO.replace("FEAT", ', features = ["serde"]' if serde else "").replace("DEPS", 'serde_json = "1"\n' if serde else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = sh(f"bash {d}/demo.sh")
        sh("git checkout -q -- .")
        good = sh(f"bash {d}/demo.sh")
        if good.returncode or not bad.returncode or "error[" in bad.stderr or "could not compile" in bad.stderr:
            print(s["id"], "DEMO: clean", good.returncode, "patched", bad.returncode, good.stderr[-600:], bad.stderr[-300:])
            continue
        print(s["id"], "ok")
main()
