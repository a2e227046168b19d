#!/usr/bin/env python3
"""Regenerates /verif/seeded from the edit list below (development aid; no check
uses it).  For every bug: copies /repo to scratch, applies the edits, writes
patch.diff, runs the stable tests, and runs demo.sh on clean and changed trees.
usage: mkseeds.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff it behaves as expected
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
lyra2 = { path = "$repo" }
[workspace]
[profile.release]
overflow-checks = false
EOF
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target"
%(run)s
'''
RUN_REL = '''cargo build -q --offline --release || exit 3
timeout 200 "$work/target/release/demo" > "$work/out" 2> "$work/err" || { cat "$work/out" "$work/err"; exit 1; }
diff "$here/expected.txt" "$work/out"'''
RUN_STDERR = RUN_REL + ''' || exit 1
[ ! -s "$work/err" ] || { echo "wrote to stderr:"; cat "$work/err"; exit 1; }'''
RUN_ASAN = '''RUSTFLAGS="-Zsanitizer=address" cargo +nightly build -q --offline --target x86_64-unknown-linux-gnu || exit 3
timeout 200 "$work/target/x86_64-unknown-linux-gnu/debug/demo" > "$work/out" 2> "$work/err" || { head -20 "$work/err"; exit 1; }
diff "$here/expected.txt" "$work/out"'''
RUN_BE = '''export MIRI_SYSROOT="$work/sysroot"
cargo +nightly miri setup -q --target s390x-unknown-linux-gnu >/dev/null 2>"$work/err" || { cat "$work/err"; exit 3; }
timeout 200 cargo +nightly miri run -q --offline --target s390x-unknown-linux-gnu > "$work/out" 2>"$work/err" || { cat "$work/err"; exit 1; }
diff "$here/expected.txt" "$work/out"'''
RUN_DEVREL = '''cargo build -q --offline --release || exit 3
cargo build -q --offline || exit 3
timeout 100 "$work/target/release/demo" > "$work/out" 2> "$work/err" || { cat "$work/out" "$work/err"; exit 1; }
timeout 100 "$work/target/debug/demo" > "$work/out2" 2> "$work/err" || { cat "$work/out2" "$work/err"; exit 1; }
diff "$work/out" "$work/out2"'''
PRE = '''#[allow(dead_code)]
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }
#[allow(dead_code)]
fn msg(n: usize, mut s: u64) -> Vec<u8> {
    (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as u8 }).collect()
}
#[allow(dead_code)]
fn quiet<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Option<T> {
    let h = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(f).ok();
    std::panic::set_hook(h);
    r
}
'''
L = "src/lyra2.rs"
BUGS = {}
def bug(id, prop, edits, needs, what, main, run=RUN_REL):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, what=what, main=main, run=run)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)

def main():
    ids = sys.argv[1:] or list(BUGS)
    for i in ids:
        b = BUGS[i]
        d = f"{SEED}/{i}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            sh(f"cp -a /repo {w}/repo")
            r = f"{w}/repo"
            open(f"{d}/main.rs", "w").write(PRE + b["main"])
            open(f"{d}/demo.sh", "w").write(DEMO % dict(run=b["run"]))
            os.chmod(f"{d}/demo.sh", 0o755)
            open(f"{d}/expected.txt", "w").write("")
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(f"{d}/meta.json", "w"), indent=1)
            # expected output: what the clean tree prints
            if b["run"] is RUN_DEVREL:
                os.remove(f"{d}/expected.txt")
            else:
                p = sh(f"bash {d}/demo.sh", cwd=r)
                open(f"{d}/expected.txt", "w").write("".join(l[2:] + "\n" for l in p.stdout.splitlines() if l.startswith("> ")))
            p = sh(f"bash {d}/demo.sh", cwd=r)
            clean = p.returncode
            for f, old, new in b["edits"]:
                s = open(f"{r}/{f}").read()
                if s.count(old) != 1:
                    print(i, "EDIT MATCHES", s.count(old), repr(old)); break
                open(f"{r}/{f}", "w").write(s.replace(old, new))
            else:
                open(f"{d}/patch.diff", "w").write(sh(f"git -C {r} diff").stdout)
                t = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={r}/target; cd {r} && cargo test --offline 2>&1")
                tests = "ok" if t.returncode == 0 else "FAIL\n" + t.stdout[-1500:]
                q = sh(f"bash {d}/demo.sh", cwd=r)
                print(f"{i}: clean={clean} tests={tests} changed={q.returncode}", flush=True)
                if clean or not q.returncode or q.returncode == 3:
                    print(p.stdout[-800:], p.stderr[-800:], "----", q.stdout[-800:], q.stderr[-800:])
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
