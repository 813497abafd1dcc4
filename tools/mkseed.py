#!/usr/bin/env python3
"""Plants a bug: mkseed.py ID...  Makes the change in a scratch copy of /repo, confirms that it builds, passes the tests,
changes lines of the original repository and is exposed by its demonstration; then writes seeded/ID."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
BASE = "6c43a22"
W = "/tmp/seed/repo"

DEMO = """#!/bin/bash
# Exit 0 when the parser behaves, 1 when it does not. Builds only in a scratch directory and in /repo/target.
HERE=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 2
export CARGO_TARGET_DIR=/repo/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
touch -c src/lib.rs
cargo build --lib --locked --offline -q 2>/dev/null || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
rustc --edition 2021 -A warnings -o "$T/demo" "$HERE/demo.rs" --extern ruruby_parse=/repo/target/debug/libruruby_parse.rlib -L dependency=/repo/target/debug/deps || exit 2
cd "$T" && timeout 60 ./demo
"""
HEAD = r'''use ruruby_parse::*;
/// The result of parsing, without locations.
#[allow(dead_code)]
fn dump(code: &str) -> String {
    let s = match Parser::<DummyContext>::parse_program(code.to_string(), "demo.rb") {
        Ok(r) => format!("{:?} {:?}", r.node, r.lvar_collector),
        Err(e) => format!("error {:?}", e.kind),
    };
    strip(&s)
}
#[allow(dead_code)]
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("Loc(") {
        o.push_str(&r[..i]);
        let j = i + r[i..].find(')').unwrap();
        o.push_str("Loc");
        r = &r[j + 1..];
    }
    o + r
}
#[allow(dead_code)]
fn kind(code: &str) -> &'static str {
    match Parser::<DummyContext>::parse_program(code.to_string(), "demo.rb") {
        Ok(_) => "ok",
        Err(e) if e.kind == ParseErrKind::UnexpectedEOF => "eof",
        Err(_) => "error",
    }
}
#[allow(dead_code)]
fn same(a: &str, b: &str) {
    assert!(kind(a) == "ok", "{a:?} is not accepted");
    assert_eq!(dump(a), dump(b), "{a:?} and {b:?}");
}
fn main() {
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(d, repo):
    """the demonstration, against a copy of the repository"""
    t = open(os.path.join(d, "demo.sh")).read().replace("/repo", repo)
    p = os.path.join("/tmp/seed", "demo.sh")
    open(p, "w").write(t)
    shutil.copy(os.path.join(d, "demo.rs"), "/tmp/seed/demo.rs")
    r = sh("bash " + p)
    return r.returncode, r.stdout


def make(i):
    s = SEEDS[i]
    d = os.path.join(ROOT, "seeded", i)
    if not os.path.isdir(W):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh(f"cp -a /repo {W}")
    sh(f"cd {W} && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -- .")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    open(os.path.join(d, "demo.rs"), "w").write(HEAD + s["demo"].strip("\n") + "\n}\n" + s.get("items", ""))
    rc, out = demo(d, W)
    if rc != 0:
        print(i, "DEMO FAILS WITHOUT THE CHANGE", rc, out[-1500:]); return False
    for f, old, new, *nth in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        n = t.count(old)
        k = nth[0] if nth else 0
        if n == 0 or (n > 1 and not nth):
            print(i, f"{n} occurrences of {old!r}"); return False
        pos = -1
        for _ in range(k + 1):
            pos = t.find(old, pos + 1)
        open(p, "w").write(t[:pos] + new + t[pos + len(old):])
    diff = sh(f"cd {W} && git diff").stdout
    # lines changed must be of the original repository
    orig = False
    for f in {e[0] for e in s["edits"]}:
        for h in sh(f"cd {W} && git diff -U0 -- {f}").stdout.splitlines():
            if h.startswith("@@"):
                a = h.split()[1][1:].split(",")
                start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if cnt:
                    b = sh(f"cd {W} && git blame -s -L{start},+{cnt} HEAD -- {f}").stdout
                    own = [l for l in b.splitlines() if not l.startswith("^" + BASE)]
                    if own:
                        print(i, "not original:", own)
                    else:
                        orig = True
    if not orig:
        print(i, "CHANGES NO LINE OF THE ORIGINAL"); return False
    r = sh(f"sed 's|/repo|{W}|g' /opt/vp/env.sh > /tmp/seed/env.sh; . /tmp/seed/env.sh; cargo test --workspace --no-run --locked --offline && cargo test --workspace --locked --offline --lib -- --test-threads 8")
    if r.returncode != 0:
        print(i, "TESTS FAIL", r.stdout[-2500:]); sh(f"cd {W} && git checkout -- ."); return False
    rc, out = demo(d, W)
    sh(f"cd {W} && git checkout -- .")
    if rc in (0, 2):
        print(i, "DEMO DOES NOT FAIL WITH THE CHANGE", rc, out[-500:]); return False
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(i, "ok", out.strip().splitlines()[1][:200] if len(out.strip().splitlines()) > 1 else "")
    return True


bad = 0
for i in sys.argv[1:] or SEEDS:
    if not make(i):
        shutil.rmtree(os.path.join(ROOT, "seeded", i), ignore_errors=True)
        bad += 1
sys.exit(bad)
