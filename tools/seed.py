#!/usr/bin/env python3
"""seed.py SPEC.py: makes and confirms a planted bug (development tool; no check uses it).

SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (rust body of fn main, or full program), or DEMO (shell)."""
import json, os, subprocess, sys, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec["ID"], spec["PROP"]
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
PRELUDE = r'''
#![allow(unused)]
use rdf_types::{dataset::{BTreeDataset, IndexedBTreeDataset}, Id, Literal as RdfLiteral, LiteralType, Quad, Term};
use treeldr_layouts::{self as tl, abs, distill, layout::LayoutType, Layouts, Ref, Value};

fn iri(s: &str) -> Term { Term::iri(iref::IriBuf::new(s.to_owned()).unwrap()) }
fn ex(s: &str) -> Term { iri(&format!("https://ex.org/{s}")) }
fn lit(s: &str, t: &str) -> Term {
	Term::Literal(RdfLiteral::new(s.to_owned(), LiteralType::Any(iref::IriBuf::new(format!("http://www.w3.org/2001/XMLSchema#{t}")).unwrap())))
}
fn string(s: &str) -> Term { lit(s, "string") }
fn build(docs: &[&str]) -> (Layouts, Vec<Ref<LayoutType>>) {
	let mut b = abs::Builder::new();
	let refs = docs.iter().map(|d| serde_json::from_str::<abs::syntax::Layout>(d).unwrap().build(&mut b).unwrap()).collect();
	(b.build(), refs)
}
type Q = (Term, Term, Term, Option<Term>);
fn ds(quads: &[Q]) -> IndexedBTreeDataset {
	quads.iter().cloned().map(|(s, p, o, g)| Quad(s, p, o, g)).collect()
}
fn hy(l: &Layouts, r: &Ref<LayoutType>, quads: &[Q], graph: Option<&Term>, inputs: &[Term]) -> Result<Value, String> {
	let v = tl::distill::hydrate_with(&(), &(), l, &ds(quads), graph, r, inputs).map_err(|e| e.to_string())?;
	Ok(v.into_untyped())
}
fn de(l: &Layouts, r: &Ref<LayoutType>, v: &str) -> Result<(Vec<String>, Vec<String>), String> {
	let v: Value = serde_json::from_str::<serde_json::Value>(v).unwrap().into();
	let (d, s) = distill::dehydrate(l, &v, r, Default::default()).map_err(|e| e.to_string())?;
	let mut q: Vec<String> = d.into_iter().map(|q| { let Quad(s, p, o, g) = q; let g = g.map(|g| format!(" {g}")).unwrap_or_default(); format!("{s} {p} {o}{g}") }).collect();
	q.sort();
	Ok((q, s.into_iter().map(|t| t.to_string()).collect()))
}
fn val(s: &str) -> Value { serde_json::from_str::<serde_json::Value>(s).unwrap().into() }
fn check(what: &str, ok: bool) { if !ok { eprintln!("FAILED: {what}"); std::process::exit(1) } }
'''
DEMO = r'''#!/bin/bash
# Exits 0 if the behaviour is right.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2> /dev/null || cp /opt/vp/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
treeldr-layouts = { path = "$repo/layouts", features = ["serde_cbor"] }
treeldr = { path = "$repo/generators/rust/treeldr-rs", features = ["macros"] }
rdf-types = "0.22.5"
iref = "3.1.4"
serde_json = "1.0"
serde_cbor = { version = "0.11.2", features = ["tags"] }
json-syntax = "0.12.3"
btree-range-map = "0.7.2"
[profile.dev]
debug = 0
incremental = false
EOF
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -q 2> "$tmp/log" || { grep -E "^error" -A8 "$tmp/log"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
'''
if "DEMO" in spec:
    open(f"{d}/demo.sh", "w").write(spec["DEMO"])
    for k, v in spec.get("FILES", {}).items():
        open(f"{d}/{k}", "w").write(v)
else:
    open(f"{d}/demo.sh", "w").write(DEMO)
    m = spec["MAIN"]
    open(f"{d}/main.rs", "w").write(m if "fn main" in m else PRELUDE + "\nfn main() {\n" + m + "\n}\n")
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
only = sys.argv[2:]
ok = True
try:
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); print("demo clean:", r.returncode, r.stdout[-1500:])
    ok &= r.returncode == 0
    for f, a, b in spec["EDITS"]:
        p = f"/repo/{f}"; s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    # changes lines of the original repository?
    sh("bash /opt/vp/build.sh")
    r = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
    base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/seed-test.json"))
    def names(x):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x: return set(x[k])
        raise Exception(list(x))
    missing = names(base) - names(res)
    print("tests missing:", missing); ok &= not missing
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); print("demo patched:", r.returncode, r.stdout[-600:])
    ok &= r.returncode not in (0, 3)
    for p in [PROP] + only:
        r = sh(f"bash /verif/check.sh {p} quick", cwd="/verif", env=dict(os.environ, VERIF_SEED="1")); print("check", p, r.returncode, r.stdout[-700:])
finally:
    sh("git -C /repo checkout -- .")
print("OK" if ok else "NOT OK", ID)
