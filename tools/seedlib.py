"""Helpers to author a planted bug: seed(id, prop, edits, main, needs, breaks, kind).
Applies the edits to /repo, takes the diff, confirms build + stable tests, demo fails with it and passes without it,
runs the property's check, restores /repo. Usage: python3 tools/seedlib.py FILE.py [ids] where FILE calls seed()."""
import json, os, shutil, subprocess, sys, hashlib

V, R = "/verif", "/repo"
ONLY = sys.argv[2:]

HEAD = '''#!/bin/bash
# Exit 0 if the tree behaves, nonzero if not. Run in the repository's root after its build.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
T=/tmp/p4a-demo-@ID@
rm -rf /tmp/p4a-demo-@ID@
mkdir -p $T/src
export CARGO_TARGET_DIR=$T/target
cp "$R/Cargo.lock" $T/Cargo.lock
cp "$D/main.rs" $T/src/main.rs
'''
TAIL = '''(cd $T && cargo build --offline -q 2>$T/build.log) || { tail -50 $T/build.log; echo "demo does not build"; rm -rf /tmp/p4a-demo-@ID@; exit 2; }
timeout 120 $T/target/debug/demo
rc=$?
rm -rf /tmp/p4a-demo-@ID@
exit $rc
'''
# the demo under AddressSanitizer, or under Miri
UNDER = {"asan": '''(cd $T && RUSTFLAGS=-Zsanitizer=address cargo build --offline -q --target x86_64-unknown-linux-gnu 2>$T/build.log) || { tail -50 $T/build.log; echo "demo does not build"; rm -rf /tmp/p4a-demo-@ID@; exit 2; }
timeout 120 $T/target/x86_64-unknown-linux-gnu/debug/demo 2>&1 | grep -v "^$" | head -20
rc=${PIPESTATUS[0]}
rm -rf /tmp/p4a-demo-@ID@
exit $rc
''', "miri": '''cd $T
cargo vendor --offline $T/vendor >/dev/null 2>$T/build.log || { tail -50 $T/build.log; echo "demo does not build"; rm -rf /tmp/p4a-demo-@ID@; exit 2; }
# the newer compiler has dropped a feature that this crate looks for
sed -i 's/&& feature_allowed("proc_macro_span_shrink")/\\&\\& false/' $T/vendor/proc-macro2/build.rs
sed -i 's/"files":{[^}]*}/"files":{}/' $T/vendor/proc-macro2/.cargo-checksum.json
mkdir $T/home
printf '[source.crates-io]\\nreplace-with = "v"\\n[source.v]\\ndirectory = "%s/vendor"\\n' $T > $T/home/config.toml
export CARGO_HOME=$T/home MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-many-seeds=0..8"
unset RUSTUP_TOOLCHAIN
timeout 250 cargo +nightly miri run --offline -q >$T/out 2>&1
rc=$?
grep -q "^error: Undefined Behavior\\|^error: could not compile" $T/out || [ $rc = 0 ] || rc=2
tail -30 $T/out
rm -rf /tmp/p4a-demo-@ID@
exit $rc
'''}
TOML = '''cat > $T/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
X
'''
WASM = "wasm-bindgen wasm-bindgen-macro wasm-bindgen-futures js-sys console_error_panic_hook".split()
APP = "glob ctrlc xflags async-thread tracing-appender lsp-types".split()
KINDS = {
    # the file itself, as a module of the demo
    "file": ('''sed -i "s|@REPO@|$R|g" $T/src/main.rs\n''', 'logos = "0.12.1"\nparking_lot = "0.12.1"\nanyhow = "1"\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"\nthiserror = "1"'),
    "rpc": ("ln -s $R/crates/analyzer-host/src/json_rpc.rs $R/crates/analyzer-host/src/json_rpc $T/src/\n", 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\nthiserror = "1"'),
    "abs": ("", 'analyzer-abstractions = { path = "$R/crates/analyzer-abstractions" }\nfutures = "0.3.25"\ncancellation = "0.1.0"'),
    # with the stand-in for salsa that lies beside the demo
    "core": ("", 'analyzer-core = { path = "$R/crates/analyzer-core" }\nlogos = "0.12.1"\n[patch."https://github.com/salsa-rs/salsa"]\nsalsa-2022 = { path = "$D/salsa" }'),
    "host": ("", 'analyzer-host = { path = "$R/crates/analyzer-host" }\nanalyzer-abstractions = { path = "$R/crates/analyzer-abstractions" }\nasync-channel = "1.7.1"\ncancellation = "0.1.0"\nfutures = "0.3.25"\nlsp-types = "0.93.2"\nserde_json = "1"\nserde = "1"\n[patch."https://github.com/salsa-rs/salsa"]\nsalsa-2022 = { path = "$D/salsa" }'),
    # the WebAssembly module, natively, with stand-ins for JavaScript
    "wasm": ('cp "$D/Cargo.lock" $T/Cargo.lock\n', 'p4-analyzer-wasm = { path = "$R/crates/p4-analyzer-wasm" }\nwasm-bindgen = "0.2"\njs-sys = "0.3"\nserde_json = "1"\n[patch."https://github.com/salsa-rs/salsa"]\nsalsa-2022 = { path = "$D/salsa" }\n[patch.crates-io]\n'
             + "".join(f'{c} = {{ path = "$D/{c}" }}\n' for c in WASM if not c.endswith("macro")).rstrip()),
    # the programs, in $T/target/debug, with the stand-ins that lie beside the demo
    "app": ("", 'p4-analyzer = { path = "$R/crates/p4-analyzer" }\nlsif-p4 = { path = "$R/crates/lsif-p4" }\nanalyzer-host = { path = "$R/crates/analyzer-host" }\nanalyzer-abstractions = { path = "$R/crates/analyzer-abstractions" }\nserde_json = "1"\nqueues = "1.0.2"\ncancellation = "0.1.0"\ntokio = { version = "1.21.2", features = ["full"] }\n[patch."https://github.com/salsa-rs/salsa"]\nsalsa-2022 = { path = "$D/salsa" }\n[patch.crates-io]\n'
            + "".join(f'{c} = {{ path = "$D/{c}" }}\n' for c in APP).rstrip()),
}


JS = '''#!/bin/bash
# Exit 0 if the tree behaves, nonzero if not. Run in the repository's root.
D=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/p4a-demo-@ID@
mkdir -p /tmp/p4a-demo-@ID@
timeout 120 node "$D/demo.cjs" "$PWD" /tmp/p4a-demo-@ID@
rc=$?
rm -rf /tmp/p4a-demo-@ID@
exit $rc
'''
JS_PRE = r'''
const ts = require("/opt/veriftools/node/node_modules/typescript"), fs = require("node:fs"), path = require("node:path"), url = require("node:url"), Module = require("node:module");
const { PassThrough, Writable } = require("node:stream");
const [repo, scratch] = process.argv.slice(2);
// the package's modules, compiled; `stubs` stand in for what they import
function compile(src, stubs) {
	const out = path.join(scratch, path.basename(path.dirname(src)));
	(function walk(from, to) {
		fs.mkdirSync(to, { recursive: true });
		for (const f of fs.readdirSync(from, { withFileTypes: true })) {
			const p = path.join(from, f.name);
			if (f.isDirectory()) walk(p, path.join(to, f.name));
			else if (/[^d]\.ts$/.test(f.name)) fs.writeFileSync(path.join(to, f.name.replace(/ts$/, "js")), ts.transpileModule(fs.readFileSync(p, "utf8"), { compilerOptions: { target: ts.ScriptTarget.ES2021, module: ts.ModuleKind.CommonJS } }).outputText);
		}
	})(path.join(repo, src), out);
	const load = Module._load;
	Module._load = (request, ...rest) => stubs[request] ?? load(request, ...rest);
	return out;
}
const turn = () => new Promise(r => setImmediate(r));
function verdict(ok, what) { console.log(what); process.exit(ok ? 0 : 1); }
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "BUILD FAILED\n" + r.stdout[-3000:]
    r = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
    got = json.load(open("/tmp/seed-test.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    def passed(d):
        for k in ("stable", "passed"):
            if k in d:
                return set(d[k])
        raise SystemExit(f"?? {list(d)}")
    missing = passed(base) - passed(got)
    return f"TESTS FAIL {sorted(missing)}" if missing else None


def seed(id, prop, edits, main, needs, breaks, kind, checks=None, extra=None, under=None):
    if ONLY and id not in ONLY:
        return
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if kind == "js":
        open(f"{d}/demo.sh", "w").write(JS.replace("@ID@", id))
        open(f"{d}/demo.cjs", "w").write(JS_PRE + main)
    else:
        prep, deps = KINDS[kind]
        open(f"{d}/demo.sh", "w").write((HEAD + prep + TOML.replace("@DEPS@", deps) + TAIL).replace("@ID@", id))
        open(f"{d}/main.rs", "w").write(main)
    os.chmod(f"{d}/demo.sh", 0o755)
    if under:
        t = open(f"{d}/demo.sh").read()
        a = t.index("(cd $T && cargo build")
        open(f"{d}/demo.sh", "w").write(t[:a] + UNDER[under].replace("@ID@", id))
    if kind == "app":
        t = open(f"{d}/demo.sh").read().replace("cargo build --offline -q", "cargo build --offline -q -p demo -p p4-analyzer -p lsif-p4")
        open(f"{d}/demo.sh", "w").write(t)
    if kind in ("core", "host", "app", "wasm"):
        for s in ["salsa", "salsa-macros"] + (APP if kind == "app" else WASM if kind == "wasm" else []):
            shutil.rmtree(f"{d}/{s}", ignore_errors=True)
            shutil.copytree(f"{V}/standins/{s}", f"{d}/{s}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    if kind == "wasm":
        shutil.copy(f"{V}/harness/wasm/Cargo.lock", f"{d}/Cargo.lock")
    for f, t in (extra or {}).items():
        open(f"{d}/{f}", "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    good = sh(f"bash {d}/demo.sh", cwd=R)
    if good.returncode:
        print(f"{id}: DEMO FAILS ON GOOD TREE\n{good.stdout[-3000:]}")
        return
    try:
        for f, a, b in edits:
            p = f"{R}/{f}" if f.startswith(("packages/", "tools/")) else f"{R}/crates/{f}"
            t = open(p).read()
            assert t.count(a) == 1, f"{id}: {t.count(a)} matches of {a!r} in {f}"
            open(p, "w").write(t.replace(a, b))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        bad = stable()
        if bad:
            print(f"{id}: {bad}")
            return
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode in (0, 2):
            print(f"{id}: DEMO rc={r.returncode} with the patch\n{r.stdout[-2000:]}")
            return
        out = []
        for c in (checks or [prop]):
            q = sh(f"VERIF_SEED=1 VERIF_TIER=quick {V}/check {c}")
            out.append(f"{c}={q.returncode} {[l for l in q.stdout.splitlines() if 'VIOLATION' in l or 'KNOWN' in l or 'error' in l][:2]}")
        print(f"{id}: OK demo: {r.stdout.strip().splitlines()[-1:]} ; {' ; '.join(out)}", flush=True)
    finally:
        sh(f"git -C {R} checkout -- .")


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), dict(seed=seed, __name__="seeds"))
