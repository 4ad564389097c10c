"""Which monitor binary decides which property."""
GROUPS = {
    "lite": dict(crate="lite", bin="lite", repo_packages=["analyzer-core", "analyzer-host", "analyzer-abstractions"]),
    "core": dict(crate="core", bin="p4core", repo_packages=["analyzer-core"]),
}
GROUPS["host"] = dict(crate="host", bin="p4host", repo_packages=["analyzer-core", "analyzer-host", "analyzer-abstractions"])
GROUPS["app"] = dict(crate="app", bin="p4app", repo_packages=["analyzer-core", "analyzer-host", "analyzer-abstractions", "p4-analyzer", "lsif-p4"], delay=True,
                     cargo_args=["-p", "p4app", "-p", "p4-analyzer", "-p", "lsif-p4"])
for _g in ("lite", "core", "host", "app"):
    GROUPS[_g + "-asan"] = dict(GROUPS[_g], target_suffix="-asan", target_dir="x86_64-unknown-linux-gnu/debug", rustflags="-Zsanitizer=address -Cdebug-assertions=on",
                                cargo_args=["--target", "x86_64-unknown-linux-gnu"] + GROUPS[_g].get("cargo_args", []), clean_args=["--target", "x86_64-unknown-linux-gnu"])
GROUPS["wasm"] = dict(crate="wasm", bin="p4wasm", repo_packages=["analyzer-core", "analyzer-host", "analyzer-abstractions", "p4-analyzer-wasm"])
GROUPS["js"] = dict()
CHECKS = {}
for _id in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12".split():
    CHECKS[_id] = dict(group="lite")
for _id in "C13 C14 C15 C16 C17 C18 C19 C20".split():
    CHECKS[_id] = dict(group="core")
for _id in "C21 C22 C23 C24 C25 C26 C27 C28 C29 C34 C42".split():
    CHECKS[_id] = dict(group="host")
for _id in "C30 C31 C32 C33 C36 C41".split():
    CHECKS[_id] = dict(group="app")
CHECKS["C35"] = dict()
for _id in "C38 C39 C40".split():
    CHECKS[_id] = dict(group="js")
CHECKS["C37"] = dict(group="wasm")
