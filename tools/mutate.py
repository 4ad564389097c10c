#!/usr/bin/env python3
"""mutate.py WORKER OUT SEED FILE=N...   samples N mutants of each FILE in a copy of /repo and of /verif (in /tmp/mutWORKER),
and runs the checks on each until one reports it. What no check reports is written to OUT for a look by hand."""
import os, random, re, shutil, subprocess, sys, time

worker, out, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
D = f"/tmp/mut{worker}"
V, R = D + "/verif", D + "/repo"
CORE = "C13 C14 C16 C17 C18 C15 C20 C19"
HOST = "C21 C22 C25 C24 C26 C23 C27 C28 C29 C34"
CHECKS = {
    "analyzer-core/src/lexer.rs": "C14 C13 C16 C17 C15 C18 C19 C20",
    "analyzer-core/src/preprocessor.rs": "C16 C17 C18 C14 C15 C20 C19 C13",
    "analyzer-core/src/parser.rs": "C03 C04 C05 C12",
    "analyzer-core/src/lsp_file.rs": "C01 C02 C25",
    "analyzer-core/src/lib.rs": "C20 C18 C15 C16 C13 C19 C25",
    "analyzer-core/src/base_abstractions.rs": "C20 C13 C18",
    "analyzer-abstractions/src/": "C09 C10 C11 C24 C30",
    "analyzer-host/src/json_rpc": "C06 C07 C08 C21 C23 C30",
    "analyzer-host/src/lsp/request.rs": "C23 C27 C29 C21",
    "analyzer-host/src/tracing.rs": "C28 C41 C21",
    "analyzer-host/src/lsp/progress.rs": "C29 C27 C23",
    "analyzer-host/src/lsp_impl/active_uninitialized": "C42 C22 C21 C29 C28",
    "analyzer-host/src/lsp_impl/initializing": "C42 C22 C21 C29 C28",
    "analyzer-host/src/lsp.rs": "C42 C28 C22 C30",
    "analyzer-host/src/": "C21 C22 C25 C24 C26 C23 C27 C28 C29 C34 C30",
    "p4-analyzer/src/driver": "C31 C30 C36 C41",
    "p4-analyzer/src/native_fs": "C32 C30 C36",
    "p4-analyzer/src/": "C36 C41 C30 C32 C31",
    "lsif-p4/src/": "C33",
    "p4-analyzer-wasm/src/": "C37",
    "packages/p4-analyzer/": "C38",
    "packages/p4-analyzer-vscode/": "C39",
    "tools/src/": "C40",
}
OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"\.\.=", [".."]), (r"(?<=[\w\)])\.\.(?=[\w])", ["..="]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"push_back\(", ["push_front("]), (r"pop_front\(", ["pop_back("]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\.rev\(\)", [""]), (r"\.trim\(\)", [""]), (r"\.clone\(\)\.or\(", [".and("]), (r"\b10\b", ["8"]), (r"\b16\b", ["10"]),
]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def setup():
    if os.path.exists(D):
        return
    os.makedirs(D)
    sh(f"cp -a /repo {R}; rm -rf {R}/target; mkdir {V}; cd /verif; cp -a check ub.py groups.py known_findings.txt harness standins {V}/; cp -a build {V}/ ; rm -rf {V}/build/target-asan {V}/build/miri*")
    sh(f"sed -i 's#\"/repo/#\"{R}/#' {V}/harness/*/Cargo.toml")


def mutants(path, n, rng):
    text = open(path).read()
    lines = text.split("\n")
    stop = next((i for i, l in enumerate(lines) if "cfg(test)" in l and i + 1 < len(lines) and "mod" in lines[i + 1]), len(lines))
    cand = []
    for i, l in enumerate(lines[:stop]):
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#", "pub use", "mod ", "import ", "*", "/*", "info!", "error!", "warn!", "trace!", "debug!")):
            continue
        if re.search(r"\+ (Send|Sync|'static|Debug|Clone|Serialize)|^(impl|pub trait|trait|pub\(crate\) (type|trait|fn)|type)\b", s):
            continue  # bounds
        code = l.split("//")[0] if '"' not in l else l
        for pat, subs in OPS:
            for m in re.finditer(pat, code):
                for sub in subs:
                    cand.append((i, l[:m.start()] + sub + l[m.end():]))
        if s.endswith(";") and re.match(r"^[\w\.\(\*]", s) and not s.startswith(("let ", "return", "const", "type", "break", "continue", "pub ", "static", "fn ")) and s.count("(") == s.count(")"):
            cand.append((i, l[:len(l) - len(l.lstrip())] + "/* dropped */"))
            cand.append((i, l[:len(l) - len(l.lstrip())] + "/* dropped */"))
    rng.shuffle(cand)
    seen, got = {}, []
    for i, t in cand:
        if seen.get(i, 0) >= 2 or t == lines[i]:
            continue
        seen[i] = seen.get(i, 0) + 1
        got.append((i, lines[i], t, "\n".join(lines[:i] + [t] + lines[i + 1:])))
        if len(got) == n:
            break
    return text, got


setup()
rng = random.Random(seed)
for spec in sys.argv[4:]:
    f, n = spec.split("=")
    rel = f if f.startswith(("packages/", "tools/")) else "crates/" + f
    path = f"{R}/{rel}"
    checks = next(v for k, v in CHECKS.items() if f.startswith(k)).split()
    text, got = mutants(path, int(n), rng)
    for i, old, new, whole in got:
        open(path, "w").write(whole)
        t0 = time.time()
        verdict = None
        for c in checks:
            r = sh(f"timeout 400 {V}/check {c}", env=dict(os.environ, P4A_REPO=R, VERIF_WALL_CAP="8"))
            if "VIOLATION" in r.stdout:
                verdict = "caught " + c + " " + " ".join(l for l in r.stdout.splitlines() if "signature" in l.lower())[:80]
                break
            if "error[" in r.stdout or "error:" in r.stdout or "could not compile" in r.stdout or r.returncode == 3:
                verdict = "does not build"
                break
            if r.returncode not in (0, 4):
                verdict = f"no answer {c} {r.returncode} " + r.stdout[-300:]
        with open(out, "a") as o:
            o.write(f"{'SURVIVED' if verdict is None else verdict}\t{f}:{i + 1}\t{old.strip()}\t->\t{new.strip()}\t{time.time() - t0:.0f}s\n")
    open(path, "w").write(text)
