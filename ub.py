"""C35: no undefined behaviour. The workloads of the other checks under AddressSanitizer, and small ones under Miri."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, threading, time

MIRI = "nightly"
# kinds of cases (a: analyzer, c: completion source, p: pool, s: server session), flags, share of the time
BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
TREE = BASE + " -Zmiri-tree-borrows"
# Stacked Borrows alarms on the salsa stand-in, and borrow tracking of any kind slows the analyzer threefold
NONE = BASE + " -Zmiri-disable-stacked-borrows"
SHARDS = [("cp", TREE), ("as", NONE), ("a", NONE), ("as", TREE)]
# workloads under AddressSanitizer, and seconds for each
ASAN = [("lite-asan", c, 2) for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12".split()] \
    + [("core-asan", c, 5) for c in "C13 C15 C16 C17 C18 C19 C20".split()] \
    + [("host-asan", c, 5) for c in "C21 C22 C23 C24 C25 C26 C27 C28 C29 C34".split()] \
    + [("app-asan", c, 5) for c in "C30 C31 C32 C33 C36".split()]
GROUPS = sorted({g for g, _, _ in ASAN}, key=lambda g: "lite core host app".split().index(g[:-5]))
PACKAGES = ["analyzer-core", "analyzer-host", "analyzer-abstractions", "p4miri", "vcommon", "salsa", "salsa-macros"]


def miri_env(v, flags=""):
    b = v.BUILD + "/miri"
    return v.env(dict(CARGO_HOME=b + "/home", CARGO_TARGET_DIR=v.BUILD + "/target-miri", MIRIFLAGS=flags, RUSTUP_TOOLCHAIN=MIRI))


def build_miri(v):
    """Vendored crates, because one of them (proc-macro2) takes the newer compiler for one that still has a feature it dropped."""
    import fcntl
    crate, b = v.VERIF + "/harness/miri", v.BUILD + "/miri"
    os.makedirs(b + "/home", exist_ok=True)
    with open(v.BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = hashlib.sha256(open(crate + "/Cargo.lock", "rb").read()).hexdigest()
        done = b + "/vendored"
        if not os.path.exists(done) or open(done).read() != key:
            r = subprocess.run(["cargo", "vendor", "--offline", "--locked", b + "/vendor"], cwd=crate, env=v.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                v.log(r.stdout[-3000:])
                raise SystemExit(3)
            for d in os.listdir(b + "/vendor"):
                p = f"{b}/vendor/{d}/build.rs"
                if d.startswith("proc-macro2") and os.path.exists(p):
                    s = open(p).read()
                    open(p, "w").write(s.replace('&& feature_allowed("proc_macro_span_shrink")', "&& false"))
                    c = f"{b}/vendor/{d}/.cargo-checksum.json"
                    j = json.load(open(c))
                    j["files"] = {}
                    json.dump(j, open(c, "w"))
            open(b + "/home/config.toml", "w").write(f'[source.crates-io]\nreplace-with = "vendored-sources"\n[source.vendored-sources]\ndirectory = "{b}/vendor"\n')
            open(done, "w").write(key)
        stamp = v.BUILD + "/stamp-miri"
        h = v.tree_hash([v.REPO + "/crates", v.REPO + "/Cargo.lock", v.VERIF + "/harness", v.VERIF + "/standins"])
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            for p in PACKAGES:
                shutil.rmtree(f"{v.BUILD}/target-miri/miri/x86_64-unknown-linux-gnu/debug/build/{p}", ignore_errors=True)
        r = subprocess.run(["cargo", "miri", "run", "--offline", "--", "c", "0", "0", "0"], cwd=crate, env=miri_env(v, BASE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            out = r.stdout
            v.log(out[out.find("\nerror"):][:6000] if "\nerror" in out else out[-6000:])
            v.log("check: build for Miri failed")
            raise SystemExit(3)
        open(stamp, "w").write(h)



def miri(v, flags, kinds, first, count, seconds, log):
    """Runs cases under Miri. ('held' | 'ub' | 'other', observed ends, detail)"""
    with open(log, "wb") as f:
        p = subprocess.Popen(["cargo", "miri", "run", "--offline", "--", kinds, str(first), str(count), str(seconds)], cwd=v.VERIF + "/harness/miri",
                             env=miri_env(v, flags), stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(seconds + 200)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    text = open(log, errors="replace").read()
    ends = re.findall(r"^end (\d+) (\w) (.*)$", text, re.M)
    m = re.search(r"^error: Undefined Behavior.*", text, re.M)
    if m:
        cases = re.findall(r"^start (\d+)", text, re.M)
        return "ub", ends, (int(cases[-1]) if cases else first, text[m.start():][:3500])
    if rc == 0:
        return "held", ends, None
    # out of time amid a case: what was observed counts. Anything else (a panic outside what is caught, a deadlock, an
    # operation Miri does not know) is no undefined behaviour, and other checks judge it
    return "time" if rc is None else "other", ends, (None, text[-1500:])


def asan_env(e, logs):
    """The monitor and, where it starts any, the programs (as another user) write their reports into `logs`."""
    os.makedirs(logs, exist_ok=True)
    os.chmod(logs, 0o777)
    return dict(e, ASAN_OPTIONS=f"log_path={logs}/report:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1", VERIF_STACK=str(64 << 20))


def asan_report(rc, logs):
    for f in sorted(os.listdir(logs)):
        text = open(os.path.join(logs, f), errors="replace").read()
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
        if m and m.group(1) != "stack-overflow":
            return text[m.start():][:3500]
    return rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and f"the process died with signal {-rc}"


def asan(v, binary, check, e, work, seconds):
    d = f"{work}/{check}"
    os.makedirs(d, exist_ok=True)
    rc = v.run(binary, [check, "--out", d], dict(asan_env(e, d + "/asan"), VERIF_SHARDS="4", VERIF_WALL_CAP=str(seconds)), 300, d + "/log")
    rep = asan_report(rc, d + "/asan")
    ev = {}
    if os.path.exists(d + "/evidence.json"):
        ev = json.load(open(d + "/evidence.json"))["coverage"]
    found = None
    if rep:
        found = (f"asan:{check}:?", rep)
        data = open(d + "/current.bin", "rb").read()
        for off in range(0, len(data) - 23, 24):
            _, kind, value = struct.unpack("<QQQ", data[off:off + 24])
            if kind in (1, 2):
                opt, val = ("--case", str(value)) if kind == 1 else ("--probe", f"#{value}")
                if asan_single(v, binary, check, opt, val, e, work):
                    found = (f"asan:{check}:{opt}:{val}", rep)
                    break
    return rc, ev, found


def asan_single(v, binary, check, opt, val, e, work):
    logs = f"{work}/single-{check}-{opt}-{val.strip('#')}"
    rc = v.run(binary, [check, opt, val, "--out", work], asan_env(e, logs), 120, work + "/single.log")
    return asan_report(rc, logs)


def check(v, pid, tier, seed, e, work, replay=None):
    """(violations, evidence) or an exit code"""
    t0 = time.time()
    bins = {g: v.build(g) for g in GROUPS}
    build_miri(v)
    if replay:
        p = replay.split(":")
        if p[0] == "asan":
            group = dict((c, g) for g, c, _ in ASAN)[p[1]]
            if p[2] == "?":
                _, _, found = asan(v, bins[group], p[1], e, work, 60)
                out = found and found[1]
            else:
                out = asan_single(v, bins[group], p[1], p[2], p[3], e, work)
            print(out or "held")
            return 1 if out else 0
        _, kinds, flags, first, case = p
        for f, n in ((int(case), 1), (int(first), int(case) - int(first) + 1)):
            what, _, detail = miri(v, flags, kinds, f, n, 600, work + "/replay.log")
            if what == "ub":
                print(detail[1])
                return 1
        print("held")
        return 0
    thorough = tier == "thorough"
    shards = [(k, f, i) for i, (k, f) in enumerate(SHARDS * (2 if thorough else 1))]
    seconds = 1500 if thorough else 160
    results, lock = [], threading.Lock()

    def one(kinds, flags, i):
        flags = f"{flags} -Zmiri-seed={int(seed) * 16 + i}"
        first = int(seed) * 10_000_000 + i * 1_000_000
        r = miri(v, flags, kinds, first, 1_000_000, seconds, f"{work}/miri-{i}.log")
        with lock:
            results.append((kinds, flags, first) + r)

    threads = [threading.Thread(target=one, args=s) for s in shards]
    for t in threads:
        t.start()
    violations, observed, evaluations, samples = [], {}, 0, []
    distinct = set()
    nontrivial = 0
    os.chmod(work, 0o711)
    for g, c, s in ASAN:
        rc, ev, found = asan(v, bins[g], c, e, work, s * 8 if thorough else s)
        if found:
            violations.append(dict(replay=found[0], signature="asan", detail=f"AddressSanitizer, under the workload of {c}:\n{found[1]}"))
            observed[f"AddressSanitizer, cases of {c}"] = 0
            continue
        n = ev.get("observed", {}).get("cases", 0)
        observed[f"AddressSanitizer, cases of {c}"] = n
        if not n:
            v.log(f"under AddressSanitizer, the workload of {c} ended with {rc} before its end")
        evaluations += n
        nontrivial += ev.get("distinct_nontrivial", 0)
    for t in threads:
        t.join()
    names = dict(a="the analyzer", c="completion sources", p="the pool", s="the server")
    stopped = []
    for kinds, flags, first, what, ends, detail in results:
        tree = " with Tree Borrows" if "tree" in flags else ""
        for case, k, out in ends:
            key = f"Miri{tree}, cases of {names[k]}"
            observed[key] = observed.get(key, 0) + 1
            distinct.add((k, out))
            evaluations += 1
            if len(samples) < 4:
                samples.append(f"miri case {case} ({names[k]}): {out}"[:200])
        if what == "ub":
            violations.append(dict(replay=f"miri:{kinds}:{flags}:{first}:{detail[0]}", signature="miri", detail=f"Miri, case {detail[0]} of {names[kinds[0]]}…:\n{detail[1]}"))
        elif what == "other":
            stopped.append(detail[1])
            v.log("Miri stopped early:\n" + detail[1])
    observed["Miri runs that stopped early"] = len(stopped)
    observed["distinct results under Miri"] = len(distinct)
    if not violations:
        few = [k for k in (f"Miri, cases of {names['a']}", f"Miri, cases of {names['s']}", f"Miri with Tree Borrows, cases of {names['c']}", f"Miri with Tree Borrows, cases of {names['p']}") if not observed.get(k)]
        gone = [k for k in observed if k.startswith("Addr") and not observed[k]]
        if few or len(gone) > 3:
            v.log("observed too little:", few, gone)
            return 4
    ev = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
          "coverage": {"evaluations": max(evaluations, 1), "distinct_nontrivial": nontrivial + len(distinct),
                       "rule": "executions of the real code with every memory access checked: under AddressSanitizer, the non-trivial cases of the other checks; under Miri, cases with different results",
                       "samples": samples or ["none"], "observed": observed},
          "assumptions": ["AddressSanitizer sees the repository's code and its Rust dependencies, not the precompiled standard library",
                          "Miri runs newer versions of the compiler and the standard library than the build uses; salsa is a stand-in, which for its part has unsafe code"],
          "wall_s": time.time() - t0}
    return violations, ev
