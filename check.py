#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--thorough].

Builds the harness crate of /verif/kani against /repo's current tree, has Kani verify every contract harness of the
property, writes evidence/<ID>.json, and on failure replays the verifier's counterexample natively.

Exit codes: 0 -- everything discharged; 1 -- violation; 2 -- no answer (tool failure, timeout, /repo doesn't build...).
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
# Another place for the repository is for development only.
REPO_AT = os.environ.get("FXV_REPO", REPO)
JOBS = os.environ.get("FXV_JOBS", "8")

KANI_FLAGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "restrict-vtable", "-Z", "unstable-options",
              "--no-assertion-reach-checks", "--solver", "minisat"]


def sh(cmd, cwd, timeout, out, env=None):
    """Run a command with its own process group, kill the group upon timeout."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env or ENV, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
    return rc, open(out, errors="replace").read()


def make_env():
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Awarnings"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    for v in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(v, None)
    return env


ENV = make_env()


def make_crate(work, real_deps=False):
    src = os.path.join(VERIF, "kani")
    os.makedirs(work, exist_ok=True)
    if os.path.exists(work + "/src"):
        shutil.rmtree(work + "/src")
    shutil.copytree(src + "/src", work + "/src")
    feats = sorted({m.group(1) for m in (re.match(r"([a-z]\d\d)", n) for n in os.listdir(src + "/src")) if m})
    toml = open(src + "/Cargo.toml.in").read()
    toml = toml.replace("#FEATURES#", "\n".join(f"{f} = []" for f in feats))
    toml = toml.replace("#SHIMS#", os.path.join(VERIF, "shims"))
    if real_deps:
        toml = re.sub(r'(?m)^(parking_lot|tokio) = \{ path.*\n', "", toml)
        toml = toml.replace('default-features = false }', 'features = ["sync"] }')
    toml = toml.replace(f'"{REPO}/', f'"{REPO_AT}/')
    open(work + "/Cargo.toml", "w").write(toml)
    lock = REPO_AT + "/Cargo.lock"
    if not os.path.exists(lock):
        lock = "/opt/vp/Cargo.lock.fieldx"
    shutil.copy(lock, work + "/Cargo.lock")


def parse(text):
    """Kani's terse output into a list of harness results."""
    cur, res, thread = {}, {}, None
    r = None
    for l in text.splitlines():
        m = re.match(r"(?:(Thread \d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            name = m.group(2)
            cur[m.group(1)] = name
            res[name] = {"name": name, "status": "UNFINISHED", "checks": 0, "failed": [], "covers": (0, 0), "time": 0.0}
            r = res[name]
            continue
        m = re.match(r"(Thread \d+):\s*$", l)
        if m:
            r = res.get(cur.get(m.group(1)))
            continue
        if r is None:
            continue
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
        if m:
            r["checks"] = int(m.group(2))
            r["nfailed"] = int(m.group(1))
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            r["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            r["failed"].append([m.group(1), ""])
        m = re.match(r' File: (.*)', l)
        if m and r["failed"]:
            r["failed"][-1][1] = m.group(1)
        if l.startswith("CBMC timed out") or "timed out" in l:
            r["status"] = "TIMEOUT"
        m = re.match(r"VERIFICATION:- (\S+)", l)
        if m and r["status"] != "TIMEOUT":
            r["status"] = m.group(1)
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            r["time"] = float(m.group(1))
    return list(res.values())


# Failures that say nothing about the property
TOOLING = re.compile(r"unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding|"
                     r"MIR .* not available|drop unsized rvalue")


def real_failures(r):
    return [f for f in r["failed"] if not TOOLING.search(f[0])]


def playback(work, feat, feats, r, log):
    """Get the counterexample and run the very same harness natively with it. Returns the text to report, and if the
    violation has been reproduced."""
    name = r["name"]
    rc, out = sh(["cargo", "kani", "--features", feats, *KANI_FLAGS, "--exact", "--harness", name, "-Z",
                  "concrete-playback", "--concrete-playback=print"], work, 300, log + ".cex.txt")
    # The verifier produces a trace for every failed check, and for every cover statement too.
    cexs = [m.group(2) for m in re.finditer(r"/// Check for `(\w+)`.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                                            out, re.S) if m.group(1) != "cover"] or [""]
    lib = work + "/src/lib.rs"
    saved = open(lib).read()
    tests = "".join(f"""
#[test]
fn fxv_replay_{i}() {{
    let vals: Vec<Vec<u8>> = vec![{vals}
    ];
    kani::concrete_playback_run(vals, crate::{name});
}}
""" for i, vals in enumerate(cexs[:6]))
    open(lib, "w").write(saved + "\n#[cfg(kani)]\nmod fxv_replay_mod {" + tests + "}\n")
    reproduced, vals, pout = False, cexs[0], ""
    try:
        for i, v in enumerate(cexs[:6]):
            rc, o = sh(["cargo", "kani", "playback", "-Z", "concrete-playback", "-Z", "function-contracts", "-Z",
                        "stubbing", "--features", feats, "--", f"fxv_replay_{i}", "--nocapture"], work, 300,
                       log + ".replay.txt")
            o = o[max(0, o.find("\nrunning 1 test")):] if "running 1 test" in o else o[-3000:]
            pout, vals = o, v
            reproduced = ("panicked at" in o and "environment step is blocked" not in o
                          and "concrete value" not in o.lower() and "`kani::assume`" not in o)
            if reproduced:
                break
    finally:
        open(lib, "w").write(saved)
    report = (f"Harness: {name}\n\nFailed obligations:\n" + "\n".join(f"  {a}\n    at {b}" for a, b in r["failed"]) +
              f"\n\nCounterexample (values of the harness' symbolic inputs, in order):\n{vals}\n\n"
              f"Native replay of the harness with these values ({'reproduced' if reproduced else 'not reproduced'}):\n" +
              "\n".join(pout.splitlines()[-40:]) + "\n")
    return report, reproduced


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    feat = pid.lower()
    feats = feat + (",thorough" if thorough else "")
    info = json.load(open(os.path.join(VERIF, "checks.json")))[pid]
    t0 = time.time()
    base = os.path.join(os.environ.get("FXV_BUILD", os.path.join(VERIF, ".build")), pid)
    work = base + "/crate"
    os.makedirs(base, exist_ok=True)
    make_crate(work)
    budget = 820 if not thorough else 7200

    def left():
        return max(10, budget - (time.time() - t0))

    def evidence(level, obligations, discharged, violations, extra):
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
            "coverage": {
                "obligations": obligations, "discharged": discharged,
                "checker_cmd": f"cargo kani --features {feats} " + " ".join(KANI_FLAGS),
                "trusted_base": TRUSTED + info.get("trusted", []),
                "functions_under_contract": info.get("functions", []),
                "back_end": "Kani 0.68.0 / CBMC 6, SAT back end minisat", "failed_obligations": violations, **extra,
            },
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
            "assumptions": ASSUMPTIONS + info.get("assumptions", []),
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)

    def violation(text, reproduced):
        path = f"{VERIF}/evidence/{pid}.replay.txt"
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        open(path, "w").write(text)
        print(text[:6000])
        print(f"VIOLATION property={pid} replay={path}" + ("" if reproduced else " no-failing-input-found"))

    def no_answer(why, text=""):
        evidence("proof", 0, 0, [], {"no_answer": why})
        print(text[-6000:])
        print(f"NO ANSWER property={pid}: {why}")
        sys.exit(2)

    htime = "10m" if not thorough else "40m"
    cmd = ["cargo", "kani", "--features", feats, "--output-format", "terse", *KANI_FLAGS, "-j", JOBS,
           "--harness-timeout", htime]
    rc, out = sh(cmd, work, left(), base + "/kani.txt")
    results = parse(out)

    if not results:
        # Nothing was verified. Either it is the tool, or the declarations don't compile anymore.
        errs = compile_errors(out)
        if not errs:
            no_answer("the verifier has failed to start", out)
        rc, bout = sh(["cargo", "check", "--offline", "--features", "sync,async,serde"], REPO_AT + "/fieldx", left(),
                      base + "/repo.txt", env={**ENV, "CARGO_TARGET_DIR": base + "/repo-target"})
        if rc != 0:
            no_answer("/repo doesn't build", bout)
        real = base + "/real"
        make_crate(real, real_deps=True)
        rc, cout = sh(["cargo", "check", "--offline", "--features", feats], real, left(), base + "/real.txt")
        real_errs = [e for e in compile_errors(cout) if e[1].startswith("src/")]
        if rc not in (0, None) and real_errs:
            text = (f"Property {pid}: the declarations below are rejected by the compiler: the signature obligations of the "
                    f"generated code fail.\n\n" + "\n\n".join(e[2] for e in real_errs[:8]))
            evidence("proof", len(real_errs), 0, [{"harness": "declarations", "failed": [e[0] for e in real_errs]}], {})
            violation(text, True)
            sys.exit(1)
        no_answer("the harness crate doesn't compile", out)

    # Loop bounds are of the harness, not of the property: try again with a bigger one.
    again = [r for r in results if any("unwinding assertion" in f[0] for f in r["failed"]) and not real_failures(r)]
    if again:
        for d, _, fs in os.walk(work + "/src"):
            for f in fs:
                p = os.path.join(d, f)
                t = open(p).read()
                n = re.sub(r"kani::unwind\((\d+)\)", lambda m: f"kani::unwind({int(m.group(1)) + 6})", t)
                if n != t:
                    open(p, "w").write(n)
        sel = [a for r in again for a in ("--harness", r["name"])]
        rc, out2 = sh(cmd + ["--exact"] + sel, work, left(), base + "/kani2.txt")
        redone = {r["name"]: r for r in parse(out2)}
        results = [redone.get(r["name"], r) for r in results]

    expected = info.get("min_harnesses", 1)
    ok = [r for r in results if r["status"] == "SUCCESSFUL" and r["covers"][0] == r["covers"][1]]
    bad = [r for r in results if r["status"] != "SUCCESSFUL" and real_failures(r)]
    vacuous = [r for r in results if r["status"] == "SUCCESSFUL" and r["covers"][0] != r["covers"][1]]
    unknown = [r for r in results if r not in ok and r not in bad and r not in vacuous]
    obligations = sum(r["checks"] for r in results)
    failed = sum(r.get("nfailed", 0) for r in results)
    extra = {
        "harnesses": len(results), "harnesses_verified": len(ok),
        "solver_time_s": round(sum(r["time"] for r in results), 1),
        "vacuity_covers": [sum(r["covers"][0] for r in results), sum(r["covers"][1] for r in results)],
        "by_harness": [{"harness": r["name"], "obligations": r["checks"], "status": r["status"], "time_s": r["time"]}
                       for r in results],
    }
    violations = [{"harness": r["name"], "failed": [f"{a} ({b})" for a, b in r["failed"]]} for r in bad]
    evidence("proof", obligations, obligations - failed, violations, extra)

    if bad:
        bad.sort(key=lambda r: r["time"])
        reports, reproduced = [], False
        for r in bad[:3]:
            if left() < 120:
                break
            text, reproduced = playback(work, feat, feats, r, base + "/cex")
            reports.append(text)
            if reproduced:
                break
        if not reports:
            reports = ["\n".join(f"{v['harness']}: {v['failed']}" for v in violations)]
        head = (f"Property {pid}: {info['title']}\n\nFailed harnesses:\n" +
                "\n".join(f"  {v['harness']}\n" + "\n".join("      " + f for f in v["failed"]) for v in violations) + "\n\n")
        violation(head + "\n\n".join(reversed(reports)), reproduced)
        sys.exit(1)
    if vacuous:
        no_answer("harnesses have become vacuous: " + ", ".join(r["name"] for r in vacuous), out)
    if unknown or rc is None:
        no_answer("not decided: " + ", ".join(f"{r['name']} {r['status']} {r['failed']}" for r in unknown), out)
    if len(ok) < expected:
        no_answer(f"only {len(ok)} harnesses of {expected} expected", out)
    print(f"OK property={pid}: {len(ok)} harnesses, {obligations} obligations discharged in {time.time() - t0:.0f}s")


def compile_errors(text):
    """[(message, file, full text)] of rustc's errors"""
    res = []
    for m in re.finditer(r"(?m)^error(?:\[E\d+\])?: (.*)\n((?:(?!^error|^warning: |^\s*Compiling ).*\n?)*)", text):
        if re.match(r"could not compile|aborting due to", m.group(1)):
            continue
        f = re.search(r"-->\s*(\S+?):\d+", m.group(2))
        res.append((m.group(1), f.group(1) if f else "", m.group(0).rstrip()))
    return res


TRUSTED = [
    "Kani 0.68 / CBMC: translation of rustc's MIR, memory model, minisat",
    "rustc and the standard library (Option, Box, RefCell, Arc, OnceCell, mem::*), verified together with the code",
    "contract shim of parking_lot's raw locks under the real lock_api (/verif/shims/parking_lot)",
    "contract shim of tokio's batch semaphore and lock futures under tokio's real guards (/verif/shims/tokio)",
]
ASSUMPTIONS = [
    "universal over values, states, operations of the environment; enumerated over the declarations of the corpus "
    "(/verif/kani/src), which the real macro expands on every run",
    "sequentially consistent memory; locks of the dependencies behave as their contracts say; no panics unwinding",
    "machine integers are bit-precise, nothing is treated as mathematical",
]

if __name__ == "__main__":
    main()
