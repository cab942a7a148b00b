#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough>: rebuild from /repo, run the monitored workload, write evidence, give the verdict.

exit 0: held on everything executed; 1 with a VIOLATION line: a monitor saw the property broken;
2: no verdict (the tree or the harness did not build, or the harness itself failed).
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{VERIF}/tools")
from props import CHECKS, RULES, ASSUME, LEVELS

OUT = os.environ.get("AXON_BUILD", f"{VERIF}/build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.72", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{OUT}/target",
           CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


def build(crates):
    os.makedirs(OUT, exist_ok=True)
    with open(f"{OUT}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, f"{VERIF}/tools/mkws.py"], check=True)
        cmd = ["cargo", "build", "--offline"]
        for c in crates:
            cmd += ["-p", c]
        r = subprocess.run(cmd, cwd=f"{OUT}/ws", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def known():
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return {}
    return {(f["property"], f["key"]): f for f in json.load(open(p)) if f.get("status") == "known"}


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    crate, q, t = CHECKS[pid]
    budget = t if tier == "thorough" else q
    t0 = time.time()
    rc, log = build([crate])
    if rc:
        print(log[-6000:])
        print(f"NO VERDICT: property={pid} the tree or the harness does not build")
        sys.exit(2)
    built = time.time() - t0
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    out = f"{scratch}/report.json"
    cmd = [f"{OUT}/target/debug/{crate}", pid, "--tier", tier, "--seed", str(seed), "--out", out,
           "--scratch", f"{scratch}/w", "--budget", str(budget)]
    try:
        try:
            r = subprocess.run(cmd, env=ENV, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=600 if tier == "quick" else 840)
            code, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            code, log = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else str(e.stdout)
        rep = json.load(open(out)) if os.path.exists(out) else None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # what was observed before the harness gave up stays observed
    judged = rep and any((pid, v["key"]) not in known() for v in rep["violations"])
    if rep is None or code not in (0, 1) and not (code == 3 and judged):
        print(log[-4000:])
        print(f"NO VERDICT: property={pid} harness ended with {code}", rep and rep.get("crashed"))
        sys.exit(2)
    kn = known()
    fresh, old = [], []
    for v in rep["violations"]:
        (old if (pid, v["key"]) in kn else fresh).append(v)
    c = rep["counters"]
    rule = RULES.get(pid) or "cases are generated from the seed; a case counts once per distinct value the oracle judged"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVELS[pid],
        "coverage": {
            "evaluations": int(c.get("oracle.judgements", 0)),
            "distinct_nontrivial": rep["distinct"],
            "rule": rule,
            "samples": rep["samples"],
            "events_observed": c,
            "distinct_by_kind": rep["kinds"],
            "notes": rep["notes"],
            "known_findings_seen": [v["key"] for v in old],
        },
        "assumptions": ASSUME.get(pid, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['key']}: {v['what'][:300]}")
    print(f"{pid} {tier} seed={seed}: {ev['coverage']['evaluations']} judgements, {rep['distinct']} distinct, "
          f"build {built:.1f}s, run {rep['wall_s']:.1f}s")
    if fresh:
        os.makedirs(f"{OUT}/replay", exist_ok=True)
        path = f"{OUT}/replay/{pid}.json"
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "violations": fresh,
                       "rerun": f"VERIF_SEED={seed} python3 {VERIF}/check.py {pid} {tier}"}, f, indent=1)
        for v in fresh[:20]:
            print(f"  [{v['key']}] {v['what'][:600]}  {json.dumps(v['detail'])[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if not ev["coverage"]["evaluations"]:
        print(f"NO VERDICT: property={pid} the monitor judged nothing")
        sys.exit(2)


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        # one by one, as the checks do: cargo unites the features of what is built together
        for c in sorted({c for c, _, _ in CHECKS.values()}):
            rc, log = build([c])
            print(log[-1500:])
            if rc:
                sys.exit(rc)
        sys.exit(0)
    main()
