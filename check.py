#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

1. contracts: extract the functions the property depends on from /repo, put the contracts of
   /verif/contracts on them and have Verus discharge every obligation (prove.py);
2. bounded replay: run the real code on generated cases against an independent oracle (replay/).

exit 0: held; exit 1: a VIOLATION line was printed; anything else: the check itself failed.
"""
import json, os, resource, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
import prove, propinfo

def sh(cmd, timeout, env=None, cwd=None, mem=None):
    def lim():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=cwd, preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        raise
    return p.returncode, out, err

def cargo_build(profile):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "replay"), RUSTFLAGS="-Zub-checks=yes", CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "+nightly", "build", "--offline", "--locked"] + (["--release"] if profile == "release" else [])
    rc, out, err = sh(cmd, 600, env=env, cwd=os.path.join(HERE, "replay"))
    if rc != 0:
        sys.stderr.write(err[-6000:])
        print("the replay harness does not build against /repo")
        sys.exit(2)
    return os.path.join(BUILD, "replay", "release" if profile == "release" else "debug", "replay")

def replay(exe, prop, seed, cases, ms, scratch):
    rc, out, err = sh([exe, "run", prop, str(seed), str(cases), str(ms), scratch], ms / 1000 + 120, mem=6 << 30)
    try:
        return json.loads(out)
    except Exception:
        sys.stderr.write(err[-3000:])
        print("the replay harness gave no result"); sys.exit(2)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = propinfo.PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, f"{prop}.json")
    scratch = tempfile.mkdtemp(prefix="vck.")
    lines, viols = [], 0
    try:
        # 1. the contracts (the harness builds and runs meanwhile)
        box = {}
        def contracts():
            try: box["proof"] = prove.prove(prop, tier, scratch, BUILD)
            except BaseException as e: box["error"] = e
        th = threading.Thread(target=contracts); th.start()
        # 2. the real code, bounded
        ms, cases = (info["ms"], info["cases"]) if tier == "quick" else (600_000, 10**9)
        exe = cargo_build("release")
        runs = [("release", exe, replay(exe, prop, seed, cases, ms, scratch))]
        # the library's own consistency assertions, on valid input
        if info.get("debug_ms") and not runs[0][2]["violations"]:
            dexe = cargo_build("debug")
            runs.append(("debug", dexe, replay(dexe, prop, seed + 7919, cases, info["debug_ms"] if tier == "quick" else 120_000, scratch)))
        th.join()
        if "error" in box: raise box["error"]
        proof = box["proof"]
        # an obligation failed and nothing was found yet: search deeper for a failing input before reporting it
        if proof.verdict == "failed" and not any(r["violations"] for _, _, r in runs):
            runs.append(("release", exe, replay(exe, prop, seed + 104729, 10**9, 60_000, scratch)))
        for profile, _, r in runs:
            for v in r["violations"]:
                viols += 1
                json.dump(dict(property=prop, kind="input", profile=profile, seed=seed, case=v["case"], input=v["input"], observed=v["what"],
                               how=f"cd {HERE} && CARGO_TARGET_DIR={BUILD}/replay RUSTFLAGS=-Zub-checks=yes cargo +nightly run --offline {'--release ' if profile == 'release' else ''}--manifest-path replay/Cargo.toml -- one {prop} <seed> {v['case']}",
                               failed_obligations=proof.failed), open(rfile, "w"), indent=1)
                break
            if viols: break
        if viols:
            lines.append(f"VIOLATION property={prop} replay={rfile}")
        elif proof.verdict == "failed":
            viols += 1
            json.dump(dict(property=prop, kind="obligation", failed_obligations=proof.failed, verifier_output=proof.output[-20000:]), open(rfile, "w"), indent=1)
            lines.append(f"VIOLATION property={prop} replay={rfile} no-failing-input-found")
        ev = sum(r["evaluations"] for _, _, r in runs); nt = sum(r["distinct_nontrivial"] for _, _, r in runs)
        cov = dict(proof.coverage)
        cov.update(evaluations=ev, distinct_nontrivial=nt, rule=info["rule"], samples=[s[:600] for s in runs[0][2]["samples"]][:4] or ["(none)"],
                   bounded_runs=[dict(profile=p, evaluations=r["evaluations"]) for p, _, r in runs])
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(dict(property=prop, tier=tier, seed=seed, level=info["level"] if info["level"] != "proof" or proof.verdict == "proved" else "exploration", coverage=cov, assumptions=proof.assumptions + info["assumptions"],
                       wall_s=round(time.time() - t0, 1), violations=viols), open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in json.load(open(os.path.join(HERE, "known-findings.json"))):
        if k.get("status") == "known" and k["property"] == prop: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: contracts {proof.verdict} ({proof.coverage.get('discharged')}/{proof.coverage.get('obligations')} obligations), {ev} bounded cases, {time.time() - t0:.0f} s")
    for r in proof.notes: print("  " + r)
    for l in lines: print(l)
    sys.exit(1 if viols else 0)

if __name__ == "__main__":
    main()
