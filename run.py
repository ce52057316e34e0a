#!/usr/bin/env python3
"""Driver of all checks: run.py <property>.

Builds the engines against /repo's current working tree, runs them for one property, prints
VIOLATION / KNOWN-FINDING lines and rewrites evidence/<property>.json.
Exit 0: held on everything explored.  1: violation.  2: the check could not decide.
"""
import json, os, subprocess, sys, time, hashlib, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()

sys.path.insert(0, HERE)


def rust_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_OPT_LEVEL="3", CARGO_PROFILE_DEV_DEBUG="0",
             RUST_BACKTRACE="0", VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    return e


def sh(cmd, cwd=None, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


class Fail(Exception):
    pass


def build_symex():
    e = rust_env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "symex-target")
    r = sh(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(HERE, "symex"), env=e)
    if r.returncode != 0:
        raise Fail("symex does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "symex")


def run_symex(prop, spec):
    """One process per worker-pool size; results are merged by the caller."""
    exe = build_symex()
    od = os.path.join(BUILD, "out")
    os.makedirs(od, exist_ok=True)
    procs = []
    for t in spec.get("threads", [None]):
        out = os.path.join(od, "%s.symex%s.json" % (prop, "" if t is None else ".t%d" % t))
        for f in (out, out + ".panic"):
            if os.path.exists(f):
                os.remove(f)
        e = rust_env()
        if t is not None:
            e["RAYON_NUM_THREADS"] = str(t)
        log = open(out + ".err", "w+")
        procs.append((t, out, log, subprocess.Popen([exe, prop, out], env=e, cwd=BUILD, stdout=log, stderr=log)))
    parts = []
    limit = T0 + (820 if TIER == "quick" else 6 * 3600)
    for t, out, log, p in procs:
        try:
            p.wait(timeout=max(5, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.seek(0)
        err = log.read()[-3000:]
        log.close()
        if os.path.exists(out):
            parts.append(json.load(open(out)))
            continue
        d = dict(functions=[], bounds=[], assumptions=[], errors=[], obligations=1, discharged=0, paths=0, replays=0, witnesses=0,
                 queries=0, unsat=0, sat=0, solver_s=0.0, query_bytes=0, labels={}, samples=[], violations=[])
        if os.path.exists(out + ".panic") and p.returncode == -6:
            x = json.load(open(out + ".panic"))
            if "SYMEX" in x["msg"]:
                d["errors"].append("engine: %s (%s) in %s" % (x["msg"], x["at"], x["label"]))
            else:
                m = "%s: the process is aborted by a panic in the worker pool: %s (%s)" % (x["label"], x["msg"], x["at"])
                d["violations"].append(dict(key="panic " + x["label"], desc=m, replay=m + "\npool threads: %s" % t))
        else:
            d["errors"].append("symex produced no result: rc=%s\n%s" % (p.returncode, err))
        parts.append(d)
    return parts


def run_llsym(prop):
    import llsym_driver
    try:
        return llsym_driver.run(prop, HERE, BUILD, TIER, SEED, rust_env())
    except llsym_driver.Fail as x:
        raise Fail(str(x))


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                key, _, what = l[len("finding: property=%s " % prop):].partition(" :: ")
                res.append((key.strip()[len("key="):], what))
    return res


def main():
    prop = sys.argv[1]
    from props_table import PROPS
    spec = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    parts, errors, violations = [], [], []
    for eng in spec["engines"]:
        try:
            ds = run_symex(prop, spec) if eng == "symex" else run_llsym(prop)
        except Fail as x:
            errors.append(str(x))
            continue
        for d in ds:
            d["engine"] = eng
            parts.append(d)
            errors += d["errors"]
            violations += d["violations"]
    known = known_findings(prop)
    new, seen = [], []
    for v in violations:
        k = [x for x in known if x[0] == v["key"]]
        if k:
            seen.append(k[0])
        else:
            new.append(v)
    for k in sorted(set(seen)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    if not violations and not errors:
        tot = sum(p["obligations"] for p in parts)
        q = sum(p["queries"] for p in parts)
        if tot == 0 or (q == 0 and not spec.get("noquery")):
            errors.append("vacuous run: %d obligations, %d queries" % (tot, q))
    S = lambda k: sum(p.get(k, 0) for p in parts)
    cov = {
        "explanation": "Bounded symbolic execution of the real code with SMT verdicts. " + spec["how"],
        "functions_encoded": sorted(set(f for p in parts for f in p["functions"])),
        "bounds": sorted(set(b for p in parts for b in p["bounds"])),
        "obligations": S("obligations"), "discharged": S("discharged"),
        "smt_queries": S("queries"), "unsat": S("unsat"), "sat": S("sat"),
        "solver_seconds": round(S("solver_s"), 3), "query_bytes": S("query_bytes"),
        "symbolic_paths": S("paths"), "instructions_interpreted": S("instructions"),
        "reachability_witnesses": S("witnesses"), "counterexamples_replayed": S("replays"),
        "samples": [s for p in parts for s in p.get("samples", [])][:6],
        "engines": spec["engines"], "inconclusive": errors[:5],
        "known_findings_seen": len(set(seen)),
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
          "coverage": cov, "assumptions": sorted(set(a for p in parts for a in p["assumptions"])),
          "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.txt" % prop)
        with open(path, "w") as f:
            for v in new:
                f.write("== %s\n%s\n\n%s\n\n" % (v["key"], v["desc"], v["replay"]))
        for v in new[:5]:
            print("  " + v["desc"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:8]:
            print("ERROR: " + e[:2000])
        return 2
    print("OK %s: %d obligations, %d SMT queries (%.1f s solver), %d paths, %.1f s" %
          (prop, cov["obligations"], cov["smt_queries"], cov["solver_seconds"], cov["symbolic_paths"], time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
