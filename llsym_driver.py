"""Engine C: builds llsym and the harness crates' bitcode from /repo's working tree, runs the harnesses of one
property in parallel and replays every counterexample natively."""
import fcntl, hashlib, json, os, re, subprocess, time

P_BLS = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001


class Fail(Exception):
    pass


def _sh(cmd, env, cwd=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def build_engine(here, build, env):
    od = os.path.join(build, "llsym")
    r = _sh(["bash", os.path.join(here, "llsym", "build.sh"), od], env)
    if r.returncode != 0:
        raise Fail("llsym does not build:\n" + (r.stdout + r.stderr)[-3000:])
    return os.path.join(od, "llsym")


def build_crate(here, build, env, crate):
    """Bitcode of the harness crate together with /repo's code as it is now."""
    od = os.path.join(build, "ll_" + crate)
    os.makedirs(od, exist_ok=True)
    with open(os.path.join(od, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = _sh(["bash", os.path.join(here, "llsym", "bc.sh"), os.path.join(here, "llsym", crate), od], env)
    if r.returncode != 0:
        raise Fail("harness crate %s does not build against /repo:\n%s" % (crate, (r.stdout + r.stderr)[-3000:]))
    return os.path.join(od, crate + ".bc"), os.path.join(od, crate + ".replay")


def check_dump(dump, model, kind):
    """Evaluate the constraints the native run emitted: the honest witness or the adversarial assignment."""
    sys_, cur, val, outs = [], [{}, {}, {}], {1000000: 1}, []
    for l in open(dump):
        p = l.split()
        if p[0] == "reset":
            sys_, cur, val, outs = [], [{}, {}, {}], {1000000: 1}, []
        elif p[0] == "var":
            val[int(p[1])] = int(p[2])
        elif p[0] == "term":
            c = int(p[3], 16)
            if c >= 1 << 255:
                c -= 1 << 256
            d = cur[int(p[1])]
            d[int(p[2])] = d.get(int(p[2]), 0) + c
        elif p[0] == "end":
            sys_.append(cur)
            cur = [{}, {}, {}]
        elif p[0] == "out":
            outs.append(int(p[1]))
    hon = dict(val)
    if kind == "second":
        for k, v in model.items():
            if k.startswith("v"):
                val[int(k[1:])] = int(v)
    ev = lambda f: sum(c * val[i] for i, c in f.items()) % P_BLS
    bad = [i for i, c in enumerate(sys_) if (ev(c[0]) * ev(c[1]) - ev(c[2])) % P_BLS]
    diff = [o for o in outs if val[o] != hon[o]]
    if kind == "second":
        if not bad and diff:
            return "%d constraints all satisfied, outputs %s differ from the honest witness" % (len(sys_), diff[:6])
        return None
    return "the honest witness fails constraint %d of %d" % (bad[0], len(sys_)) if bad else None


def replay(exe, harness, args, v, od, name):
    """Native run on the counterexample. Returns a description if it confirms the violation."""
    mf = os.path.join(od, name + ".model")
    with open(mf, "w") as f:
        for k, x in sorted(v["model"].items()):
            if not k.startswith("v"):
                f.write("%s %s\n" % (k, x))
    dump = os.path.join(od, name + ".dump")
    if os.path.exists(dump):
        os.remove(dump)
    env = dict(os.environ, LL_DUMP=dump, RUST_BACKTRACE="0")
    env.pop("LLSYM_TRACE", None)
    cmd = [exe, harness, mf] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "native run does not terminate within 120 s", cmd
    if r.returncode in (1, 4):
        return r.stdout.strip()[-400:], cmd
    if r.returncode < 0:
        return "native run dies with signal %d: %s" % (-r.returncode, (r.stdout + r.stderr)[-300:]), cmd
    if os.path.exists(dump):
        c = check_dump(dump, v["model"], "second" if "second assignment" in v["tag"] else "honest")
        if c:
            return c, cmd
    return None, cmd


def run(prop, here, build, tier, seed, env):
    from ll_jobs import JOBS
    jobs = JOBS[prop]
    todo = []
    exe = build_engine(here, build, env)
    bcs = {}
    for j in jobs:
        if j.get("tier") == "thorough" and tier != "thorough":
            continue
        if j["crate"] not in bcs:
            bcs[j["crate"]] = build_crate(here, build, env, j["crate"])
        for a in j["args"]:
            todo.append((j, a))
        if tier == "thorough":
            for a in j.get("thorough", []):
                todo.append((j, a))
    od = os.path.join(build, "out", "ll_" + prop)
    os.makedirs(od, exist_ok=True)
    t0 = time.time()
    limit = 760 if tier == "quick" else 6 * 3600
    parts, live, todo2 = [], [], list(todo)
    nproc = max(2, min(8, os.cpu_count() or 4))

    def judge(j, a, out, err, rc):
        d = dict(functions=[], bounds=[], assumptions=[], errors=[], obligations=0, discharged=0, paths=0, replays=0, witnesses=0,
                 queries=0, unsat=0, sat=0, solver_s=0.0, query_bytes=0, samples=[], violations=[], instructions=0)
        call = "%s(%s)" % (j["h"], ", ".join(str(x) for x in a))
        err.seek(0)
        et = err.read()[-1500:]
        err.close()
        if not os.path.exists(out):
            d["errors"].append("llsym produced no result for %s: rc=%s %s" % (call, rc, et))
            return d
        x = json.load(open(out))
        for k in ("obligations", "discharged", "paths", "queries", "unsat", "sat", "instructions"):
            d[k] = x[k]
        d["solver_s"] = x["solver_s"]
        d["functions"] = [f for f in x["functions"] if "bellman" in f or "groth16" in f]
        d["bounds"] = [j["bounds"]]
        d["assumptions"] = j.get("assumptions", [])
        d["witnesses"] = sum(x["reached"].values())
        d["errors"] = list(x["errors"])
        if x["asserts"]:
            k = sorted(x["asserts"])[0]
            d["samples"] = ["%s: %s (%d)" % (call, k, x["asserts"][k])]
        for want in j.get("reach", []):
            if not x["reached"].get(want) and not x["violations"]:
                d["errors"].append("%s never reached '%s'" % (call, want))
        if x["paths"] == 0 and not x["violations"] and not x["errors"] and not j.get("nopath"):
            d["errors"].append("%s: no path completed" % call)
        for n, v in enumerate(x["violations"]):
            d["replays"] += 1
            conf, cmd = replay(bcs[j["crate"]][1], j["h"], a, v, od, os.path.basename(out) + ".%d" % n)
            if conf:
                key = "%s %s" % (call, re.sub(r"\d{3,}", "N", v["tag"]))
                mod = {k: v["model"][k] for k in sorted(v["model"])[:400]}
                d["violations"].append(dict(key=key, desc="%s: %s; replayed natively: %s" % (call, v["msg"], conf),
                                            replay="command: %s\nmodel: %s\nnative result: %s" % (" ".join(cmd), json.dumps(mod), conf)))
            elif "panic" in v["tag"] and "overflow" in v["msg"]:
                d["errors"].append("%s: %s (not confirmed natively)" % (call, v["msg"]))
            else:
                d["errors"].append("%s: counterexample not confirmed by the native run: %s" % (call, v["msg"]))
        return d

    def reap(block):
        while live:
            for i, (p, j, a, out, err) in enumerate(live):
                if p.poll() is not None or time.time() - t0 > limit + 30:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
                    live.pop(i)
                    parts.append(judge(j, a, out, err, p.returncode))
                    if parts[-1]["violations"]:  # confirmed natively: the property is refuted, stop here
                        todo2.clear()
                        for x in live:
                            x[0].kill()
                            x[0].wait()
                        live.clear()
                    return
            if not block:
                return
            time.sleep(0.02)
    while todo2 or live:
        while todo2 and len(live) < nproc:
            j, a = todo2.pop(0)
            name = "_".join([j["h"]] + [str(x) for x in a])
            if len(name) > 100:
                name = name[:60] + hashlib.sha1(name.encode()).hexdigest()[:10]
            out = os.path.join(od, name + ".json")
            if os.path.exists(out):
                os.remove(out)
            err = open(out + ".err", "w+")
            e = dict(env, LLSYM_DEADLINE=str(max(20, limit - (time.time() - t0))))
            cmd = ["bash", "-c", 'ulimit -v %d; exec "$@"' % (24 << 20), "x", exe, bcs[j["crate"]][0], j["h"], out] + [str(x) for x in a]
            live.append((subprocess.Popen(cmd, env=e, stdout=err, stderr=err), j, a, out, err))
        reap(True)
    if not parts:
        raise Fail("no harness runs for " + prop)
    if not any(p["functions"] for p in parts) and not any(p["violations"] or p["errors"] for p in parts):
        raise Fail("the harnesses of %s executed no function of bellman" % prop)
    return parts
