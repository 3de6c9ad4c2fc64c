#!/usr/bin/env python3
"""check.py [--thorough] PROPERTY: decide one property on /repo's working tree.

1. The contract verifier (gvc) reads /repo's current source, generates the
   obligations of every contract that carries the property and discharges
   them with z3 / cvc5.
2. The stand-in harness replays the property against the real code, compiled
   from the same tree: it covers (bounded) the functions outside the
   verifier's reach, and it turns a failed obligation into a failing input.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")


def goenv(flags):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOFLAGS=flags + " -buildvcs=false", GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"),
             GOMODCACHE="/root/go/pkg/mod", HOME=e.get("HOME", "/root"))
    e.pop("GO111MODULE", None)
    return e


class Broken(Exception):
    pass


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def build_tool(name, src):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name + "-" + tree_hash(src))
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run(["go", "build", "-o", out + ".tmp", "."], cwd=src, env=goenv("-mod=mod"),
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken("cannot build %s: %s" % (name, r.stderr[-3000:]))
            os.rename(out + ".tmp", out)
            for f in os.listdir(BUILD):
                p = os.path.join(BUILD, f)
                if f.startswith(name + "-") and p != out:
                    os.remove(p)
    return out


def build_all():
    return build_tool("gvc", os.path.join(VERIF, "gvc")), build_tool("rewrite", os.path.join(VERIF, "tools", "rewrite"))


# ---- the verifier ----

SWEEPS = {"C23": 6, "C24": 6}  # properties of every function: verified in parallel parts


def run_gvc(gvc, prop, tier, scratch, res):
    tmo = 20000 if tier == "quick" else 120000
    base = [gvc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-timeout", str(tmo)]
    res["cmd"] = "gvc -repo /repo -contracts /verif/contracts -prop %s -timeout %d" % (prop, tmo)
    n = SWEEPS.get(prop, 1)
    parts = [None] * n

    def part(k):
        out = os.path.join(scratch, "gvc%d.json" % k)
        try:
            r = subprocess.run(base + ["-out", out, "-shard", str(k), "-shards", str(n)], capture_output=True, text=True,
                               env=goenv("-mod=readonly"), timeout=420 if tier == "quick" else 3000)
            so, se = r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            so, se = "", "the verifier ran out of time"
        try:
            with open(out) as f:
                parts[k] = (so, se, json.load(f))
        except Exception:
            parts[k] = (so, se, None)

    ts = [threading.Thread(target=part, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res["stdout"] = "".join(p[0] for p in parts)
    res["stderr"] = "".join(p[1] for p in parts)
    reps = [p[2] for p in parts]
    res["report"] = None
    if all(r is not None for r in reps):
        m = reps[0]
        for r in reps[1:]:
            for k in ("Functions", "Trusted"):
                m[k] = (m.get(k) or []) + (r.get(k) or [])
            for k in ("Problems", "Assumed", "Models"):
                m[k] = sorted(set((m.get(k) or []) + (r.get(k) or [])))
            for k in ("Queries", "SolverMs"):
                m[k] += r[k]
        res["report"] = m


# ---- the harness ----

def tests_of(prop):
    """directory of the harness -> kinds of tests it has for the property"""
    found = {}
    for d in sorted(os.listdir(HARN)):
        p = os.path.join(HARN, d)
        if d == "zz" or not os.path.isdir(p):
            continue
        names = set()
        for f in sorted(os.listdir(p)):
            if f.endswith("_test.go"):
                with open(os.path.join(p, f)) as fh:
                    names |= set(re.findall(r"^func (Test%s_\w+)\(" % prop, fh.read(), re.M))
        if names:
            found[d] = names
    return found


def overlay(rewrite, plain, scratch):
    d = os.path.join(scratch, "plain" if plain else "rewritten")
    os.makedirs(d, exist_ok=True)
    cmd = [rewrite, "-repo", REPO, "-out", d, "-harness", HARN] + (["-plain"] if plain else [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    return os.path.join(d, "overlay.json"), ""


def compile_tests(pkg, ov, race, scratch, tag):
    out = os.path.join(scratch, "%s-%s.test" % (pkg, tag))
    d = "." if pkg == "root" else "./" + pkg.replace("__", "/")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out] + (["-race"] if race else []) + [d]
    r = subprocess.run(cmd, cwd=REPO, env=goenv("-mod=readonly"), capture_output=True, text=True)
    return (out if r.returncode == 0 else None), r.stderr + r.stdout


FAIL = re.compile(r"^\s*--- FAIL: (\S+)", re.M)


def run_bin(binary, pkg, run, skip, tier, limit, pool, scratch):
    env = dict(os.environ)
    env.setdefault("VERIF_SEED", "1")
    env["VERIF_TIER"] = tier
    env["ZZ_SCRATCH"] = scratch
    env["GORACE"] = "halt_on_error=0 exitcode=66"
    env.pop("GVC_POOL", None)
    if pool:
        env["GVC_POOL"] = pool
    cwd = tempfile.mkdtemp(dir=scratch)
    cmd = [binary, "-test.v", "-test.run", run, "-test.timeout", "%ds" % limit, "-test.count=1"]
    if skip:
        cmd += ["-test.skip", skip]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=limit + 30, errors="replace")
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        def dec(b):
            return b.decode("utf-8", "replace") if isinstance(b, bytes) else (b or "")
        out, rc = dec(e.stdout) + dec(e.stderr) + "\npanic: test timed out (killed)", 124
    return rc, out


def failed_tests(rc, out):
    names = [n for n in dict.fromkeys(FAIL.findall(out)) if "/" not in n]
    if rc == 0:
        return []
    if not names:
        m = re.findall(r"^=== RUN\s+(\S+)", out, re.M)
        names = [m[-1].split("/")[0]] if m else ["(before any test)"]
    return names


def run_harness(rewrite, prop, tier, scratch, res, pool=None, deep=False):
    groups = tests_of(prop)
    res.update(cases=[], failures=[], notes=[], ran=[], skipped=[])
    kinds = {"race": r"_Race$", "plain": r"_Plain$"}
    limit = (200 if tier == "quick" else 2400)
    work = []
    for pkg, names in groups.items():
        norm = [n for n in names if not n.endswith("_Race") and not n.endswith("_Plain")]
        if norm:
            work.append((pkg, "rewritten"))
        if any(n.endswith("_Plain") for n in names):
            work.append((pkg, "plain"))
        if any(n.endswith("_Race") for n in names):
            work.append((pkg, "race"))
    ovs = {}
    lock = threading.Lock()

    def one(pkg, mode):
        tag = mode
        run = "^Test%s_" % prop
        skip = "_(Race|Plain)$"
        if mode == "plain":
            run, skip = "^Test%s_.*_Plain$" % prop, ""
        if mode == "race":
            run, skip = "^Test%s_.*_Race$" % prop, ""
        ov, err = ovs["rewritten" if mode == "rewritten" else "plain"]
        binary, msg = (None, err)
        if ov:
            binary, msg = compile_tests(pkg, ov, mode == "race", scratch, tag)
        if not binary and mode == "rewritten":
            with lock:
                res["notes"].append("package %s does not compile rewritten, run as it is: %s" % (pkg, msg[-600:]))
            if ovs["plain"][0]:
                binary, msg = compile_tests(pkg, ovs["plain"][0], False, scratch, "plainfb")
        if not binary:
            raise Broken("the harness for %s does not compile against /repo:\n%s" % (pkg, msg[-3000:]))
        rc, out = run_bin(binary, pkg, run, skip, tier, limit, pool, scratch)
        bad = failed_tests(rc, out)
        if bad:
            confirmed = []
            race = "WARNING: DATA RACE" in out
            for name in bad:
                if race:
                    confirmed.append((name, out))
                    continue
                for _ in range(3):
                    only = "^%s$" % name if name.startswith("Test") else run
                    rc2, out2 = run_bin(binary, pkg, only, "", tier, limit, pool, scratch)
                    if rc2 != 0:
                        confirmed.append((name, out2))
                        break
                else:
                    with lock:
                        res["notes"].append("%s failed once and then passed three times; not counted" % name)
                if len(confirmed) >= 3:
                    break
            with lock:
                for name, o in confirmed:
                    res["failures"].append({"package": pkg, "mode": mode, "test": name, "output": clip(o)})
        with lock:
            for m in re.findall(r"^ZZCOVER (.*)$", out, re.M):
                try:
                    c = json.loads(m)
                    c["mode"] = mode
                    res["cases"].append(c)
                except ValueError:
                    pass
            res["ran"] += ["%s (%s)" % (n, mode) for n in re.findall(r"^--- (?:PASS|FAIL): (\S+)", out, re.M)]
            res["skipped"] += ["%s (%s)" % (n, mode) for n in re.findall(r"^--- SKIP: (\S+)", out, re.M)]

    for k in {("rewritten" if m == "rewritten" else "plain") for _, m in work}:
        ovs[k] = overlay(rewrite, k == "plain", scratch)
    if any(m == "rewritten" for _, m in work) and "plain" not in ovs:
        ovs["plain"] = overlay(rewrite, True, scratch)
    errs = []

    def guarded(pkg, mode):
        try:
            one(pkg, mode)
        except Broken as e:
            errs.append(str(e))
        except Exception as e:  # noqa
            errs.append("%s: %r" % (pkg, e))

    ts = [threading.Thread(target=guarded, args=w) for w in work]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res["errors"] = errs


def clip(s, n=12000):
    s = "\n".join(l for l in s.splitlines() if not l.startswith("ZZCOVER") and not l.startswith("=== "))
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def pool_of(report, scratch):
    """values the countermodels name, for the harness to try"""
    p = {"Int": [], "Float": [], "Str": []}
    for f in (report or {}).get("Functions") or []:
        for o in f.get("Obligations") or []:
            if o["Status"] == "proved":
                continue
            for v in o.get("Values") or []:
                try:
                    if v["Sort"] == "Int":
                        n = int(v["Value"].replace("(- ", "-").replace(")", ""))
                        if -(1 << 63) <= n < 1 << 63:
                            p["Int"] += [n]
                    elif v["Sort"] in ("Float64", "Float32", "Real"):
                        p["Float"] += [float(v["Value"])]
                    elif v["Sort"] == "String":
                        p["Str"] += [v["Value"].strip('"')]
                except ValueError:
                    pass
    path = os.path.join(scratch, "pool.json")
    with open(path, "w") as f:
        json.dump({k: v[:40] for k, v in p.items()}, f)
    return path


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if "--build" in sys.argv:
        build_all()
        return 0
    prop = args[0]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    info = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(prop, tier, seed, info, scratch, t0)
    except Broken as e:
        print("check %s could not run: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, info, scratch, t0):
    gvc, rewrite = build_all()
    g, h = {}, {}
    tg = threading.Thread(target=run_gvc, args=(gvc, prop, tier, scratch, g))
    th = threading.Thread(target=run_harness, args=(rewrite, prop, tier, scratch, h))
    tg.start(); th.start(); tg.join(); th.join()
    if h["errors"]:
        raise Broken("; ".join(h["errors"]))
    rep = g["report"]
    obligations, discharged, verified, undecided, refuted, kinds = 0, 0, [], [], [], {}
    if rep is None:
        undecided.append("the verifier gave no report: " + (g["stderr"] or g["stdout"])[-800:])
    else:
        for p in rep.get("Problems") or []:
            undecided.append("contract not resolved against the source: " + p)
        for f in rep.get("Functions") or []:
            ok = True
            for o in f.get("Obligations") or []:
                obligations += 1
                kinds[o["Kind"]] = kinds.get(o["Kind"], 0) + 1
                if o["Status"] == "proved":
                    discharged += 1
                    continue
                ok = False
                what = "%s/%s: %s (%s at %s)" % (f["Key"], o["Name"], o["What"], o["Status"], o["Pos"])
                if o["Status"].startswith("refuted"):
                    refuted.append((what, o))
                else:
                    undecided.append(what)
            if f["Status"] == "verified":
                verified.append(f["Key"])
            elif f["Status"] == "trusted":
                pass
            elif ok:
                undecided.append("%s: %s %s" % (f["Key"], f["Status"], f.get("Why", "")))
        # vacuity: the contracts are there, and they generate obligations
        if obligations == 0:
            undecided.append("no obligation was generated")
    if (refuted or undecided) and not h["failures"] and rep is not None:
        h2 = {}
        run_harness(rewrite, prop, tier, scratch, h2, pool=pool_of(rep, scratch))
        if not h2["errors"]:
            h["failures"] = h2["failures"]
            h["cases"] += h2["cases"]
            h["notes"] += h2["notes"] + ["run again with the values of the countermodels"]

    replay_dir = os.path.join(EVID, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, prop + ".json")
    violations = 0
    line = None
    if h["failures"] or refuted:
        violations = max(1, len(h["failures"]))
        with open(replay, "w") as f:
            json.dump({
                "property": prop,
                "failing_inputs": h["failures"],
                "rerun": "cd /verif && VERIF_SEED=%d python3 check.py %s%s" % (seed, "--thorough " if tier == "thorough" else "", prop),
                "failed_obligations": [dict(o, Summary=w) for w, o in refuted],
                "undecided_obligations": undecided,
                "verifier_output": g.get("stdout", "")[-20000:],
            }, f, indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
        if not h["failures"]:
            line += " no-failing-input-found"
    elif os.path.exists(replay):
        os.remove(replay)

    cases = h["cases"]
    evaluations = sum(c["evaluations"] for c in cases)
    distinct = sum(c["distinct"] for c in cases)
    trusted = list(info.get("trusted", []))
    if rep:
        trusted += ["trusted contract, not verified: " + x for x in rep.get("Trusted") or []]
        trusted += ["assumed: " + x for x in rep.get("Assumed") or []]
        trusted += ["library model: " + x for x in rep.get("Models") or []]
    trusted += ["gvc: the translation from go/ssa to verification conditions", "z3 (z3-new) and cvc5", "the Go compiler and run time"]
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": g.get("cmd", ""), "trusted_base": trusted,
        "functions_under_contract": len(rep["Functions"]) if rep and rep.get("Functions") else 0,
        "functions_verified": verified,
        "obligations_by_kind": kinds,
        "undecided": undecided,
        "back_end": "z3-new, then cvc5" , "solver_ms": rep["SolverMs"] if rep else 0, "solver_calls": rep["Queries"] if rep else 0,
        "evaluations": evaluations, "distinct_nontrivial": distinct,
        "rule": "bounded stand-in, not counted as proved: " + info.get("bounded", "cases run against the real code"),
        "samples": [{"test": c["test"], "mode": c["mode"], "cases": c["evaluations"], "distinct": c["distinct"], "last": c["sample"]} for c in cases[:40]],
        "bounded_tests": sorted(set(h["ran"])), "bounded_skipped": sorted(set(h["skipped"])), "notes": h["notes"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"], "coverage": cov,
          "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, prop + ".json"))

    print("%s: %d functions under contract, %d of %d obligations discharged (%d ms solver); bounded stand-in: %d tests, %d cases; %.1f s" %
          (prop, cov["functions_under_contract"], discharged, obligations, cov["solver_ms"], len(cov["bounded_tests"]), evaluations, ev["wall_s"]))
    for u in undecided:
        print("undecided by the verifier, left to the bounded stand-in: " + u)
    for f in h["failures"]:
        print("failing input: %s (%s, %s)\n%s" % (f["test"], f["package"], f["mode"], f["output"][:3000]))
    for w, _ in refuted:
        print("failed obligation: " + w)
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
