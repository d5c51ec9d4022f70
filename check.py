#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: verify the functions the property rests on against their
contracts, from /repo's current source; on a failed obligation look for a failing input to replay.

check.py --replay <file>: run the failing input of a replay file against the current /repo."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PROOF_LIMIT = {"quick": 560, "thorough": 780}
SEARCH = {"quick": 24, "thorough": 60}      # seconds, on 8 processes, after a failed proof
SAMPLE = {"quick": 2, "thorough": 20}       # seconds, on 4 processes, after a complete proof
GO = ["/opt/veriftools/go1.27.3/bin"]


def env(work):
    e = dict(os.environ)
    e["PATH"] = ":".join(GO + [e.get("PATH", "/usr/bin:/bin")])
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOFLAGS_EXTRA="")
    e.setdefault("HOME", "/root")
    cache = e.get("GOCACHE") or os.path.join(e["HOME"], ".cache", "go-build")
    try:
        os.makedirs(cache, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=cache)
        t.close()
    except OSError:
        e["GOCACHE"] = os.path.join(work, "gocache")
    return e


def run(cmd, limit, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, **kw)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace")


def build_gover(work, e):
    return run(["go", "build", "-o", os.path.join(work, "gover"), "."], 300, cwd=os.path.join(HERE, "gover"), env=e)


def build_harness(work, e):
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {f"{REPO}/verifharness/{os.path.basename(p)}": p for p in glob.glob(f"{HERE}/harness/*.go")}}, f)
    # a copy of go.mod keeps the go command from touching the one of the repository
    mod = os.path.join(work, "go.mod")
    shutil.copy(f"{REPO}/go.mod", mod)
    if os.path.exists(f"{REPO}/go.sum"):
        shutil.copy(f"{REPO}/go.sum", os.path.join(work, "go.sum"))
    return run(["go", "build", "-modfile", mod, "-overlay", ov, "-o", os.path.join(work, "harness"), "./verifharness"], 300, cwd=REPO, env=e)


def search(work, prop, seconds, seed, procs):
    """Runs the harness on several seeds; gives (failing case or None, number of cases, problems)"""
    def one(k):
        out = os.path.join(work, f"case{k}.json")
        prog = os.path.join(work, f"progress{k}")
        rc, txt = run([os.path.join(work, "harness"), "-prop", prop, "-seconds", str(seconds), "-seed", str(seed * 64 + k),
                       "-out", out, "-progress", prog], seconds + 90, env=dict(os.environ, GOMEMLIMIT="2GiB"))
        if rc == 1 and os.path.exists(out):
            return json.load(open(out)), 0, ""
        if rc == 0:
            w = txt.split("CASES ")
            return None, int(w[1].split()[0]) if len(w) > 1 else 0, ""
        # the process died (a panic in another goroutine, a deadlock of all) or is stuck
        try:
            b = open(prog, "rb").read(16)
            names = run([os.path.join(work, "harness"), "-prop", prop, "-list"], 20)[1].split("\n")
            c = {"property": prop, "check": names[int.from_bytes(b[:8], "little")], "seed": int.from_bytes(b[8:], "little", signed=True),
                 "failure": "the process ended" if rc is not None else "the process did not go on", "stack": txt[-3000:]}
            return c, 0, ""
        except Exception as x:
            return None, 0, f"harness ended with {rc}: {txt[-400:]} ({x})"
    found, n, probs = None, 0, []
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        for c, k, p in ex.map(one, range(procs)):
            n += k
            if p:
                probs.append(p)
            if c and not found:
                found = c
    if found:
        # confirm that it fails again
        f = os.path.join(work, "confirm.json")
        json.dump(found, open(f, "w"))
        for _ in range(5):
            rc, txt = run([os.path.join(work, "harness"), "-replay", f], 90)
            if rc != 0:
                return found, n, probs
        probs.append("not reproduced: " + json.dumps(found)[:500])
        found = None
    return found, n, probs


def known_findings(prop):
    """lines 'known: property=<id> function=<f> obligation=<o> :: <what fails>' of known-findings.txt"""
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=" + prop + " "):
                head, _, what = l.rstrip("\n").partition(" :: ")
                d = dict(w.split("=", 1) for w in head.split()[1:])
                d["what"] = what
                r.append(d)
    return r


def main():
    if sys.argv[1] == "--replay":
        work = tempfile.mkdtemp(prefix="verif-")
        try:
            rc, txt = build_harness(work, env(work))
            if rc != 0:
                print(txt)
                return 2
            rc, txt = run([os.path.join(work, "harness"), "-replay", sys.argv[2]], 120)
            print(txt)
            return 1 if rc != 0 else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        return check(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work):
    t0 = time.time()
    e = env(work)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_gover, work, e)
        b = ex.submit(build_harness, work, e)
        (rc, txt), (hrc, htxt) = a.result(), b.result()
    if rc != 0:
        print("cannot build the verifier:", txt)
        return 2
    have_harness = hrc == 0
    if not have_harness:
        print("the harness does not build against /repo:", htxt[-2000:])
    cmd = [os.path.join(work, "gover"), "-contracts", os.path.join(HERE, "contracts"), "-repo", REPO, "-prop", prop, "-out", os.path.join(work, "result.json")]
    if tier == "thorough":
        cmd.append("-thorough")
    rc, txt = run(cmd, PROOF_LIMIT[tier], env=e)
    try:
        res = json.load(open(os.path.join(work, "result.json")))
    except Exception:
        res = {"error": f"the verifier gave no result (exit {rc}): {txt[-2000:]}"}
    failed = list(res.get("failed") or [])
    errors = list(res.get("errors") or [])
    if res.get("error"):
        errors.append(res["error"])
    known, hit = known_findings(prop), []
    rest = []
    for f in failed:
        k = [d for d in known if d.get("function") == f["function"] and d.get("obligation", "").replace("_", " ") in f["obligation"].replace("_", " ")]
        if k:
            hit += [d for d in k if d not in hit]
        else:
            rest.append(f)
    failed = rest
    for d in hit:
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    proved = not failed and not errors and res.get("obligations", 0) > 0
    case, cases, probs = None, 0, []
    if have_harness:
        case, cases, probs = search(work, prop, (SAMPLE if proved else SEARCH)[tier], seed, 4 if proved else 8)
    for p in probs:
        print("note:", p)
    violated = bool(case) or not proved
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": res.get("obligations", 0), "discharged": res.get("discharged", 0),
            "checker_cmd": "gover -prop " + prop + " (verification conditions from /repo's SSA form; z3 4.8.12, z3 5.3.2, cvc5 1.1.2)",
            "trusted_base": res.get("trusted", []) or ["gover"],
            "functions_under_contract": res.get("functions", []),
            "discharged_by_solver": res.get("by_solver", {}),
            "solver_queries": res.get("queries", 0), "solver_seconds": round(res.get("solver_s", 0), 2),
            "element_theory": res.get("mode", ""),
            "known_findings": [d["what"] for d in hit],
            "sampled_cases": cases,
        },
        "assumptions": res.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violated else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {res.get('discharged', 0)} of {res.get('obligations', 0)} obligations discharged over {len(res.get('functions', []) or [])} functions; {cases} sampled cases; {time.time() - t0:.1f}s")
    if not violated:
        return 0
    for x in errors[:8]:
        print("not verified:", x)
    for f in failed[:8]:
        print(f"obligation failed: {f['function']}: {f['obligation']} [{f['answer']}]")
    rep = {
        "property": prop,
        "failed_obligations": failed[:60], "errors": errors[:60],
        "input": case, "verifier_output": txt[-20000:],
        "how_to_replay": f"python3 {HERE}/check.py --replay <this file>" if case else "no failing input: run the check again",
    }
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    s = json.dumps(rep, indent=1)
    path = os.path.join(HERE, "replays", f"{prop}-{hashlib.sha256(s.encode()).hexdigest()[:12]}.json")
    open(path, "w").write(s)
    if case:
        print(f"failing input: {case['check']}: {case['failure']}")
        print(f"VIOLATION property={prop} replay={path}")
    else:
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    return 1


if __name__ == "__main__":
    sys.exit(main())
