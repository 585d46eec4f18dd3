#!/usr/bin/env python3
"""Decides one property: builds its generated-input search from /repo's working tree, runs it in
parallel processes, writes evidence/<id>.json.

  run.py C01                 the tier in VERIF_TIER (quick), the seed in VERIF_SEED (1)
  run.py C01 --replay FILE   runs one replay file
Exit 0: held on everything explored. 1: VIOLATION line. 2: no verdict (error of the check)."""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MODULE = "gitlab.com/alephledger/threshold-ecdsa/"
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from table import PROPS  # noqa: E402

# for the properties with "race" in the table: the first race ends the process
GORACE = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
TRACE = re.compile(r"gitlab\.com/alephledger/threshold-ecdsa/|" + re.escape(REPO) + r"/(pkg|cmd)/")


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="-mod=readonly", GOTRACEBACK="all")
    e.setdefault("HOME", "/root")
    return e


class Check(Exception):
    pass


def overlay(work, extra=None):
    """Arguments for go that supply /repo's go.mod and go.sum (git ignores them there) where absent, and
    files added to packages of /repo."""
    rep = {}
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(REPO, f)):
            rep[os.path.join(REPO, f)] = os.path.join(HARNESS, "repo_gomod", f)
    for k, v in (extra or {}).items():
        rep[os.path.join(REPO, k)] = os.path.join(HARNESS, v)
    if not rep:
        return []
    fd, p = tempfile.mkstemp(suffix=".json", prefix="overlay-", dir=work)
    with os.fdopen(fd, "w") as f:
        json.dump({"Replace": rep}, f)
    return ["-overlay", p]


def build(prop, work):
    out = os.path.join(work, "props.test")
    race = ["-race"] if PROPS[prop].get("race") else []
    cmds = [(["go", "test", "-c", "-vet=off", *race, *overlay(work), "-o", out, "./props/" + PROPS[prop]["pkg"]], True)]
    for b in PROPS[prop].get("bins", []):
        cmds.append((["go", "build", *overlay(work, b.get("overlay")), "-o", os.path.join(work, b["name"]), MODULE + b["pkg"]], not b.get("optional")))
    for c, needed in cmds:
        r = subprocess.run(c, cwd=HARNESS, env=goenv(), capture_output=True, text=True, timeout=800)
        if r.returncode != 0 and needed:
            raise Check("build failed: %s\n%s" % (" ".join(c), (r.stdout + r.stderr)[-4000:]))
    return out


def end_all(procs):
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def known_keys(prop):
    """key -> description, from the committed list of findings."""
    res = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def save_replay(prop, rep):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rep["case"], sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (rep["facet"], h))
    with open(p, "w") as f:
        json.dump(rep, f, indent=1)
    return os.path.relpath(p, VERIF)


def ended_by_code(rc, log):
    """Whether the code under test ended the process: a panic outside of the goroutine of the test, or a race."""
    if "HARNESS-ERROR" in log or not TRACE.search(log):
        return False
    if rc == 66:
        return "WARNING: DATA RACE" in log
    return rc == 2 and ("panic: " in log or "fatal error: " in log) and not re.search(r"out of memory|cannot allocate|failed to create new OS thread", log)


def run(prop, tier, seed, work):
    binary = build(prop, work)
    info = PROPS[prop]
    out = os.path.join(work, "out")
    os.makedirs(out)
    shards = info.get("shards", 8)
    env = goenv()
    env["GORACE"] = GORACE
    env.update(PBT_PROP=prop, PBT_OUT=out, PBT_SHARDS=str(shards), PBT_TIER=tier, VERIF_SEED=str(seed),
               PBT_WORK=work, GOMAXPROCS=str(info.get("gomaxprocs", 2)), PBT_SHRINK="60s" if tier == "thorough" else "8s")
    limit = 780 if tier == "quick" else 4 * 3600
    end = time.time() + limit
    procs = []
    for i in range(shards):
        e = dict(env, PBT_SHARD=str(i))
        d = os.path.join(work, "cwd-%d" % i)
        os.makedirs(d)
        e["PBT_CWD"] = d
        log = open(os.path.join(out, "log-%d" % i), "wb")
        procs.append(subprocess.Popen([binary, "-test.timeout=0", "-test.run=^TestProps$"], cwd=d, env=e, stdout=log,
                                      stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True))
    # once something has failed, the others get some time to shrink what they have found
    grace = 45 if tier == "quick" else 300
    timed_out = cut = False
    failed = None
    try:
        while any(p.poll() is None for p in procs):
            if failed is None and glob.glob(os.path.join(out, "fail-*.json")):
                failed = time.time()
            cut = failed is not None and time.time() > failed + grace
            timed_out = not cut and time.time() > end
            if cut or timed_out:
                break
            time.sleep(0.05)
    finally:
        running = [p for p in procs if p.poll() is None]
        end_all(procs)

    violations, errors = [], []
    for f in sorted(glob.glob(os.path.join(out, "fail-*.json"))):
        with open(f) as fh:
            violations.append(json.load(fh))
    for i, p in enumerate(procs):
        with open(os.path.join(out, "log-%d" % i), errors="replace") as fh:
            log = fh.read()
        if p.returncode == 0 or cut and p in running:
            continue
        if p.returncode == 1 and glob.glob(os.path.join(out, "fail-*-%d.json" % i)) and "HARNESS-ERROR" not in log:
            continue
        if ended_by_code(p.returncode, log):
            # the code under test ended the process
            try:
                with open(os.path.join(out, "current-%d.json" % i), "rb") as fh:
                    raw = fh.read()
                n = int(raw[:12])
                rep = json.loads(raw[12:12 + n])
                m = re.search(r"(panic: |fatal error: |WARNING: DATA RACE)", log)
                rep["message"] = log[m.start():m.start() + 3000]
                violations.append(rep)
                continue
            except (OSError, ValueError) as ex:
                errors.append("shard %d crashed, no current case: %s" % (i, ex))
        errors.append("shard %d ended with %s: %s" % (i, p.returncode, log[-3000:]))
    if timed_out:
        errors.append("time limit of %d s reached: no verdict" % limit)

    # evidence
    facets = {}
    for f in sorted(glob.glob(os.path.join(out, "stats-*.json"))):
        with open(f) as fh:
            s = json.load(fh)
        a = facets.setdefault(s["facet"], dict(rule=s["rule"], evaluations=0, nontrivial=0, hashes=set(), labels={}, known={}, samples=[], cpu_s=0.0, known_sample={}))
        a["evaluations"] += s["evaluations"]
        a["nontrivial"] += s["nontrivial"]
        a["hashes"].update(s["hashes"] or [])
        a["cpu_s"] += s["wall_s"]
        for k, v in s["labels"].items():
            a["labels"][k] = a["labels"].get(k, 0) + v
        for k, v in s["known"].items():
            a["known"][k] = a["known"].get(k, 0) + v
        a["known_sample"].update(s["known_sample"])
        a["samples"] += s["samples"] or []
    listed = known_keys(prop)
    found = {}
    for name, a in facets.items():
        for k, v in a["known"].items():
            if k in listed:
                found[k] = found.get(k, 0) + v
            else:
                violations.append(dict(property=prop, facet=name, message="finding %s is not listed" % k, case=json.loads(a["known_sample"][k])))
    samples = []
    for name, a in sorted(facets.items()):
        for s in a["samples"][:2]:
            txt = json.dumps(s)
            samples.append({"facet": name, "case": s if len(txt) < 3000 else txt[:3000] + "..."})
    return dict(violations=violations, errors=errors, facets=facets, samples=samples, known=found, listed=listed, binary=binary, env=env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=sorted(PROPS))
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    begin = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        if a.replay:
            binary = build(a.prop, work)
            d = os.path.join(work, "cwd")
            os.makedirs(d)
            e = dict(goenv(), PBT_REPLAY=os.path.abspath(a.replay), PBT_WORK=work, PBT_CWD=d, GORACE=GORACE)
            # a race need not show every time
            for _ in range(30 if PROPS[a.prop].get("race") else 1):
                r = subprocess.run([binary, "-test.timeout=600s", "-test.run=^TestProps$", "-test.v"], cwd=d, env=e, capture_output=True, text=True)
                log = r.stdout + r.stderr
                if "REPLAY-FAILED" in log or ended_by_code(r.returncode, log):
                    sys.stdout.write(log)
                    print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                    return 1
                if r.returncode != 0 or "REPLAY-PASSED" not in log:
                    break
            sys.stdout.write(log)
            if "REPLAY-PASSED" in log and r.returncode == 0:
                return 0
            return 2
        res = run(a.prop, a.tier, seed, work)
        viol = sorted(res["violations"], key=lambda v: len(json.dumps(v["case"])))
        info = PROPS[a.prop]
        cov = dict(
            evaluations=sum(f["evaluations"] for f in res["facets"].values()),
            distinct_nontrivial=sum(len(f["hashes"]) for f in res["facets"].values()),
            rule="; ".join("[%s] %s" % (n, f["rule"]) for n, f in sorted(res["facets"].items())) or "no facet completed",
            samples=res["samples"],
            facets={n: dict(evaluations=f["evaluations"], nontrivial=f["nontrivial"], distinct_nontrivial=len(f["hashes"]),
                            classes=dict(sorted(f["labels"].items())), known_findings=f["known"], process_seconds=round(f["cpu_s"], 1)) for n, f in sorted(res["facets"].items())},
        )
        ev = dict(property=a.prop, tier=a.tier, seed=seed, level=info["level"], coverage=cov, assumptions=info.get("assumptions", []),
                  wall_s=round(time.time() - begin, 1), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for e in res["errors"]:
            print("ERROR:", e)
        for k, n in sorted(res["known"].items()):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (a.prop, res["listed"][k], n))
        for n, f in sorted(res["facets"].items()):
            print("%s/%s: %d cases, %d distinct non-trivial, %s" % (a.prop, n, f["evaluations"], len(f["hashes"]), json.dumps(f["labels"], sort_keys=True)))
        print("wall %.1f s" % (time.time() - begin))
        if viol:
            v = viol[0]
            path = save_replay(a.prop, v)
            print("facet %s: %s" % (v["facet"], v["message"][:3000]))
            print("case: %s" % json.dumps(v["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        return 2 if res["errors"] or not res["facets"] else 0
    except Check as e:
        print("ERROR:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
