#!/usr/bin/env python3
"""Checks one property of netscrape against /repo's working tree.

  check.py ID [TIER]      run the check (VERIF_SEED and, without TIER, VERIF_TIER in the environment)
  check.py replay FILE    run one saved case again
  check.py build          build the harness (both builds)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no answer (the harness or the build failed, or time ran out).
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
CORPUS = os.path.join(VERIF, "corpus")

sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # what each check runs


def env():
    e = dict(os.environ)
    e.update(
        HOME=os.environ.get("HOME") or "/root",
        PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOPATH="/root/go",
        GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
        GOFLAGS="-mod=mod -tags=safe", CGO_ENABLED="1",
    )
    return e


class NoAnswer(Exception):
    pass


def build(race):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "race.test" if race else "plain.test")
    tmp = "%s.%d" % (out, os.getpid())
    cmd = ["go", "test", "-c", "-vet=off", "-o", tmp] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(tmp):
        raise NoAnswer("the harness does not build against /repo:\n" + p.stdout[-4000:])
    os.rename(tmp, out)
    return out


PKG = "github.com/milosgajdos/netscrape"


def crash_error(log):
    """The error of a process that the code under test brought down, or None."""
    m = re.search(r"^(fatal error: .*|panic: .*)$", log, re.M)
    if not m:
        return None
    tail = log[m.start():]
    if "test timed out" in m.group(1) or "out of memory" in m.group(1):
        return None
    # the goroutine that died is printed first
    first = tail.split("\n\ngoroutine ")[1] if "\n\ngoroutine " in tail else tail
    if PKG in first or (PKG in tail and "concurrent map" in m.group(1)) or (PKG in tail and "stack overflow" in tail):
        return tail[:6000]
    return None


def run_test(binary, args, work, timeout, shard):
    rep, cur, log = (os.path.join(work, "%s-%d" % (n, shard)) for n in ("report", "case", "log"))
    e = env()
    e["GORACE"] = "halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 history_size=3"
    e["GOTRACEBACK"] = "all"
    f = open(log, "wb")
    p = subprocess.Popen([binary, "-test.timeout", "0", "-h.out", rep, "-h.cur", cur] + args, cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT)
    return dict(p=p, rep=rep, cur=cur, log=log, f=f, end=time.time() + timeout)


def finish(r):
    """-> (report or None, failure or None, log)"""
    try:
        r["p"].wait(max(0.1, r["end"] - time.time()))
        late = False
    except subprocess.TimeoutExpired:
        late = True
        r["p"].kill()
        r["p"].wait()
    r["f"].close()
    with open(r["log"], "rb") as f:
        log = f.read()
    if len(log) > 4 << 20:
        log = log[: 2 << 20] + b"\n...\n" + log[-(2 << 20):]
    log = log.decode("utf-8", "replace")
    rep = None
    if os.path.exists(r["rep"]):
        rep = json.load(open(r["rep"]))
        rep["hashes"] = set()
        if os.path.exists(r["rep"] + ".hash"):
            with open(r["rep"] + ".hash") as f:
                rep["hashes"] = set(f.read().split())
    if rep and rep.get("failure"):
        return rep, rep["failure"], log
    if late:
        raise NoAnswer("time ran out before the check was through\n" + log[-2000:])
    if rep and rep.get("done"):
        return rep, None, log
    err = crash_error(log)
    if err and os.path.exists(r["cur"]):
        fl = json.load(open(r["cur"]))
        fl["error"] = "the process died: " + err
        return rep, fl, log
    raise NoAnswer("the harness ended early (exit %s):\n%s" % (r["p"].returncode, log[-4000:]))


def save_replay(pid, fl):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps(fl, indent=1, ensure_ascii=True)
    name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps(fl["case"]).encode()).hexdigest()[:12])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write(body + "\n")
    return os.path.relpath(path, VERIF)


# Seconds after which a tier stops generating, at the end of a round. A tier
# that gets there reports the cases it ran.
BUDGET = {"quick": 300, "thorough": 700}


def check(pid, tier=None):
    t0 = time.time()
    spec = PLAN[pid]
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        raise NoAnswer("VERIF_TIER is %r" % tier)
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        raise NoAnswer("VERIF_SEED is no number")
    binary = build(spec["race"])
    # every shard runs its share of the cases with a seed of its own
    shards = spec.get("shards", {}).get(tier, 1)
    work = tempfile.mkdtemp(prefix="netscrape-%s-" % pid)
    reps, failure, log = [], None, ""
    try:
        budget = float(os.environ.get("VERIF_BUDGET") or BUDGET[tier])
        limit = max(840.0, budget * 1.3) - (time.time() - t0)
        runs = []
        for i in range(shards):
            s = (seed * 1000003 + i) % (1 << 63)
            args = ["-test.run", "^TestProp$", "-h.prop", pid, "-h.tier", tier, "-h.seed", str(s),
                    "-h.shards", str(shards), "-h.budget", str(budget)]
            if i == 0:
                args += ["-h.corpus", os.path.join(CORPUS, pid)]
            args += ["-h.scale", os.environ.get("VERIF_SCALE") or str(spec["scale"])]
            runs.append(run_test(binary, args, work, limit, i))
        noans = None
        for r in runs:
            try:
                rep, fl, lg = finish(r)
                if rep:
                    reps.append(rep)
                if fl and (failure is None or len(json.dumps(fl["case"])) < len(json.dumps(failure["case"]))):
                    failure, log = fl, lg
            except NoAnswer as e:
                noans = noans or e
        if failure is None and noans:
            raise noans
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    evidence(pid, tier, seed, spec, reps, 1 if failure else 0, wall)
    if failure:
        if "race" in failure["error"] and "DATA RACE" in log:
            i = log.rindex("WARNING: DATA RACE")
            failure["race_report"] = log[i:i + 4000]
        path = save_replay(pid, failure)
        print("%s: part %s: %s" % (pid, failure["part"], failure["error"]))
        print("case: %s" % json.dumps(failure["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    n = sum(p["cases"] for r in reps for p in r["parts"])
    print("%s holds on %d cases (%s tier, seed %d, %.1f s)" % (pid, n, tier, seed, wall))
    return 0


def evidence(pid, tier, seed, spec, reps, violations, wall):
    parts, samples = {}, []
    for r in reps:
        for p in r["parts"]:
            q = parts.setdefault(p["name"], dict(cases=0, rule=p["rule"], labels={}))
            q["cases"] += p["cases"]
            for k, v in (p.get("labels") or {}).items():
                q["labels"][k] = q["labels"].get(k, 0) + v
        if len(samples) < 6:
            samples += r.get("samples") or []
    cov = dict(
        evaluations=sum(p["cases"] for p in parts.values()),
        distinct_nontrivial=len(set().union(*[r["hashes"] for r in reps])) if reps else 0,
        rule="; ".join("[%s] %s" % (n, p["rule"]) for n, p in parts.items()),
        samples=samples[:6], parts=parts, shards=len(reps), race_detector=spec["race"],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=violations)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)


def replay(path, times):
    fl = json.load(open(path))
    pid = fl["property"]
    binary = build(PLAN[pid]["race"])
    work = tempfile.mkdtemp(prefix="netscrape-replay-")
    try:
        r = run_test(binary, ["-test.run", "^TestReplay$", "-h.replay", os.path.abspath(path), "-h.times", str(times)], work, 780, 0)
        rep, failure, log = finish(r)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if failure:
        print(failure["error"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the case passes")
    return 0


def main():
    try:
        if sys.argv[1] == "build":
            build(False)
            build(True)
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1)
        return check(*sys.argv[1:3])
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
