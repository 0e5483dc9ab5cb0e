#!/usr/bin/env python3
"""Decides one property: builds the monitored harness from /repo's working tree and runs it.

usage: check.py ID [--tier quick|thorough] [--seed N] [--suite S --case I]
exit 0: held on everything explored; 1: VIOLATION; 2: no answer (does not build, too few observations, ...)
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
RACE = {"C19"}            # decided by the race detector: built with -race
OUT = os.path.join(HERE, "out")
LIMIT = {"quick": 840, "thorough": 6 * 3600}


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
    e.setdefault("HOME", "/root")
    if not shutil.which("go", path=e.get("PATH", "")):
        e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["GORACE"] = "halt_on_error=1 history_size=3"
    return e


def build(race, dest):
    cmd = ["go", "build", "-tags", "verif", "-o", dest] + (["-race"] if race else []) + ["."]
    # go.mod is copied, so that a build never edits committed files
    mod = os.path.join(os.path.dirname(dest), "go.mod")
    shutil.copy(os.path.join(HERE, "harness", "go.mod"), mod)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(os.path.dirname(dest), "go.sum"))
    cmd[2:2] = ["-modfile", mod]
    return subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=goenv(), capture_output=True, text=True)


def known():
    """known-findings.txt: lines 'finding: property=<id> suite=<suite> match=<regex> what=<text>'; 'fixed:' lines suppress nothing"""
    r = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) suite=(\S+) match=(.*?) what=(.*)$", l.strip())
            if m:
                r.append(m.groups())
    except FileNotFoundError:
        pass
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--suite", default="")
    ap.add_argument("--case", type=int, default=-1)
    a = ap.parse_args()
    pid = a.id
    if a.tier not in LIMIT:
        a.tier = "quick"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="booverif-")
    try:
        return run(pid, a, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, a, work, t0):
    race = pid in RACE
    binf = os.path.join(work, "vh")
    b = build(race, binf)
    if b.returncode != 0:
        print(b.stdout + b.stderr)
        print("no answer: the harness does not build against /repo")
        return 2
    res, cur = os.path.join(work, "result.json"), os.path.join(work, "cur")
    cmd = [binf, "-prop", pid, "-seed", str(a.seed), "-tier", a.tier, "-out", res, "-cur", cur]
    if a.suite:
        cmd += ["-suite", a.suite]
    if a.case >= 0:
        cmd += ["-case", str(a.case)]
    env = goenv()
    env["TMPDIR"] = work
    env["GOTRACEBACK"] = "all"
    p = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=open(os.path.join(work, "stderr"), "w"), text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(30, LIMIT[a.tier] - (time.time() - t0)))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = -999
    err = open(os.path.join(work, "stderr"), errors="replace").read()
    sys.stdout.write(out)
    viol, data = [], None
    if os.path.exists(res):
        data = json.load(open(res))
        viol = data.get("violations") or []
    where = open(cur).read().split() if os.path.exists(cur) else []
    if data is None or rc not in (0, 1, 3):
        mine = "rmera/boo" in err
        kind = None
        if "WARNING: DATA RACE" in err and mine:
            kind = "data race reported by the race detector"
        elif ("panic:" in err or "fatal error:" in err) and mine and rc == 2:
            kind = "the process crashed inside the library: " + (re.search(r"(panic: .*|fatal error: .*)", err).group(1))
        if kind is None:
            print(err[-4000:])
            print("no answer: the harness ended with status %s" % rc)
            return 2
        i = max(err.find("WARNING: DATA RACE"), 0)
        viol = [{"suite": where[0] if where else "?", "case": int(where[1]) if len(where) > 1 else -1, "msg": kind, "stack": err[i:i + 12000]}]
        print(kind)
        print(err[i:i + 3000])
    kf, rest = known(), []
    for v in viol:
        k = [f for f in kf if f[0] == pid and f[1] == v["suite"] and re.search(f[2], v["msg"])]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0][3]))
        else:
            rest.append(v)
    if data is None:
        data = {"property": pid, "evaluations": 0, "distinct_nontrivial": 0, "rule": "aborted by a violation", "samples": [], "observed": {}, "assumptions": [], "level": "exploration"}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": data.get("level", "exploration"),
        "coverage": {
            "evaluations": data["evaluations"], "distinct_nontrivial": data["distinct_nontrivial"], "rule": data["rule"],
            "samples": data.get("samples") or [], "observed": data.get("observed") or {},
        },
        "assumptions": (data.get("assumptions") or []) + ["the built-in generators reach the inputs that matter; a run shows only what it executed",
                                                          "the Go compiler, runtime" + (", race detector" if race else "") + " and gonum are trusted"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(rest),
    }
    if not (a.suite or a.case >= 0):
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if rest:
        os.makedirs(OUT, exist_ok=True)
        v = rest[0]
        rp = os.path.join(OUT, "%s-seed%d.json" % (pid, a.seed))
        with open(rp, "w") as f:
            json.dump({"property": pid, "seed": a.seed, "tier": a.tier,
                       "replay": "cd %s && python3 check.py %s --seed %d --tier %s --suite %s --case %d" % (HERE, pid, a.seed, a.tier, v["suite"], v["case"]),
                       "violations": rest[:20]}, f, indent=1)
        for v in rest[:3]:
            print("%s/%s: %s" % (v["suite"], v["case"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if rc != 0:
        print("no answer: too few observations: %s" % data.get("inconclusive"))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
