#!/usr/bin/env python3
"""Runs the monitor of one property and turns what it observed into a verdict.

usage: check.py <property>

Exit 0: the property held on everything observed. Exit 1 with a VIOLATION
line: it did not. Anything else is an error of the check, never a verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
REPO = "/repo"

def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", CGO_ENABLED="1", GOSUMDB="off")
    return e

def load_checks():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)

def known_findings(prop):
    """key -> description of the findings recorded for this property."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)

def build(pkg, race, out):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        die("the monitor does not build against the current tree:\n" + p.stdout[-6000:])

def build_binary(out, race):
    cmd = ["go", "build", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./cmd/routedns")
    p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("routedns does not build:\n" + p.stdout[-6000:])

MOD = "github.com/folbricht/routedns"

def parse_races(text):
    """Race reports that involve the code under test, one key per pair of sites."""
    found = {}
    other = 0
    for block in re.split(r"={18,}\n", text):
        if "WARNING: DATA RACE" not in block:
            continue
        # the access stacks come before the goroutine creation stacks
        access = re.split(r"\nGoroutine \d+ \(", block)[0]
        frames = [f.split("(")[0] for f in re.findall(r"^  (\S+)\(\)$", access, re.M)]
        ours = [f for f in re.findall(r"^  (" + re.escape(MOD) + r"[^\s]*)\(\)$", access, re.M)]
        if not ours:
            other += 1
            continue
        parts = re.split(r"\n(?=Previous )", access)
        # state inside the QUIC and DTLS libraries, which they share between
        # their own goroutines and the caller's
        tops = [next((f for f in re.findall(r"^  (\S+)\(\)$", x, re.M) if not f.startswith(("runtime.", "sync", "internal/"))), "") for x in parts]
        if all(f.startswith(("github.com/quic-go/", "github.com/pion/")) for f in tops):
            other += 1
            continue
        sites = []
        for part in parts:
            m = re.search(r"^  (" + re.escape(MOD) + r"[^\s]*)\(\)$", part, re.M)
            if m:
                sites.append(re.sub(r"\.func\d+.*", "", m.group(1)).replace(MOD, "rdns"))
        key = "race:" + "|".join(sorted(set(sites)))
        found.setdefault(key, block.strip()[:5000])
    return found, other

def parse_crash(text):
    """A panic or fatal error raised in the code under test, or None."""
    m = re.search(r"^(panic: .*|fatal error: .*|SIGSEGV.*)$", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    # first goroutine trace after the message
    g = re.search(r"^goroutine \d+ .*?:\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
    stack = g.group(1) if g else tail
    frames = re.findall(r"^([\w./\-*()\[\]]+?)\(.*\)$", stack, re.M)
    frames = [f for f in frames if not f.startswith(("panic", "runtime.", "testing."))]
    first_ours = next((f for f in frames if f.startswith(MOD)), None)
    return m.group(1), first_ours, stack[:6000]

def main():
    if len(sys.argv) < 2:
        die("usage: check.py <property>")
    prop = sys.argv[1]
    checks = load_checks()
    if prop not in checks:
        die("no check for " + prop)
    c = checks[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, c, tier, seed, t0, ev_path, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def run_once(prop, c, tier, seed, scratch, exe, idx, extra):
    rep_path = os.path.join(scratch, "report%d.json" % idx)
    work = os.path.join(scratch, "work%d" % idx)
    os.makedirs(work)
    e = env()
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPORT=rep_path, VERIF_WORK=work,
             VERIF_PROP=prop, VERIF_SHARD=str(idx), TMPDIR=work,
             GORACE="halt_on_error=0 log_path=%s/race history_size=3 exitcode=0" % work)
    e.update(extra)
    limit = c.get("limit_thorough", 10000) if tier == "thorough" else c.get("limit", 420)
    out_path = os.path.join(work, "out.txt")
    timed_out = False
    with open(out_path, "wb") as out:
        p = subprocess.Popen([exe, "-test.run", "^" + c["test"] + "$", "-test.timeout", "0", "-test.count", "1"],
                             cwd=work, env=e, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.kill(p.pid, signal.SIGQUIT)
                p.wait(timeout=20)
            except Exception:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    text = open(out_path, errors="replace").read()
    races = ""
    for f in sorted(os.listdir(work)):
        if f.startswith("race."):
            races += open(os.path.join(work, f), errors="replace").read()
    rep = None
    if os.path.exists(rep_path):
        rep = json.load(open(rep_path))
    last = ""
    if os.path.exists(rep_path + ".case"):
        last = open(rep_path + ".case", errors="replace").read().split("\n")[0].strip()
    return p.returncode, timed_out, text, races, rep, last

def run(prop, c, tier, seed, t0, ev_path, scratch):
    exe = os.path.join(scratch, "monitor.test")
    build(c["pkg"], c.get("race", True), exe)
    extra = {}
    if c.get("binary"):
        b = os.path.join(scratch, "routedns")
        build_binary(b, c.get("binary_race", False))
        extra["VERIF_BINARY"] = b
    runs = c.get("runs_thorough", c.get("runs", 1)) if tier == "thorough" else c.get("runs", 1)
    viol, inconc, notes = {}, [], []
    total = dict(evaluations=0, distinct=0, observed={}, states={}, samples=[], rule="", race_reports=0, foreign_races=0)
    for idx in range(runs):
        rc, timed_out, text, races, rep, last = run_once(prop, c, tier, seed + idx * 7919, scratch, exe, idx, extra)
        found, other = parse_races(races + "\n" + text)
        total["foreign_races"] += other
        total["race_reports"] += len(found)
        for k, v in found.items():
            viol.setdefault(k, dict(key=k, detail="data race in the code under test:\n" + v, case=last))
        if rep:
            for v in rep.get("violations") or []:
                viol.setdefault(v["key"], v)
            total["evaluations"] += rep["evaluations"]
            total["distinct"] += rep["distinct"]
            total["rule"] = rep["rule"]
            total["samples"] += (rep.get("samples") or [])[: max(1, 6 // runs)]
            for k, n in (rep.get("observed") or {}).items():
                total["observed"][k] = total["observed"].get(k, 0) + n
            for k, n in (rep.get("states") or {}).items():
                total["states"][k] = total["states"].get(k, 0) + n
            inconc += rep.get("inconclusive") or []
            for k, n in (rep.get("notes") or {}).items():
                notes.append("%s: %s" % (k, n))
        if timed_out:
            inconc.append("the run did not finish in its time limit; last case: %s\n%s" % (last, text[-3000:]))
        elif not rep or not rep.get("complete"):
            crash = parse_crash(text)
            if crash and crash[1]:
                key = "crash:" + re.sub(r"\.func\d+.*", "", crash[1]).replace(MOD, "rdns")
                viol.setdefault(key, dict(key=key, detail="the process crashed: %s\nlast case: %s\n%s" % (crash[0], last, crash[2]), case=last))
            else:
                inconc.append("the monitor ended (%s) without a complete report; last case: %s\n%s" % (rc, last, text[-4000:]))
    known = known_findings(prop)
    new, old = [], []
    for k in sorted(viol):
        (old if k in known else new).append(viol[k])
    ev = dict(property=prop, tier=tier, seed=seed, level=c["level"],
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"],
                            rule=total["rule"], samples=total["samples"][:8], observed_events=total["observed"],
                            distinct_states=total["states"], runs=runs,
                            race_detector=("on: %d reports involving the code under test, %d elsewhere" % (total["race_reports"], total["foreign_races"])) if c.get("race", True) else "off"),
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if notes:
        ev["coverage"]["notes"] = notes[:20]
    if inconc:
        ev["coverage"]["inconclusive"] = [s[:1500] for s in inconc[:10]]
    if old:
        ev["coverage"]["known_findings_seen"] = [v["key"] for v in old]
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[v["key"]]))
    if new:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed,
                           replay="VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s" % (seed, tier, VERIF, prop),
                           violations=new), f, indent=1)
        for v in new[:8]:
            print("-- %s: %s" % (v["key"], v["detail"][:1500]))
            if v.get("case"):
                print("   case: %s" % (json.dumps(v["case"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if inconc:
        for s in inconc[:5]:
            print("INCONCLUSIVE: " + s)
        die("the run was inconclusive")
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs observed=%s states=%s" % (
        prop, tier, total["evaluations"], total["distinct"], time.time() - t0, total["observed"], total["states"]))
    return 0

if __name__ == "__main__":
    main()
