#!/usr/bin/env python3
"""Driver of every check: builds the harnesses of one property from /repo's working tree (Go overlay, nothing is written
there), runs them, merges what the monitors observed, and gives the verdict.

  run.py C01            tier and seed from VERIF_TIER / VERIF_SEED
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict (build error, monitor saw too little)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from checks import CHECKS, MODULE_DIR  # noqa: E402


def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1")
    for v in ("GOROOT", "GOWORK"):
        e.pop(v, None)
    e.setdefault("HOME", "/root")
    return e


def overlay():
    """Everything under harness/ appears inside /repo through the overlay, and nowhere else."""
    rep = {}
    for sub, dest in (("kit", "common/pkg/verifkit"), ("fakes", "common/pkg/verifkit/fakes"), ("lotus", "common/pkg/verifkit/lotus"),
                      ("svc", "common/pkg/verifkit/svc"), ("redis", "common/pkg/verifkit/redis"), ("js", "common/pkg/verifkit/js")):
        d = os.path.join(VERIF, "harness", sub)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".go"):
                    rep[os.path.join(REPO, dest, f)] = os.path.join(d, f)
    for mod, base in MODULE_DIR.items():
        d = os.path.join(VERIF, "harness", mod)
        if not os.path.isdir(d):
            continue
        for name in sorted(os.listdir(d)):
            p = os.path.join(d, name)
            if os.path.isdir(p):
                for f in sorted(os.listdir(p)):
                    if f.endswith(".go"):
                        rep[os.path.join(REPO, base, "verif_" + name, f)] = os.path.join(p, f)
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "overlay-%d.json" % os.getpid())
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def build(mod, name, race, ov):
    out = os.path.join(BUILD, "%s_%s%s" % (mod, name, "_race" if race else ""))
    base = MODULE_DIR[mod]
    modroot = os.path.join(REPO, base.split("/")[0])
    pkg = "./" + os.path.relpath(os.path.join(REPO, base, "verif_" + name), modroot)
    # a copy of go.mod: a harness may import a module the repository only depends on indirectly
    mf = "%s_%d.mod" % (out, os.getpid())
    for ext in ("mod", "sum"):
        shutil.copy(os.path.join(modroot, "go." + ext), mf[:-3] + ext)
    cmd = ["go", "build", "-modfile", mf, "-overlay", ov, "-o", out, "-ldflags=-s -w"]
    if race:
        cmd.append("-race")
    cmd.append(pkg)
    r = subprocess.run(cmd, cwd=modroot, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for ext in ("mod", "sum"):
        os.unlink(mf[:-3] + ext)
    return out, r.returncode, r.stdout


def build_bin(mod, pkg, race):
    """One of the repository's own programs, as it is."""
    out = os.path.join(BUILD, "bin_%s_%s%s" % (mod, os.path.basename(pkg), "_race" if race else ""))
    modroot = os.path.join(REPO, mod)
    mf = "%s_%d.mod" % (out, os.getpid())
    for ext in ("mod", "sum"):
        shutil.copy(os.path.join(modroot, "go." + ext), mf[:-3] + ext)
    cmd = ["go", "build", "-modfile", mf, "-o", out, "-ldflags=-s -w"] + (["-race"] if race else []) + [pkg]
    r = subprocess.run(cmd, cwd=modroot, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for ext in ("mod", "sum"):
        os.unlink(mf[:-3] + ext)
    return out, r.returncode, r.stdout


def build_js():
    """The JavaScript client library in one file, with the monitors' driver and stand-ins for the packages it needs."""
    out = os.path.join(BUILD, "js_worker.js")
    d = os.path.join(VERIF, "harness", "js")
    cmd = ["/opt/veriftools/node/node_modules/.bin/esbuild", os.path.join(d, "worker.ts"), "--bundle", "--platform=node", "--log-level=error", "--outfile=" + out,
           "--alias:client-js=" + os.path.join(REPO, "client-js", "src")]
    for name, f in (("blake2b", "blake2b.js"), ("secp256k1", "secp256k1.js"), ("axios", "axios.js"), ("bn.js", "bn.js"), ("@zondax/filecoin-signing-tools", "signing.js")):
        cmd.append("--alias:%s=%s" % (name, os.path.join(d, f)))
    r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return out, r.returncode, r.stdout


FRAME = re.compile(r"^\s+(\S.*?)\(.*\)$")


def parse_races(text):
    """DATA RACE blocks -> {key: text}; the key is the pair of outermost repository functions of the two accesses."""
    res = {}
    for block in text.split("=================="):
        if "WARNING: DATA RACE" not in block:
            continue
        accesses = []
        cur = None
        for line in block.splitlines():
            if re.match(r"^(Previous )?(Read|Write|Atomic|read|write|atomic)|^(Previous|Concurrent) ", line, re.I) and " by " in line:
                cur = []
                accesses.append(cur)
            elif line.startswith("Goroutine ") or "created at:" in line:
                cur = None
            elif cur is not None:
                m = re.match(r"^  ([^\s].*)\(\)$", line)
                if m:
                    cur.append(m.group(1))
        names = []
        inrepo = False
        for a in accesses[:2]:
            own = [f for f in a if "ConsenSys/fc-retrieval" in f and "verif" not in f]
            if own:
                inrepo = True
            names.append(re.sub(r"^github.com/ConsenSys/fc-retrieval/", "", own[0] if own else (a[0] if a else "?")))
        key = "race:" + " <> ".join(sorted(names))
        if not inrepo:
            key = "monitor-" + key
        res.setdefault(key, block.strip()[:6000])
    return res


PANIC = re.compile(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: )", re.M)


def classify_crash(stderr):
    """A process that died: is the dying goroutine inside the code under test?"""
    m = PANIC.search(stderr)
    if not m:
        return None
    tail = stderr[m.start():]
    head = tail.splitlines()[0][:300]
    # the first goroutine listed is the one that died
    parts = tail.split("\n\n")
    body = ""
    for p in parts:
        if p.lstrip().startswith("goroutine "):
            body = p
            break
    frames = re.findall(r"^([^\s].*)\(.*\)$", body, re.M)
    own = [f for f in frames if "ConsenSys/fc-retrieval" in f and "verif" not in f]
    kitfirst = None
    for f in frames:
        if "ConsenSys/fc-retrieval" in f or f.startswith("main."):
            kitfirst = f
            break
    if own and kitfirst and "verif" not in kitfirst and not kitfirst.startswith("main."):
        key = "crash:" + re.sub(r"^github.com/ConsenSys/fc-retrieval/", "", own[0])
        return key, head + "\n" + body[:5000]
    if head.startswith("panic: runtime error") and kitfirst:
        # a value the code under test gave was not usable
        return "unusable:" + kitfirst, head + "\n" + body[:5000]
    return None


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    known = []
    if os.path.exists(path):
        for e in json.load(open(path))["findings"]:
            if e["property"] == pid and e["status"] == "open":
                known.append(e)
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = CHECKS[pid]
    t0 = time.time()
    scratch_root = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    repdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    ov = overlay()
    problems, violations, notes = [], {}, []
    evals, hashes, samples, counters = 0, set(), [], {}
    procs = []
    race_runs = 0
    try:
        # build everything first (cached by go)
        bins = {}
        for step in chk["steps"]:
            kk = (step["mod"], step["name"], bool(step.get("race")))
            if kk in bins:
                continue
            out, rc, log = build(*kk, ov)
            if rc != 0:
                problems.append("build of %s/%s failed:\n%s" % (kk[0], kk[1], log[-4000:]))
            bins[kk] = out
        js = None
        if any(step.get("js") for step in chk["steps"]):
            js, rc, log = build_js()
            if rc != 0:
                problems.append("build of the JavaScript client failed:\n%s" % log[-4000:])
        progs = {}
        for step in chk["steps"]:
            for mod, pkg in step.get("bins", []):
                kk = (mod, pkg, bool(step.get("race")))
                if kk not in progs:
                    progs[kk], rc, log = build_bin(*kk)
                    if rc != 0:
                        problems.append("build of %s %s failed:\n%s" % (mod, pkg, log[-4000:]))
        t_build = time.time() - t0
        listed = {key for e in load_known(pid) for key in e["keys"]}
        if not problems:
            for si, step in enumerate(chk["steps"]):
                if step.get("tier") and step["tier"] != tier:
                    continue
                runs = step.get("runs", {}).get(tier, 1) if isinstance(step.get("runs"), dict) else step.get("runs", 1)
                for r in range(runs):
                    if tier == "quick" and violations and not set(violations) <= listed and time.time() - t0 > 200:
                        notes.append("%s/%s: not run, there is something to report already" % (step["mod"], step["name"]))
                        continue
                    sc = os.path.join(scratch_root, "s%d-%d" % (si, r))
                    os.makedirs(sc)
                    out = os.path.join(sc, "report.json")
                    env = go_env()
                    env["GOTRACEBACK"] = "all"
                    env["VERIF_SCRATCH"] = sc
                    env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(sc, "race.log")
                    env["TMPDIR"] = sc
                    for kx, vx in step.get("env", {}).items():
                        env[kx] = vx
                    for mod, pkg in step.get("bins", []):
                        env["VERIF_BIN_" + os.path.basename(pkg).upper()] = progs[(mod, pkg, bool(step.get("race")))]
                    if step.get("js"):
                        env["VERIF_JS"] = js
                    s = seed * 1000 + si * 100 + r
                    cmd = [bins[(step["mod"], step["name"], bool(step.get("race")))], "seed=%d" % s, "tier=" + tier, "out=" + out]
                    for kx, vx in step.get("args", {}).items():
                        cmd.append("%s=%s" % (kx, vx))
                    lim = step.get("timeout", {}).get(tier, 400 if tier == "quick" else 3000) if isinstance(step.get("timeout"), dict) else step.get("timeout", 400 if tier == "quick" else 3000)
                    if tier == "quick":
                        lim = max(20, min(lim, 780 - (time.time() - t0)))
                    err = open(os.path.join(sc, "stderr"), "wb")
                    so = open(os.path.join(sc, "stdout"), "wb")
                    p = subprocess.Popen(cmd, cwd=sc, env=env, stdout=so, stderr=err, start_new_session=True)
                    timed_out = False
                    try:
                        p.wait(timeout=lim)
                    except subprocess.TimeoutExpired:
                        # first let it report what it has seen
                        p.terminate()
                        try:
                            p.wait(timeout=15)
                        except subprocess.TimeoutExpired:
                            timed_out = True
                            os.killpg(p.pid, signal.SIGQUIT)
                        try:
                            p.wait(timeout=10)
                        except subprocess.TimeoutExpired:
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    err.close()
                    so.close()
                    stderr = open(os.path.join(sc, "stderr"), errors="replace").read()
                    label = "%s/%s%s run %d seed %d" % (step["mod"], step["name"], " (race)" if step.get("race") else "", r, s)
                    if step.get("race"):
                        race_runs += 1
                        for f in sorted(os.listdir(sc)):
                            if f.startswith("race.log"):
                                for key, txt in parse_races(open(os.path.join(sc, f), errors="replace").read()).items():
                                    if key.startswith("monitor-"):
                                        notes.append("race outside the code under test ignored: " + key + "\n" + txt[:1500])
                                        continue
                                    violations.setdefault(key, {"key": key, "detail": txt, "replay": {"cmd": cmd[1:], "step": label}, "count": 0})["count"] += 1
                    rep = None
                    if os.path.exists(out):
                        try:
                            rep = json.load(open(out))
                        except ValueError:
                            rep = None
                    if rep is None:
                        c = classify_crash(stderr) if not timed_out else None
                        if c:
                            violations.setdefault(c[0], {"key": c[0], "detail": c[1], "replay": {"cmd": cmd[1:], "step": label}, "count": 1})
                        else:
                            problems.append("%s: no report (%s, exit %s)\n%s" % (label, "timeout" if timed_out else "died", p.returncode, stderr[-6000:]))
                        continue
                    evals += rep["evaluations"]
                    hashes.update(rep.get("hashes") or [])
                    for sm in rep["samples"] or []:
                        if len(samples) < 12 and sum(1 for x in samples if x.get("kind") == sm.get("kind")) < 2:
                            samples.append(sm)
                    for n, v in rep["counters"].items():
                        counters[n] = counters.get(n, 0) + v
                    for v in rep["violations"] or []:
                        v["replay"] = {"cmd": cmd[1:], "step": label, "witness": v["replay"]}
                        if v["key"] in violations:
                            violations[v["key"]]["count"] += v["count"]
                        else:
                            violations[v["key"]] = v
                    for m in rep["inconclusive"] or []:
                        problems.append("%s: inconclusive: %s" % (label, m))
    finally:
        os.path.exists(ov) and os.unlink(ov)
        shutil.rmtree(scratch_root, ignore_errors=True)
    known = load_known(pid)
    seen_known, fresh = {}, []
    for key, v in violations.items():
        hit = None
        for e in known:
            if key in e["keys"]:
                hit = e
                break
        if hit:
            seen_known.setdefault(hit["id"], (hit, []))[1].append(key)
        else:
            fresh.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": chk["rule"],
            "samples": samples, "events": counters, "race_detector_runs": race_runs,
            "exhaustive": False,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        "known_findings_seen": sorted(seen_known), "build_s": round(t_build, 2) if 't_build' in dir() else None,
        "problems": problems, "notes": notes[:5],
    }
    with open(evidence + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(evidence + ".tmp", evidence)
    for e in known:
        # every listed finding is announced; whether it was observed in this run is said too
        obs = "observed in this run" if e["id"] in seen_known else "not triggered in this run"
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, e["what"], obs))
    for v in fresh:
        h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
        path = os.path.join(repdir, "%s-%s.json" % (pid, h))
        with open(path, "w") as fh:
            json.dump({"property": pid, "tier": tier, "seed": seed, **v}, fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key: %s\n  %s" % (v["key"], v["detail"][:1500].replace("\n", "\n  ")))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, events %s, %.1f s" % (
        pid, tier, seed, evals, len(hashes), json.dumps(counters, sort_keys=True), time.time() - t0))
    if fresh:
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE: " + p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
