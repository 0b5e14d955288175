#!/usr/bin/env python3
"""Driver of every check.

  run.py <ID> [quick|thorough]     run the check of one property
  run.py <ID> replay <file>        run one saved case against the current tree
  run.py all [quick|thorough]      run every check in turn (development aid)

Exit 0: the property held on everything explored.  Exit 1, with a line
VIOLATION property=<ID> replay=<path>: it is broken.  Exit 2: the check itself
could not give an answer.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from checks_table import CHECKS  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME="/root",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod",
           GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
for k in list(ENV):
    if k.startswith(("PBT_", "RAPID_")) and k not in ("PBT_SHRINK",):
        del ENV[k]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env(stage):
    return dict(ENV, GOARCH=stage["goarch"]) if stage.get("goarch") else ENV


def run(cmd, timeout, env=None, cwd=HERE, out=None, who=None):
    """Runs cmd in its own process group; returns (rc, text). rc None: timed out."""
    f = open(out, "w+b") if out else tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL,
                         stdout=f, stderr=subprocess.STDOUT, start_new_session=True, **(who or {}))
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        rc = None
    f.seek(0)
    text = f.read().decode("utf-8", "replace")
    f.close()
    return rc, text


class CheckError(Exception):
    pass


class BuildError(CheckError):
    pass


def build(stage, scratch, idx):
    """Builds the stage's test binary from /repo's current tree."""
    binp = os.path.join(scratch, "bin%d.test" % idx)
    base = ["go", "test", "-c", "-vet=off", "-o", binp]
    if stage.get("race"):
        base.append("-race")
    tries = []
    if stage.get("instr"):
        ov = os.path.join(scratch, "overlay%d" % idx)
        cmd = ["go", "run", "./instr", "-repo", REPO, "-out", ov]
        if stage.get("instr_os"):
            cmd.append("-os")
        rc, text = run(cmd + stage["instr"], 300)
        if rc != 0:
            raise BuildError("instrumentation failed:\n" + text[-3000:])
        tries.append(base + ["-tags", "instr", "-overlay", os.path.join(ov, "overlay.json"), stage["pkg"]])
    else:
        # novars: the random source is no longer made of replaceable functions
        tries += [base + [stage["pkg"]], base + ["-tags", "novars", stage["pkg"]]]
    errors = []
    for cmd in tries:
        rc, text = run(cmd, 600, env=go_env(stage))
        if rc == 0 and stage.get("goarch"):
            rc, text = run([binp, "-test.list", "^$"], 60)  # can it run here?
        if rc == 0:
            return binp
        errors.append("build failed (rc %s):\n%s" % (rc, text[-4000:]))
    raise BuildError(errors[0])


def stage_env(tier, shard, shards, out, stage):
    e = dict(ENV)
    e.update(VERIF_TIER=tier, PBT_SHARD=str(shard), PBT_SHARDS=str(shards), PBT_OUT=out,
             VERIF_SEED=os.environ.get("VERIF_SEED", "1") or "1",
             PBT_SCRATCH=os.path.join(out, "scratch"))
    e["PBT_SCALE"] = str(stage.get("scale", 20))
    e["PBT_BUDGET_S"] = "60" if tier == "quick" else "3000"
    if stage.get("gomaxprocs"):
        e["GOMAXPROCS"] = str(stage["gomaxprocs"])
    if stage.get("env"):
        e.update(stage["env"])
    return e


NOBODY = 65534


def unprivileged(stage, out):
    """Popen arguments that run a stage which deletes files as an unprivileged
    user owning nothing but its scratch folder."""
    if not stage.get("unpriv") or os.geteuid() != 0:
        return {}
    for d, _, fs in os.walk(out):
        for f in [d] + [os.path.join(d, f) for f in fs]:
            os.chown(f, NOBODY, NOBODY)
    return {"user": NOBODY, "group": NOBODY, "extra_groups": []}


def save_replay(pid, test, plan, err):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, test))
    with open(path, "w") as f:
        json.dump({"property": pid, "test": test, "error": err, "plan": plan}, f, indent=1)
    return path


def replay_once(binp, stage, path, scratch, n, timeout=300):
    out = os.path.join(scratch, "replay%d" % n)
    os.makedirs(os.path.join(out, "scratch"), exist_ok=True)
    e = stage_env("quick", 0, 1, out, stage)
    e["PBT_REPLAY"] = path
    e["PBT_CASE_CPU_S"] = "60"
    if stage.get("unpriv"):
        e["PBT_REPLAY"] = os.path.join(out, "replay.json")
        shutil.copy(path, e["PBT_REPLAY"])
    rc, text = run([binp, "-test.run", stage["run"], "-test.timeout", "0"], timeout, env=e, cwd=out,
                   who=unprivileged(stage, out))
    return rc, text


RACE = "WARNING: DATA RACE"


def classify(rc, text):
    if rc == 66 or RACE in text:
        return "data race"
    if rc == 97:
        return "hang"
    if "fatal error: all goroutines are asleep" in text:
        return "deadlock"
    if "fatal error: concurrent map" in text:
        return "concurrent map access"
    if "fatal error: stack overflow" in text or "goroutine stack exceeds" in text:
        return "stack overflow"
    if re.search(r"^panic: ", text, re.M):
        return "panic"
    if re.search(r"^fatal error: ", text, re.M):
        return "fatal"
    return None


def handle_failure(pid, stage, binp, rc, text, out, scratch, n):
    """Turns a failed shard into (replay path, message), or raises CheckError."""
    fails = sorted(f for f in os.listdir(out) if f.startswith("fail-"))
    if fails:
        rep = json.load(open(os.path.join(out, fails[0])))
        return save_replay(pid, rep["test"], rep["plan"], rep["error"]), rep["error"]
    kind = classify(rc, text)
    cur = sorted(f for f in os.listdir(out) if f.startswith("current-"))
    if kind is None or not cur:
        raise CheckError("test process ended with rc %s:\n%s" % (rc, text[-4000:]))
    test = cur[-1][len("current-"):-len(".json")]
    try:
        plan = json.load(open(os.path.join(out, cur[-1])))
    except ValueError:
        raise CheckError("test process ended with rc %s and no readable case:\n%s" % (rc, text[-4000:]))
    m = re.search(r"(WARNING: DATA RACE|^panic: |^fatal error: |^PBT-HANG)[\s\S]{0,2500}", text, re.M)
    err = kind + ": " + (m.group(0) if m else text[-1500:])
    path = save_replay(pid, test, plan, err)
    if kind in ("data race", "concurrent map access"):
        return path, err
    if kind in ("panic", "fatal") and "miniLCT/gosb" in (m.group(0) if m else ""):
        return path, err
    # A hang or crash counts once a fresh process shows it again on the same case.
    for i in range(2):
        rrc, rtext = replay_once(binp, stage, path, scratch, 100 * n + i, timeout=600)
        if rrc not in (0, None) and (classify(rrc, rtext) or "PBT-REPLAY-FAILED" in rtext):
            return path, err
    os.remove(path)
    raise CheckError("%s did not reproduce in a fresh process:\n%s" % (kind, text[-4000:]))


def memory_dir(stage, tier):
    """A scratch folder in memory for quick checks that write many small files,
    if there is room for one, else None."""
    if not stage.get("unpriv") or tier != "quick":
        return None
    try:
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize < 4 << 30 or 0 < v.f_files < 1 << 20:
            return None
        d = tempfile.mkdtemp(prefix="gosbverif-", dir="/dev/shm")
        os.chmod(d, 0o755)
        return d
    except OSError:
        return None


def run_stage(pid, stage, tier, scratch, idx):
    mem = memory_dir(stage, tier)
    try:
        return run_shards(pid, stage, tier, scratch, idx, mem)
    finally:
        if mem and mem.startswith("/dev/shm/gosbverif-"):
            shutil.rmtree(mem, ignore_errors=True)


def run_shards(pid, stage, tier, scratch, idx, mem):
    binp = build(stage, scratch, idx)
    shards = stage.get("shards", {}).get(tier, 6 if tier == "quick" else 8)
    procs = []
    for s in range(shards):
        out = os.path.join(scratch, "out%d_%d" % (idx, s))
        os.makedirs(os.path.join(out, "scratch"))
        logf = open(os.path.join(out, "log.txt"), "w+b")
        env = stage_env(tier, s + stage.get("first_shard", 0), shards, out, stage)
        if mem:
            env["PBT_SCRATCH"] = os.path.join(mem, "s%d" % s)
            os.mkdir(env["PBT_SCRATCH"])
            if unprivileged(stage, env["PBT_SCRATCH"]):
                os.chown(env["PBT_SCRATCH"], NOBODY, NOBODY)
        p = subprocess.Popen([binp, "-test.run", stage["run"], "-test.timeout", "0", "-test.count", "1"],
                             cwd=out, env=env, stdin=subprocess.DEVNULL,
                             stdout=logf, stderr=subprocess.STDOUT, start_new_session=True,
                             **unprivileged(stage, out))
        procs.append((p, out, logf))
    limit = time.time() + (780 if tier == "quick" else 4 * 3600)
    res, errors = None, []
    for n, (p, out, logf) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            rc = None
        if rc is None or (rc != 0 and res is None):
            if rc is None:
                errors.append("time budget exhausted")
            else:
                logf.seek(0)
                try:
                    res = handle_failure(pid, stage, binp, rc, logf.read().decode("utf-8", "replace"), out, scratch, n)
                except CheckError as e:
                    errors.append(str(e))
            if rc is None or res is not None:
                break
    for p, out, logf in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        logf.close()
    outs = [o for _, o, _ in procs]
    if res is None and errors:
        raise CheckError("\n".join(errors))
    return outs, res


def evidence(pid, tier, outs, wall, violations, spec, skipped=None):
    evals, labels, rules, samples, hashes, per = 0, {}, [], [], set(), {}
    for o in outs:
        for f in sorted(os.listdir(o)):
            if f.startswith("stats-"):
                try:
                    st = json.load(open(os.path.join(o, f)))
                except ValueError:  # of a shard stopped while it wrote
                    continue
                evals += st["evaluations"]
                q = per.setdefault(st["test"], {"evaluations": 0, "nontrivial": 0, "rule": st["rule"], "labels": {}})
                q["evaluations"] += st["evaluations"]
                q["nontrivial"] += st["nontrivial"]
                for k, v in (st.get("labels") or {}).items():
                    q["labels"][k] = q["labels"].get(k, 0) + v
                if len([s for s in samples if s["test"] == st["test"]]) < 2:
                    for s in (st.get("samples") or [])[:2]:
                        samples.append({"test": st["test"], "case": s})
            elif f.startswith("hashes-"):
                b = open(os.path.join(o, f), "rb").read()
                hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
    rule = " || ".join("%s: %s" % (t, q["rule"]) for t, q in sorted(per.items()))
    doc = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "level": "exploration",
           "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule,
                        "samples": samples, "per_test": per},
           "assumptions": spec.get("assumptions", []),
           "wall_s": round(wall, 2), "violations": violations}
    if skipped:
        doc["coverage"]["stage_left_out"] = skipped
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)
    return doc


def check(pid, tier):
    spec = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="gosbverif-")
    os.chmod(scratch, 0o755)
    try:
        outs, res, skipped = [], None, None
        for i, stage in enumerate(spec["stages"]):
            stage = dict(stage)
            stage.setdefault("run", "^Test%s_" % pid)
            if stage.get("shards", {}).get(tier) == 0:
                continue
            try:
                o, res = run_stage(pid, stage, tier, scratch, i)
            except BuildError as e:
                # code the instrumentation cannot handle, or no 32-bit programs
                # here: the other stages decide
                if not (stage.get("instr") or stage.get("goarch")) or len(spec["stages"]) == 1:
                    raise
                log("%s: stage %d left out: %s" % (pid, i, e))
                skipped = str(e)[:1000]
                continue
            outs += o
            if res:
                break
        try:
            doc = evidence(pid, tier, outs, time.time() - t0, 1 if res else 0, spec, skipped)
        except Exception as e:
            if not res:
                raise
            log("no evidence file: %r" % e)
        if res:
            path, err = res
            log(err[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        c = doc["coverage"]
        if c["distinct_nontrivial"] == 0:
            log("%s: no non-trivial case was generated" % pid)
            return 2
        print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tier, c["evaluations"], c["distinct_nontrivial"], doc["wall_s"]), flush=True)
        return 0
    except CheckError as e:
        log("%s: CHECK ERROR: %s" % (pid, e))
        return 2
    finally:
        if scratch.startswith(tempfile.gettempdir() + "/gosbverif-"):
            shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, path):
    path = os.path.abspath(path)
    rep = json.load(open(path))
    spec = CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix="gosbverif-")
    os.chmod(scratch, 0o755)
    try:
        passes = False
        for i, stage in enumerate(spec["stages"]):
            stage = dict(stage)
            stage.setdefault("run", "^Test%s_" % pid)
            if not re.match(stage["run"], rep["test"]):
                continue
            try:
                binp = build(stage, scratch, i)
            except BuildError:
                if not stage.get("goarch"):
                    raise
                continue
            stage["run"] = "^" + rep["test"] + "$"
            rc, text = replay_once(binp, stage, path, scratch, i, timeout=800)
            if rc == 0:
                passes = True
                continue
            if rc is not None and ("PBT-REPLAY-FAILED" in text or classify(rc, text)):
                log(text[-4000:])
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            log(text[-4000:])
            return 2
        if passes:
            print("replay passes: %s" % path)
            return 0
        log("no stage runs test %s" % rep["test"])
        return 2
    except CheckError as e:
        log("%s: CHECK ERROR: %s" % (pid, e))
        return 2
    finally:
        if scratch.startswith(tempfile.gettempdir() + "/gosbverif-"):
            shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """Compiles the checks once, so that the module and build caches are warm."""
    pkgs = sorted({(st["pkg"], bool(st.get("race"))) for sp in CHECKS.values() for st in sp["stages"]
                   if not st.get("instr")})
    scratch = tempfile.mkdtemp(prefix="gosbverif-")
    try:
        for i, (pkg, race) in enumerate(pkgs):
            try:
                build({"pkg": pkg, "race": race}, scratch, i)
            except CheckError as e:
                log(str(e))  # the check that needs it reports it
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    if len(sys.argv) < 2:
        log(__doc__)
        return 2
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if mode == "replay":
        return replay(pid, sys.argv[3])
    if pid == "setup":
        return setup()
    if pid == "all":
        worst = 0
        for p in sorted(CHECKS):
            worst = max(worst, check(p, mode))
        return worst
    if pid not in CHECKS:
        log("unknown property", pid)
        return 2
    return check(pid, mode)


if __name__ == "__main__":
    sys.exit(main())
