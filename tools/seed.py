#!/usr/bin/env python3
"""Development aid: builds and validates planted bugs; no check uses it.

  seed.py make SPEC.py [ID...]   build /verif/seeded/<id> from the specs in SPEC.py
  seed.py hit [ID...]            run each planted bug's check against a scratch copy

SPEC.py defines BUGS = [dict(id, prop, pkg, edits=[(file, old, new), ...], demo=Go test source,
needs, breaks, race=False)].
"""
import concurrent.futures, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "9f083ed"
ENVS = dict(HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
            GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
DEMO = '''#!/bin/bash
# Runs the demonstration test against the tree in the current directory (/repo).
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/demo.go.txt" "$work/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$work/demo_test.go\\"}}" > "$work/overlay.json"
TMPDIR="$work" go test -overlay "$work/overlay.json" -vet=off -count=1 -timeout 240s%(race)s -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env={**os.environ, **ENVS, **(env or {})},
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stable(repo):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    p = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=repo,
                       env={**os.environ, **ENVS}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log = tempfile.NamedTemporaryFile(delete=False)
    log.write(p.stdout)
    log.close()
    out = log.name + ".json"
    sh(["python3", "/opt/vp/results.py", out, "gojson:" + log.name])
    got = set(json.load(open(out))["passed"])
    os.unlink(log.name)
    os.unlink(out)
    return sorted(want - got)


def blame_ok(repo, patch):
    bad = []
    cur, n, rem = None, 0, 0
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            rem += 1
            rc, t = sh(["git", "blame", "-s", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", cur], cwd=repo)
            if not t.lstrip("^").startswith(BASE[:7]) and line[1:].strip() not in ("", "}", "{"):
                bad.append(cur + ":" + line)
            n += 1
        elif line.startswith(" "):
            n += 1
    return rem, bad


def make(b):
    work = tempfile.mkdtemp(prefix="seedwork-")
    try:
        repo = work + "/repo"
        sh(["cp", "-a", "/repo", repo])
        d = work + "/seed"
        os.makedirs(d)
        open(d + "/demo.go.txt", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"], race=" -race" if b.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc, t = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=300)
        if rc != 0:
            return b["id"], "demo fails on the clean tree:\n" + t[-1500:]
        for f, old, new in b["edits"]:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %r" % (s.count(old), old[:80])
            open(repo + "/" + f, "w").write(s.replace(old, new))
        rc, t = sh(["gofmt", "-l"] + sorted({f for f, _, _ in b["edits"]}), cwd=repo)
        if t.strip():
            return b["id"], "not gofmt: " + t
        rc, patch = sh(["git", "diff"], cwd=repo)
        open(d + "/patch.diff", "w").write(patch)
        rem, bad = blame_ok(repo, patch)
        if rem == 0:
            return b["id"], "patch changes no line"
        note = " (touches fixed lines: %s)" % bad if bad else ""
        rc, t = sh(["go", "build", "./..."], cwd=repo)
        if rc != 0:
            return b["id"], "does not build: " + t[-800:]
        rc, t = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=300)
        if rc == 0:
            return b["id"], "demo passes with the patch"
        if "[build failed]" in t:
            return b["id"], "demo does not build with the patch: " + t[-500:]
        for _ in range(b.get("reruns", 2)):
            miss = stable(repo)
            if miss:
                return b["id"], "existing tests catch it: %s" % miss[:5]
        dst = HERE + "/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return b["id"], "ok" + note
    finally:
        shutil.rmtree(work, ignore_errors=True)


def hit(bid, tier="quick", prop=None, patch=None, seed="1"):
    """Runs the property's check on scratch copies of both trees, with the patch applied."""
    work = tempfile.mkdtemp(prefix="seedhit-")
    try:
        os.chmod(work, 0o755)
        repo, ver = work + "/repo", work + "/verif"
        sh(["cp", "-a", "/repo", repo])
        os.makedirs(ver)
        sh(["bash", "-c", "cd %s && cp -a run.py checks_table.py go.mod go.sum checks pbt instr %s" % (HERE, ver)])
        for f in ("run.py", "go.mod"):
            s = open(ver + "/" + f).read()
            open(ver + "/" + f, "w").write(s.replace('REPO = "/repo"', 'REPO = "%s"' % repo).replace("=> /repo", "=> " + repo))
        if prop is None:
            prop = json.load(open(HERE + "/seeded/%s/meta.json" % bid))["property"]
        p = patch or HERE + "/seeded/%s/patch.diff" % bid
        rc, t = sh(["git", "apply", p], cwd=repo)
        if rc != 0:
            return bid, prop, "patch does not apply: " + t
        import time
        t0 = time.time()
        rc, t = sh(["python3", "run.py", prop, tier], cwd=ver, timeout=1800, env={"VERIF_SEED": seed})
        res = {0: "MISSED", 1: "caught"}.get(rc, "rc=%d" % rc)
        if rc == 1 and "VIOLATION property=%s " % prop not in t:
            res = "rc=1 without VIOLATION"
        return bid, prop, "%s (%.0fs) %s" % (res, time.time() - t0, "" if rc == 0 else t[:300].replace("\n", " | ") + " ... " + " ".join(re.findall(r"VIOLATION property=.*", t)[:1]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("spec", sys.argv[2])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs = [b for b in m.BUGS if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for bid, res in ex.map(make, bugs):
                print(bid, res, flush=True)
    elif sys.argv[1] == "hit":
        ids = sys.argv[2:] or sorted(os.listdir(HERE + "/seeded"))
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            table = HERE + "/tools/caught.json"
            for r in ex.map(hit, ids):
                print(*r, flush=True)
                hits = json.load(open(table)) if os.path.exists(table) else {}
                m = re.search(r"replays/C\d+-(Test\w+)\.", r[2])
                hits[r[0]] = [m.group(1) if m else r[1]] if r[2].startswith("caught") else []
                json.dump(hits, open(table, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
