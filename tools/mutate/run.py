#!/usr/bin/env python3
"""Development aid: mutation test of the checks (no check uses it).

  run.py filter OUT.jsonl FILE...        mutants that compile and pass the package's own tests
  run.py kill   IN.jsonl OUT.jsonl [SCALE]   run the properties' checks against them
"""
import concurrent.futures, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENVS = {**os.environ, **dict(HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
            GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")}
WORKERS = int(os.environ.get("W", "4"))
PROPS = {"sync/map.go": "C01 C02 C03", "mr/mr.go": "C04 C05 C06", "skiplist.go": "C07", "rbt.go": "C08 C09", "heap.go": "C10",
         "list.go": "C11", "ring.go": "C12", "fifo.go": "C13", "set.go": "C14", "gmap/map.go": "C15", "slice.go": "C16", "math.go": "C17",
         "syncpool.go": "C18", "fastrand": "C19 C20", "unsafex": "C21", "lrucache.go": "C22 C23", "file.go": "C24 C25 C26", "cachex/cache.go": "C27 C28",
         "bitset.go": "C29 C30", "cryptox.go": "C31 C32 C33", "password.go": "C34", "stringx.go": "C35 C36 C37 C38", "errors.go": "C39", "type.go": "C40"}


def props(f):
    best = max((k for k in PROPS if k in f), key=len)
    return PROPS[best].split()


def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "timeout"


def pool(n, root):
    q = queue.Queue()
    for i in range(n):
        w = "%s/w%d" % (root, i)
        os.makedirs(w + "/tmp")
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.makedirs(w + "/verif")
        subprocess.run(["bash", "-c", "cd %s && cp -a run.py checks_table.py go.mod go.sum checks pbt instr %s/verif" % (HERE, w)], check=True)
        for f in ("run.py", "go.mod"):
            s = open(w + "/verif/" + f).read()
            open(w + "/verif/" + f, "w").write(s.replace('REPO = "/repo"', 'REPO = "%s/repo"' % w).replace("=> /repo", "=> %s/repo" % w))
        subprocess.run(["chown", "-R", "65534:65534", w + "/tmp", w + "/repo"], check=True)
        os.chmod(w, 0o755)
        q.put(w)
    os.chmod(root, 0o755)
    return q


def mutate(w, m):
    p = w + "/repo/" + m["file"]
    src = open("/repo/" + m["file"], "rb").read()
    open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
    return p, src


def filt(q, m):
    w = q.get()
    try:
        p, src = mutate(w, m)
        pkg = os.path.dirname(m["file"])
        try:
            rc, t = sh(["go", "test", "-c", "-vet=off", "-o", w + "/t.test", "./" + pkg], 120, cwd=w + "/repo", env=ENVS)
            if rc != 0:
                return m, "nocompile"
            cmd = ["bash", "-c", "ulimit -v 6000000; exec %s/t.test -test.timeout 12s" % w]
            rc, t = sh(cmd, 20, cwd=w + "/repo/" + pkg, env={**ENVS, "TMPDIR": w + "/tmp"}, user=65534, group=65534, extra_groups=[])
            return m, "survived" if rc == 0 else "tests"
        finally:
            open(p, "wb").write(src)
    finally:
        q.put(w)


def kill(q, m):
    w = q.get()
    try:
        p, src = mutate(w, m)
        try:
            res = {}
            for pid in props(m["file"]):
                t0 = time.time()
                rc, t = sh(["python3", "run.py", pid, "quick"], 900, cwd=w + "/verif", env={**ENVS, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                res[pid] = {0: "missed", 1: "caught", 2: "error", None: "timeout"}.get(rc, rc)
                if rc not in (0, 1):
                    res[pid + "_msg"] = t[-600:]
                if rc == 1:
                    break
            return m, res
        finally:
            open(p, "wb").write(src)
    finally:
        q.put(w)


def main():
    root = tempfile.mkdtemp(prefix="mutwork-")
    try:
        q = pool(WORKERS, root)
        if sys.argv[1] == "filter":
            ms = []
            for f in sys.argv[3:]:
                out = subprocess.run(["/tmp/mutatebin", f], cwd="/repo", stdout=subprocess.PIPE, check=True).stdout.decode()
                ms += [json.loads(x) for x in out.splitlines()]
            fn, out = filt, sys.argv[2]
            ms = ms[int(os.environ.get("SKIP", "0")):]
            if os.path.exists(out):
                done = {x.strip() for x in open(out)}
                ms = [m for m in ms if json.dumps(m) not in done]
        else:
            ms = [json.loads(x) for x in open(sys.argv[2])]
            fn, out = kill, sys.argv[3]
            done = set()
            if os.path.exists(out):
                done = {json.dumps(json.loads(x)["m"], sort_keys=True) for x in open(out)}
            ms = [m for m in ms if json.dumps(m, sort_keys=True) not in done]
            if len(sys.argv) > 4:
                for i in range(WORKERS):
                    p = "%s/w%d/verif/checks_table.py" % (root, i)
                    s = open(p).read()
                    s += "\nfor c in CHECKS.values():\n    for st in c['stages']:\n        st['scale'] = max(1, st.get('scale', 20) * %s // 100)\n        st['shards'] = {'quick': %s}\n" % (sys.argv[4], os.environ.get("SHARDS", "2"))
                    open(p, "w").write(s)
        lock = threading.Lock()
        with open(out, "a") as fo, concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            n = 0
            for m, r in ex.map(lambda m: fn(q, m), ms):
                n += 1
                if fn is filt:
                    if r == "survived":
                        fo.write(json.dumps(m) + "\n")
                else:
                    fo.write(json.dumps({"m": m, "r": r}) + "\n")
                fo.flush()
                if n % 50 == 0:
                    print(n, len(ms), flush=True)
    finally:
        if root.startswith(tempfile.gettempdir() + "/mutwork-"):
            shutil.rmtree(root, ignore_errors=True)


main()
