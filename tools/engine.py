"""Running TLC and the harness, and everything around it."""
import fcntl
import glob
import json
import os
import re
import selectors
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "harness")
WORK = os.path.join(ROOT, "work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------
def build():
    """the harness against /repo's current tree"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        # cargo compares times of files, which say little if a tree was put back
        for f in glob.glob(os.path.join(HARNESS, "target", "debug", ".fingerprint", "firrtl-ast-*")):
            shutil.rmtree(f, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("harness does not build:\n" + r.stdout[-4000:])


# ---------------------------------------------------------------------------
class Tlc:
    """result of a run of TLC"""
    def __init__(self):
        self.generated = self.distinct = 0
        self.lines = []


def tlc(module, cfg=None, workers=CORES, env=None, timeout=800, heap="2g"):
    d = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    try:
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xmx" + heap, "-Xss256m",
               "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:+TieredCompilation" if workers > 1 else "-XX:TieredStopAtLevel=1",
               "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
               "-metadir", d, "-noGenerateSpecTE", "-workers", str(workers), "-config", (cfg or module) + ".cfg", module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, LC_ALL="C.UTF-8", **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC did not finish: " + module)
        out = r.stdout.decode("utf-8", "replace")
        t = Tlc()
        t.lines = out.split("\n")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if r.returncode or not m:
            raise ToolError("TLC failed on %s (%d):\n%s" % (module, r.returncode, out[-6000:]))
        t.generated, t.distinct = int(m[-1][0]), int(m[-1][1])
        return t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed(t, tag):
    """JSON values printed by PrintT("TAG " \\o ToJson(..)), in an order which does not depend on TLC's workers"""
    out = []
    for l in sorted(t.lines):
        if l.startswith('"' + tag + ' '):
            s = l[1:-1]
            s = re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), s)
            out.append(json.loads(s[len(tag) + 1:]))
    return out


# ---------------------------------------------------------------------------
def run_harness(reqs, timeout=60, stack=None, jobs=CORES):
    """one observation per request; a crash or hang is an observation, too"""
    if not reqs:
        return []
    parts = [list(range(i, len(reqs), jobs)) for i in range(jobs)]
    res = [None] * len(reqs)
    hangs = []                           # with some of those, the others are not waited for as long

    def some(idx):
        todo = list(idx)
        while todo:
            if len(hangs) > 20:
                for i in todo:
                    res[i] = {"panic": "not tried, as others did not end", "died": True}
                return
            n = batch([reqs[i] for i in todo], lambda k, o: res.__setitem__(todo[k], o), timeout if len(hangs) < 2 else 3, stack, hangs)
            todo = todo[n:]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(some, [p for p in parts if p]))
    return res


def batch(reqs, got, timeout, stack, hangs):
    """number of requests answered for, a crash counting as an answer"""
    env = dict(os.environ)
    if stack:
        env["HARNESS_STACK_MB"] = str(stack)
    p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def feed():
        try:
            for r in reqs:
                p.stdin.write(json.dumps(r, ensure_ascii=True).encode() + b"\n")
            p.stdin.close()
        except OSError:
            pass
    th = threading.Thread(target=feed, daemon=True)
    th.start()
    sel = selectors.DefaultSelector()
    sel.register(p.stdout, selectors.EVENT_READ)
    n, buf, hung = 0, [], False
    fd = p.stdout.fileno()
    while n < len(reqs):
        if not sel.select(timeout):
            hung = True
            break
        b = os.read(fd, 1 << 20)
        if not b:
            break
        ls = b.split(b"\n")
        buf.append(ls[0])
        for l in ls[1:]:
            got(n, json.loads(b"".join(buf).decode()))
            n += 1
            buf = [l]
    if n < len(reqs):
        if hung:
            hangs.append(n)
            p.kill()
            rc = p.wait()
            got(n, {"panic": "no answer within %d s" % timeout, "died": True})
        else:
            rc = p.wait()
            if rc == 3:
                raise ToolError("harness cannot do request: " + json.dumps(reqs[n])[:2000])
            got(n, {"panic": "process ended with %d" % rc, "died": True})
        n += 1
    else:
        p.kill()
        p.wait()
    p.stdout.close()
    th.join(5)
    return n


# ---------------------------------------------------------------------------
def texts_of(req, r):
    op = req["op"]
    if op in ("parse", "mods"):
        return [req["t"]] if req.get("look", True) else []
    if op in ("layout", "shift"):
        return req["ts"]
    if op == "origin":
        return [req["t"], req["pre"]]
    if op == "rt":
        return [r["text"]] + ([r["text2"]] if r["text2"] else []) if r.get("printed") else []
    if op == "parts":
        return [x.get("t", "") for x in r]
    if op == "read":
        try:
            return [bytes(req["bytes"]).decode("utf-8")] if req.get("look", True) else []
        except UnicodeDecodeError:
            return []
    return []


def observation(i, prop, req, r):
    pk = r["panic"] if isinstance(r, dict) and "panic" in r else ""
    tx = [] if pk else [list(t) for t in texts_of(req, r)]
    q = {k: v for k, v in req.items() if k not in ("op", "t", "ts") or k == "ts" and req["op"] == "types"}
    if not q:
        q = {"none": 0}
    if pk:
        q, r = {"none": 0}, {"none": 0}
    elif req["op"] == "rt":
        r = {k: v for k, v in r.items() if k not in ("text", "text2")}
    return {"id": i, "prop": prop, "op": req["op"], "q": q, "r": r, "tx": tx, "pk": pk}


def conform(prop, reqs, obs, timeout=800):
    """faults per request, as judged by the specification, and TLC's counts"""
    sizes = []
    docs = []
    for i, (q, r) in enumerate(zip(reqs, obs)):
        s = json.dumps(observation(i, prop, q, r), ensure_ascii=False)
        docs.append(s)
        sizes.append(len(s) + 200)
    # shards of similar weight
    n = max(1, min(CORES, len(docs) // 4))
    shards, load = [[] for _ in range(n)], [0] * n
    for i in sorted(range(len(docs)), key=lambda i: -sizes[i]):
        k = load.index(min(load))
        shards[k].append(docs[i])
        load[k] += sizes[i]
    d = tempfile.mkdtemp(prefix="obs-", dir=WORK)
    try:
        def one(k):
            f = os.path.join(d, "%d.ndjson" % k)
            with open(f, "w", encoding="utf-8") as o:
                o.write("\n".join(shards[k]) + "\n")
            return tlc("Conform", workers=1, env={"OBS": f}, timeout=timeout)
        with ThreadPoolExecutor(n) as ex:
            ts = list(ex.map(one, range(n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = {}
    for t in ts:
        for b in printed(t, "BAD"):
            bad.setdefault(b["id"], set()).update(b["bad"])
    return bad, sum(t.generated for t in ts), sum(t.distinct for t in ts)
