"""Shared machinery: building the harness, running scenarios on the real code, running TLC, verdicts, evidence."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


def log(*a):
    print(*a, flush=True)


_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    global _scratch
    with _scratch_lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="verif-check-")
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        return _scratch


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
               GOEXPERIMENT="synctest", GONOSUMDB="*", GONOSUMCHECK="1")
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; echo $GO; echo $GOCACHE"],
                             capture_output=True, text=True).stdout.split("\n")
        if out and out[0]:
            env["GO"] = out[0]
        if len(out) > 1 and out[1]:
            env["GOCACHE"] = out[1]
    if not env.get("GO"):
        env["GO"] = shutil.which("go1.24") or shutil.which("go") or "go"
    for k in list(env):
        if k.startswith("LK_DUMP"):
            del env[k]
    return env


def build_harness(race=False, cgo=True):
    """Builds the harness against the working tree of REPO. Returns the binary's path."""
    # cgo: True, False, or a 32-bit architecture to build for without cgo
    tag = "nocgo" if not cgo else cgo if cgo is not True else "race" if race else "plain"
    d = os.path.join(scratch(), "h-" + tag)
    out = os.path.join(d, "harness")
    if os.path.exists(out):
        return out
    shutil.copytree(os.path.join(VERIF, "harness"), d)
    gomod = open(os.path.join(REPO, "go.mod")).read()
    reqs = re.findall(r"^require \(.*?^\)", gomod, re.S | re.M)
    reqs += re.findall(r"^require [^(\n]+$", gomod, re.M)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module verif.local/harness\n\ngo 1.24.2\n\nrequire github.com/livekit/media-sdk v0.0.0\n"
                "replace github.com/livekit/media-sdk => %s\n\n" % REPO + "\n".join(reqs) + "\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    env = go_env()
    args = [env["GO"], "build", "-o", out]
    if cgo is not True:
        env["CGO_ENABLED"] = "0"
        if cgo:
            env["GOARCH"] = cgo
    elif race:
        args += ["-race"]
    r = subprocess.run(args + ["."], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("harness does not build against %s:\n%s" % (REPO, (r.stdout + r.stderr)[-4000:]))
    return out


# ---------------------------------------------------------------- harness runs

def _run_chunk(binary, scenarios, k, timeout):
    """Runs scenarios in one process; restarts after a crash or hang. Returns {id: [events]}."""
    res = {}
    todo = list(scenarios)
    attempt = hangs = 0
    while todo:
        attempt += 1
        base = os.path.join(scratch(), "run-%d-%d-%d" % (os.getpid(), k, attempt))
        inp, outp = base + ".in", base + ".out"
        with open(inp, "w") as f:
            for s in todo:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        try:
            cwd = base + ".cwd"
            os.makedirs(cwd, exist_ok=True)
            r = subprocess.run([binary, inp, outp], capture_output=True, text=True, timeout=timeout, cwd=cwd,
                               env=dict(dict(go_env(), VERIF_WATCHDOG="60s" if os.environ.get("VERIF_TIER") == "thorough" else "20s"),
                                        **(todo[0].get("env") or {}), GOTRACEBACK="single", GOMAXPROCS="4", VERIF_RACELOG=base + ".race",
                                        GORACE="log_path=%s.race halt_on_error=0 exitcode=0 history_size=3" % base))
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = -999, "harness timed out after %ss" % timeout
        shutil.rmtree(cwd, ignore_errors=True)
        cur, done = None, set()
        last = None
        if os.path.exists(outp):
            for line in open(outp):
                if not line.endswith("\n"):
                    break
                ev = json.loads(line)
                if ev["ev"] == "reset":
                    cur = ev["sc"]
                    res[cur] = [ev]
                elif ev["ev"] == "done":
                    done.add(cur)
                    cur = None
                else:
                    res[cur].append(ev)
        for p in (inp, outp):
            if os.path.exists(p):
                os.unlink(p)
        if rc == 0:
            missing = [s["sc"] for s in todo if s["sc"] not in done]
            if missing:
                raise CheckError("harness exited 0 but skipped scenarios %s" % missing[:5])
            return res
        if rc == 5 and cur is None:
            # a panic in a bubble was recorded; the rest runs in a new process
            nleft = [s for s in todo if s["sc"] not in done]
            if attempt > 20 or not nleft:
                return res
            todo = nleft
            continue
        # crash or hang in `cur`
        if cur is None or rc == 4:
            raise CheckError("harness failed (rc=%s): %s" % (rc, err[-3000:]))
        what = "hang" if (rc == 3 or rc == -999) else "crash"
        res[cur].append({"ev": what, "detail": err[-1500:]})
        done.add(cur)
        nleft = [s for s in todo if s["sc"] not in done]
        if len(nleft) == len(todo):
            raise CheckError("harness made no progress: " + err[-2000:])
        todo = nleft
        hangs += what == "hang"
        if attempt > 20 or hangs >= 3:
            # many crashes: what we have is enough
            return res
    return res


def run_harness(binary, scenarios, timeout=240, procs=None):
    procs = procs or NCPU
    # scenarios of one process share its environment
    groups = {}
    for s in scenarios:
        groups.setdefault(json.dumps(s.get("env") or {}, sort_keys=True), []).append(s)
    chunks = []
    for g in groups.values():
        n = min(max(1, -(-procs // len(groups))), len(g))
        chunks += [g[i::n] for i in range(n)]
    n = min(procs, max(1, len(chunks)))
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda kc: _run_chunk(binary, kc[1], kc[0], timeout), enumerate(chunks)):
            res.update(r)
    return [res[s["sc"]] for s in scenarios if s["sc"] in res]


# ---------------------------------------------------------------- TLC

def _java(heap="2g"):
    return ["java", "-Djava.io.tmpdir=" + scratch(), "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap,
            "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", TLA_CP]


def tlc(module, cfg, workers=1, timeout=600, heap="2g", env=None, extra=(), sim=None):
    """Runs TLC on spec/<module>.tla with the given cfg text. Returns (rc, stdout)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = _java(heap) + ["tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
                         "-noGenerateSpecTE", "-config", "run.cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if not m:
        return None
    g, dis, left = map(int, m[-1])
    return g, dis, left


def model_check(module, cfg, workers=None, timeout=700, heap="4g", need_complete=True):
    """Exhaustive check of a bounded model. A violation here is an error of the specification."""
    rc, out = tlc(module, cfg, workers=workers or NCPU, timeout=timeout, heap=heap)
    c = tlc_counts(out)
    if rc != 0 or c is None or (need_complete and c[2] != 0):
        raise CheckError("TLC rejects the model %s (rc=%s):\n%s" % (module, rc, out[-6000:]))
    return {"module": module, "transitions": c[0], "states": c[1], "out": out}


_EDGE = re.compile(r'^"?EDGE ')


def export_edges(module, cfg, timeout=700, heap="4g"):
    """Runs a bounded model whose ACTION_CONSTRAINT prints EDGE lines: src, op, dst."""
    rc, out = tlc(module, cfg, workers=1, timeout=timeout, heap=heap)
    c = tlc_counts(out)
    if rc != 0 or c is None:
        raise CheckError("TLC rejects the model %s (rc=%s):\n%s" % (module, rc, out[-6000:]))
    edges = []
    init = None
    for line in out.split("\n"):
        if line.startswith('<<"EDGE"'):
            pass
        if line.startswith('"{') and line.endswith('}"'):
            o = json.loads(json.loads(line))
            edges.append((tuple(o["s"]), json.dumps(o["o"], sort_keys=True), tuple(o["d"])))
    if not edges:
        raise CheckError("no edges exported from %s:\n%s" % (module, out[-3000:]))
    return {"module": module, "transitions": c[0], "states": c[1], "edges": edges, "init": edges[0][0], "out": out}


def cover_paths(edges, init, maxlen=60, limit=None, rng=None):
    """Operation sequences from init that together take every edge (up to limit sequences)."""
    adj = {}
    uniq = {}
    for s, o, d in edges:
        if (s, o) not in uniq:
            uniq[(s, o)] = d
            adj.setdefault(s, []).append((o, d))
    # shortest path tree
    from collections import deque
    par = {init: None}
    q = deque([init])
    while q:
        s = q.popleft()
        for o, d in adj.get(s, ()):
            if d not in par:
                par[d] = (s, o)
                q.append(d)

    def path_to(s):
        p = []
        while par[s] is not None:
            s, o = par[s]
            p.append(o)
        return p[::-1]
    unc = {s: list(v) for s, v in adj.items() if s in par}
    total = sum(len(v) for v in unc.values())
    order = sorted(unc, key=lambda s: len(path_to(s)))
    if rng:
        rng.shuffle(order)
        for v in unc.values():
            rng.shuffle(v)
    paths = []
    covered = 0
    for s0 in order:
        while unc[s0]:
            p = path_to(s0)
            s = s0
            first = True
            while len(p) < maxlen or first:
                first = False
                if unc.get(s):
                    o, d = unc[s].pop()
                    covered += 1
                    p.append(o)
                    s = d
                else:
                    break
            paths.append([json.loads(x) for x in p])
            if limit and len(paths) >= limit:
                return paths, covered, total
    return paths, covered, total


# ---------------------------------------------------------------- trace validation

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Check <- CheckSet
POSTCONDITION TraceAccepted
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
"""


def _validate_shard(module, traces, cfg, env, timeout, heap):
    """Returns (ok, trace_index, line_in_trace, tlc output, states)"""
    path = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=scratch())
    starts = []
    n = 0
    with open(path, "w") as f:
        for t in traces:
            starts.append(n)
            for ev in t:
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
                n += 1
    rc, out = tlc(module, cfg, workers=1, timeout=timeout, heap=heap, env=dict(env or {}, TRACE=path))
    m = re.findall(r'<<"MAXL", (\d+), (\d+)>>', out)
    c = tlc_counts(out)
    os.unlink(path)
    if (not m and rc in (75, 76, 77) or m and "Error: Evaluating" in out) and "OutOfMemory" not in out and "StackOverflow" not in out:
        # what was observed has no meaning in the specification (an observation is missing, a list too short):
        # that is no step of it. The last state of the printed behaviour tells where.
        at = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        bad = int(at[-1]) - 1 if at else n
        if bad < n:
            ti = max(i for i, s in enumerate(starts) if s <= bad)
            what = [l for l in out.split("\n") if l.startswith("Error: ")][:2]
            return False, ti, bad - starts[ti], "MISMATCH no meaning in the specification: %s\n%s" % (" ".join(what), out[-1500:]), c[1] if c else 0
    if not m or c is None:
        raise CheckError("trace validation with %s failed (rc=%s):\n%s" % (module, rc, out[-6000:]))
    maxl, total = map(int, m[-1])
    if total != n:
        raise CheckError("trace length mismatch %d %d" % (total, n))
    if maxl == n + 1 and rc == 0:
        return True, None, None, out, c[1]
    if maxl == n + 1:
        raise CheckError("trace validation with %s: consumed but rc=%s:\n%s" % (module, rc, out[-5000:]))
    if "is violated" in out or "Error: Evaluating" in out:
        raise CheckError("trace validation with %s: the specification fails by itself:\n%s\n...\n%s" % (module, "\n".join(l for l in out.split("\n") if "Error" in l or "violated" in l)[:800], out[-1500:]))
    bad = maxl - 1  # 0-based line that could not be matched
    ti = max(i for i, s in enumerate(starts) if s <= bad)
    return False, ti, bad - starts[ti], out, c[1]


def validate(module, traces, cfg=TRACE_CFG, check=None, timeout=600, heap="3g", shards=None, extra_cfg="", env=None):
    """Validates traces against the trace specification. Returns a dict with ok / the rejected trace."""
    if not traces:
        raise CheckError("no traces to validate")
    size = sum(len(t) for t in traces)
    shards = shards or max(1, min(NCPU, size // 1500 + 1, len(traces)))
    e = dict(env or {})
    if check is not None:
        e["CHECK"] = ",".join(check)
    idx = list(range(len(traces)))
    idx.sort(key=lambda i: -len(traces[i]))
    parts = [idx[i::shards] for i in range(shards)]
    parts = [sorted(p) for p in parts if p]
    cfg = cfg + extra_cfg
    res = {"ok": True, "states": 0, "events": size, "traces": len(traces), "rejected": []}
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(lambda p: _validate_shard(module, [traces[i] for i in p], cfg, e, timeout, heap), parts))
    for p, (ok, ti, li, out, st) in zip(parts, rs):
        res["states"] += st
        if not ok:
            res["ok"] = False
            mm = [l for l in out.split("\n") if "MISMATCH" in l] or ["not possible here: " + json.dumps(traces[p[ti]][li])[:1200]]
            res["rejected"].append({"trace": p[ti], "line": li, "why": mm[-6:], "tlc": out[-2500:]})
    return res
