"""The generic check: model checking, scenarios from the model, random scenarios, trace validation, verdict."""
import copy, json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import core
from core import CheckError, log, VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Model:
    """A bounded model: TLC explores it completely; with export its transitions become scenarios."""

    def __init__(self, module, consts, depth, invariants=("ModelInv",), export=False, view=True, limit=None,
                 spec="ModelSpec", extra="", to_scenario=None, symmetry=False, name=None, bound=True, start=None,
                 properties=(), workers=None, batch=1):
        # cgo: whether the code is built with cgo
        self.__dict__.update(locals())

    def cfg(self, export=None):
        c = "SPECIFICATION %s\n" % self.spec
        c += "CONSTANTS\n" + "".join("  %s\n" % x for x in self.consts)
        if self.depth is not None:
            c += "  Depth = %d\n" % self.depth
        for i in self.invariants:
            c += "INVARIANT %s\n" % i
        for i in self.properties:
            c += "PROPERTY %s\n" % i
        if self.bound:
            c += "CONSTRAINT Bound\n"
        if self.view:
            c += "VIEW ModelView\n"
        if self.export if export is None else export:
            c += "ACTION_CONSTRAINT Export\n"
        c += "CHECK_DEADLOCK FALSE\n" + self.extra
        return c


# the components these properties are about are used by several goroutines: the harness is built with the
# race detector, and a data race is no step of any specification
RACE = {"C%02d" % i for i in (1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 18, 19, 20, 21, 22, 25, 34, 39)}


class Part:
    """One bound specification: a trace module, the models that go with it and the scenario generators."""

    def __init__(self, name, trace_module, consts, check, gen=None, invariants=(), models=None,
                 repro=1, shards=None, selftest=True, trace_cfg=None, timeout=240, tlc_timeout=700, post=None, heap="3g",
                 procs=None, corrupt=None, loose=(), sure=False, cgo=True):
        # loose: observations which the specification only bounds (not used by the self-test)
        # sure: what happens depends on the schedule, a recorded violation counts without happening again
        self.__dict__.update(locals())

    def cfg(self):
        if self.trace_cfg:
            return self.trace_cfg
        c = "SPECIFICATION TraceSpec\nCONSTANTS\n  Check = {%s}\n" % ", ".join('"%s"' % x for x in self.check)
        c += "".join("  %s\n" % x for x in self.consts)
        c += "POSTCONDITION TraceAccepted\nCONSTRAINT Progress\nCHECK_DEADLOCK FALSE\n"
        for i in self.invariants:
            c += "INVARIANT %s\n" % i
        return c


def _corrupt(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, list):
        v = copy.deepcopy(v)
        if v and rng.random() < 0.5:
            i = rng.randrange(len(v))
            v[i] = _corrupt(v[i], rng)
            return v
        if v:
            del v[rng.randrange(len(v))]
            return v
        return [0]
    if isinstance(v, dict):
        v = copy.deepcopy(v)
        if v:
            k = rng.choice(sorted(v))
            v[k] = _corrupt(v[k], rng)
        return v
    return v


def selftest(part, traces, rng, n):
    """Corrupts one bound observation of a recorded trace: the specification must reject it.
    Some calls leave an observation open, so that another trace is tried before giving up."""
    cand = []
    order = list(range(len(traces)))
    rng.shuffle(order)
    for f in part.check:
        if f in part.loose:
            continue
        ts = []
        for i in order:
            # prefer observations that are not empty
            js = [j for j, e in enumerate(traces[i]) if f in e.get("o", {}) and e_nontrivial(e["o"][f])]
            if js:
                j = rng.choice(js)
                t = copy.deepcopy(traces[i][: j + 1])
                t[j]["o"][f] = _corrupt(t[j]["o"][f], rng)
                ts.append(t)
                if len(ts) == 5:
                    break
        if ts:
            cand.append((f, ts))
    cand = cand[:n]
    if not cand:
        return 0

    def rejected(c):
        return any(not core.validate(part.trace_module, [t], cfg=part.cfg(), shards=1, timeout=part.tlc_timeout)["ok"] for t in c[1])
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(rejected, cand))
    for (f, ts), r in zip(cand, rs):
        if not r:
            raise CheckError("self-test: %s accepts traces with a corrupted %r: %s" % (part.name, f, json.dumps(ts[0][-1])))
    return len(cand)


def e_nontrivial(v):
    return v not in ([], "", {}, None)


def short(ev, n=600):
    s = json.dumps(ev, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


class Outcome:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = self.tstates = 0
        self.samples, self.models, self.parts, self.violations = [], [], [], []
        self.actions = {}


def run_models(models, out, rng):
    scen = []
    for m in models:
        if m.export:
            r = core.export_edges(m.module, m.cfg())
            paths, cov, tot = core.cover_paths(r["edges"], r["init"], limit=m.limit, rng=rng)
            for i in range(0, len(paths), m.batch):
                p = [o for q in paths[i:i + m.batch] for o in q]
                scen.append(m.to_scenario("m-%s-%d" % (m.name or m.module, i), p))
            out.models.append({"model": m.name or m.module, "states": r["states"], "transitions": r["transitions"],
                               "depth": m.depth, "replayed_transitions": cov, "distinct_transitions": tot,
                               "sequences": len(paths)})
        else:
            r = core.model_check(m.module, m.cfg(), workers=m.workers)
            out.models.append({"model": m.name or m.module, "states": r["states"], "transitions": r["transitions"],
                               "depth": m.depth})
        out.states += r["states"]
        out.transitions += r["transitions"]
    return scen


def run_part(prop, part, tier, seed, out, replay_dir):
    rng = random.Random("%s/%s/%s" % (part.name, seed, tier))
    t0 = time.time()
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(core.build_harness, prop in RACE, part.cgo)
        scen = run_models(part.models(tier) if part.models else [], out, rng)
        try:
            binary = fb.result()
        except CheckError as e:
            if part.cgo is True:
                raise
            # it builds with cgo (or this is an error), so it must without
            core.build_harness(prop in RACE)
            violation(prop, part, tier, seed, out, replay_dir, "build", {"scenario": None, "trace": [], "line": 0, "why": ["without cgo: " + str(e)]})
            return
    t1 = time.time()
    nm = len(scen)
    if part.gen:
        scen = scen + part.gen(rng, tier)
    names = set()
    for s in scen:
        if s["sc"] in names:
            raise CheckError("duplicate scenario " + s["sc"])
        names.add(s["sc"])
    traces = core.run_harness(binary, scen, timeout=part.timeout * (1 if tier == "quick" else 4), procs=part.procs)
    if part.post:
        traces = [part.post(t) for t in traces]
    t2 = time.time()
    res = core.validate(part.trace_module, traces, cfg=part.cfg(), shards=part.shards, timeout=part.tlc_timeout * (5 if tier == "thorough" else 1), heap=part.heap)
    t3 = time.time()
    out.traces += res["traces"]
    out.events += res["events"]
    out.tstates += res["states"]
    for t in traces:
        for e in t:
            k = part.name + ":" + e["ev"]
            out.actions[k] = out.actions.get(k, 0) + 1
    for t in rng.sample(traces, min(2, len(traces))):
        out.samples.append({"part": part.name, "scenario": t[0].get("sc"), "events": [short(e, 240) for e in t[:6]],
                            "length": len(t)})
    info = {"part": part.name, "scenarios_from_model": nm, "random_scenarios": len(scen) - nm,
            "events": res["events"], "trace_states": res["states"], "observations": list(part.check),
            "seconds": {"model": round(t1 - t0, 1), "impl": round(t2 - t1, 1), "validate": round(t3 - t2, 1)}}
    out.parts.append(info)
    if res["ok"]:
        if part.selftest:
            info["corrupted_traces_rejected"] = selftest(part, traces, rng, 2 if tier == "quick" else 6)
        return
    byname = {s["sc"]: s for s in scen}
    for rej in res["rejected"]:
        t = traces[rej["trace"]]
        sc = byname[t[0]["sc"]]
        v = confirm(part, binary, sc, t, rej)
        if v:
            violation(prop, part, tier, seed, out, replay_dir, sc["sc"], v)
            if len(out.violations) >= 3:
                return


def violation(prop, part, tier, seed, out, replay_dir, name, v):
    path = os.path.join(replay_dir, "%s-%s-%s.json" % (prop, part.name, name.replace("/", "_")))
    os.makedirs(replay_dir, exist_ok=True)
    v.update(property=prop, part=part.name, seed=seed, tier=tier, path=path)
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    out.violations.append(v)


def confirm(part, binary, sc, trace, rej):
    """Runs the scenario again, alone: a violation counts only if the real code shows it again."""
    for k in range(max(part.repro, 4)):
        tr = core.run_harness(binary, [sc], timeout=part.timeout)
        if part.post:
            tr = [part.post(t) for t in tr]
        r = core.validate(part.trace_module, tr, cfg=part.cfg(), shards=1, timeout=part.tlc_timeout)
        if not r["ok"]:
            j = r["rejected"][0]
            return {"scenario": sc, "trace": tr[0][: j["line"] + 1], "line": j["line"], "why": j["why"] or [j["tlc"][-1500:]],
                    "trace_module": part.trace_module, "cfg": part.cfg()}
    ev = trace[rej["line"]]["ev"]
    if ev == "race" or part.sure and ev != "hang":
        # depends on the schedule: the recorded trace is the evidence
        return {"scenario": sc, "trace": trace[: rej["line"] + 1], "line": rej["line"], "why": rej["why"] or [rej["tlc"][-1500:]],
                "trace_module": part.trace_module, "cfg": part.cfg()}
    raise CheckError("part %s: scenario %s was rejected once but not again:\n%s\n%s" %
                     (part.name, sc["sc"], rej["why"] or rej["tlc"][-1500:],
                      "\n".join(short(e) for e in trace[max(0, rej["line"] - 3): rej["line"] + 1])))


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                out.append(line)
    return out


def run_check(prop, spec):
    """spec: dict(parts=[Part...], title=...)."""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    out = Outcome()
    replay_dir = os.path.join(VERIF, "evidence", "replays")
    rc = 0
    err = None
    try:
        parts = spec["parts"](tier)
    except Exception:
        parts, err = [], traceback.format_exc()
    for part in parts:
        # a part that fails gives no answer, but another one may still find a violation
        try:
            run_part(prop, part, tier, seed, out, replay_dir)
        except CheckError as e:
            err = err or str(e)
        except Exception:
            err = err or traceback.format_exc()
        if out.violations:
            break
    if err and not out.violations:
        log("ERROR property=%s %s" % (prop, err))
        rc = 2
    for v in out.violations:
        log("  %s: " % v["part"] + ("the code does not build" if v["scenario"] is None else
            "scenario %s, event %d of the trace is not a step of the specification" % (v["scenario"]["sc"], v["line"])))
        for w in v["why"][:4]:
            log("   ", w[:1500])
        log("VIOLATION property=%s replay=%s" % (prop, v["path"]))
        rc = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": out.states, "transitions": out.transitions,
                       "traces_validated_against_impl": out.traces,
                       "trace_events": out.events, "trace_states": out.tstates,
                       "events_by_kind": out.actions, "models": out.models, "parts": out.parts,
                       "samples": out.samples or [{"note": "no trace was recorded"}]},
          "assumptions": spec.get("assumptions", []),
          "violations": len(out.violations), "wall_s": round(time.time() - t0, 2)}
    if rc == 2:
        ev["coverage"]["error"] = (err or "")[:2000]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s tier=%s seed=%d states=%d transitions=%d traces=%d events=%d %.1fs" %
        (prop, {0: "ok", 1: "VIOLATED", 2: "ERROR"}[rc], tier, seed, out.states, out.transitions, out.traces,
         out.events, time.time() - t0))
    return rc
