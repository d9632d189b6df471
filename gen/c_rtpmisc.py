import os
from flow import Model, Part

# ------------------------------------------------------------ mux
XMCM = ["Ops <- MOps", "Apply <- MApply", "Starts <- MStarts", "View <- MView", "Good <- MGood"]
XMC = ["Ops <- XOps", "Apply <- MxApply", "Starts <- XStarts", "View <- XView", "Good <- XGood"]


def mux_scenario(name, ops):
    return dict(sc=name, comp="mux", cfg=dict(**{"def": 0}), ops=[dict(o, id=i % 250) if o["ev"] == "handle" else o for i, o in enumerate(ops)])


def mux_models(tier):
    return [Model("MCRtpMux", XMC + ["Types = {0, 34, 35, 95}" if tier == "quick" else "Types = {0, 34, 35, 95, 96, 127}", "Hs = {0, 1, 2}"], 30, name="mux", export=True,
                  to_scenario=mux_scenario, limit=600 if tier == "quick" else 20000)]


def mux_gen(rng, tier):
    out = []
    for i in range(150 if tier == "quick" else 2000):
        types = rng.sample([0, 1, 8, 9, 33, 34, 35, 36, 94, 95, 96, 97, 101, 126, 127], 5) + ([128, 200, 255] if rng.random() < .2 else [])
        ops = []
        for j in range(40):
            x = rng.random()
            if x < .3:
                ops.append(dict(ev="register", typ=rng.choice(types), h=rng.choice([0, 1, 2, 3, 4, 5])))
            elif x < .38:
                ops.append(dict(ev="default", h=rng.choice([0, 6, 7])))
            elif x < .4:
                ops.append(dict(ev="nilmux"))
            else:
                ops.append(dict(ev="handle", typ=rng.choice(types), id=j))
        out.append(dict(sc="x%d" % i, comp="mux", cfg={"def": rng.choice([0, 8, 9])}, ops=ops))
    return out


def muxpar_gen(rng, tier):
    out = []
    for i in range(80 if tier == "quick" else 1000):
        types = rng.sample([0, 8, 33, 34, 35, 36, 94, 95, 96, 97, 101, 127], rng.choice([1, 2, 4]))
        threads, ops, n = rng.choice([2, 3, 4]), [], 0
        for t in range(threads):
            role = rng.choice(["mixed", "handle", "register", "string"])
            for _ in range(25):
                n += 1
                k = rng.choice({"mixed": ["handle", "handle", "register", "default"], "handle": ["handle"], "register": ["register", "default", "register"], "string": ["string"]}[role])
                ops.append(dict(t=t, k=k, typ=rng.choice(types), h=rng.randrange(10), id=n % 250, nap=rng.choice([0, 0, 1000])))
        out.append(dict(sc="p%d" % i, comp="muxpar", cfg={"def": rng.choice([0, 9]), "threads": threads}, ops=ops))
    return out


# ------------------------------------------------------------ HandleLoop, HandleJitter
def loop_gen(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 600):
        ops = []
        for _ in range(10):
            n = rng.randint(0, 12)
            ops.append(rng.choice([dict(ev="loop", n=n, bad=rng.randint(0, n + 1)), dict(ev="nop", n=n, bad=rng.randint(0, n + 1)),
                                   dict(ev="nilfunc", n=n), dict(ev="in", p=[rng.randrange(256) for _ in range(n)], fail=rng.random() < .3)]))
        out.append(dict(sc="l%d" % i, comp="handle", ops=ops))
    out.append(dict(sc="long", comp="handle", ops=[dict(ev="loop", n=n, bad=b) for n, b in ((700, 800), (700, 600), (2000, 2001))]))
    return out


def jit_gen(rng, tier):
    out = []
    for i in range(500 if tier == "quick" else 6000):
        n = rng.choice([10, 25, 50])
        sn = rng.choice([0, 65520, 65530, 1000])
        seq = []
        loss, reo, dup = rng.choice([0, .1, .3]), rng.choice([0, .1, .4]), rng.choice([0, .1])
        for j in range(n):
            if rng.random() < loss:
                continue
            t = j + (rng.choice([1.5, 2.5, 4.5, 9.5]) if rng.random() < reo else 0)
            seq.append((t, (sn + j) % 65536))
            if rng.random() < dup:
                seq.append((t + rng.choice([.2, 3.3]), (sn + j) % 65536))
        seq.sort()
        ops = []
        for j, (_, s) in enumerate(seq):
            ops.append(dict(ev="rtp", id=j + 1, sn=s, pad=rng.random() < .04))
            if rng.random() < .6:
                # never a multiple of a millisecond: nothing is due at the very time of a call
                ops.append(dict(ev="sleep", d=1000 * rng.choice([0, 1, 5, 20, 20, 30, 59, 60, 61, 120]) + 1))
            if rng.random() < .01:
                ops.append(dict(ev="close", d=rng.choice([0, 70001, 200001])))
        ops += [dict(ev="sleep", d=500001), dict(ev="rtp", id=n * 3, sn=(sn + n + 5) % 65536, pad=False), dict(ev="sleep", d=500001)]
        bad = rng.sample(range(1, n), rng.choice([0, 0, 1, 4, 8]))
        out.append(dict(sc="j%d" % i, comp="handlejitter", cfg=dict(bad=bad), ops=ops))
    return out


# ------------------------------------------------------------ port ranges
def port_gen(rng, tier):
    out = []
    n = 300 if tier == "quick" else 4000
    for i in range(n):
        ops = []
        for _ in range(6):
            lo = rng.choice([0, -1, 1, 5000, 40000, 65530, 65535, 65533])
            w = rng.choice([0, 0, 1, 2, 3, 5])
            hi = lo + w
            k = rng.random()
            if k < .08:
                lo, hi = rng.choice([(0, 0), (-5, 0), (0, -1), (-3, -3), (10, 5), (65536, 70000), (70000, 70001), (20, 19)])
            elif k < .16:
                lo, hi = rng.choice([(65533, 0), (65534, 70000), (0, 3), (-7, 2), (65535, 65536), (65530, -1), (1, 1), (65535, 65535)])
            a, b = max(lo, 1), min(hi if hi > 0 else 65535, 65535)
            ports = list(range(a, b + 1)) if b - a < 20 else []
            used = [p for p in ports if rng.random() < rng.choice([0, .5, .9, 1])]
            denied = [p for p in ports if p not in used and rng.random() < .15]
            if rng.random() < .1 and ports:
                used, denied = ports, []
            if lo <= 0 and hi <= 0:
                used, denied = rng.choice([([], []), ([0], []), ([], [0])])
            ops.append(dict(ev="try", lo=lo, hi=hi, used=used, denied=denied, allused=False, free=[]))
        out.append(dict(sc="t%d" % i, comp="ports", cfg=dict(ip=rng.choice(["127.0.0.1", "0.0.0.0", "127.9.8.7", "::1", "::"])), ops=ops))
    # large ranges, nearly all in use
    for i in range(6 if tier == "quick" else 40):
        lo, w = rng.choice([(1024, 700), (20000, 2999), (10000, 9999), (60000, 5535)])
        if i == 0:
            lo, w = rng.choice([(1, 65534), (1024, 64511), (0, 65535)])
        ports = range(max(lo, 1), lo + w + 1)
        k = rng.choice([0, 1, 1, 1, 2])
        few = rng.sample(ports, k)
        out.append(dict(sc="l%d" % i, comp="ports", cfg=dict(ip="127.0.0.1"),
                        ops=[dict(ev="try", lo=lo, hi=lo + w, used=[], denied=[p for p in few[1:]], allused=True, free=few[:1])]))
    for i in range(12 if tier == "quick" else 60):
        base = 30000 + rng.randrange(20000)
        ops = []
        for _ in range(4):
            w = rng.choice([0, 1, 2, 4])
            ports = list(range(base, base + w + 1))
            used = [p for p in ports if rng.random() < rng.choice([.3, .7, 1])]
            ops.append(dict(ev="real", lo=base, hi=base + w, used=used, denied=[], allused=False, free=[], lc=rng.random() < .5))
        ops.append(dict(ev="real", lo=0, hi=0, used=[], denied=[], allused=False, free=[], lc=rng.random() < .5))
        # a loopback address of its own: nobody else has sockets there
        out.append(dict(sc="s%d" % i, comp="ports", cfg=dict(ip="127.%d.%d.%d" % (100 + os.getpid() % 100, 1 + i, 1 + rng.randrange(250))), ops=ops))
    return out


def port_models(tier):
    n = 4 if tier == "quick" else 6
    return [Model("MCPortRange", ["Lo = 1", "Hi = %d" % n], None, invariants=("InvOrderly", "InvDone"), properties=("Ends",), spec="Spec",
                  view=False, bound=False, name="ports")]


def sc_handle(name, ops):
    n = sum(o["ev"] == "packet" for o in ops)
    return dict(sc=name, comp="handle", ops=[dict(ev=k, n=n, bad=n if any(o["ev"] == "bad" for o in ops) else 0) for k in ("loop", "nop", "nilfunc")])


def handle_models(tier):
    return [Model("MCHandle", XMCM + ["MaxPackets = %d" % (6 if tier == "quick" else 20)], 100, name="handle", export=True, to_scenario=sc_handle)]


def sc_handlejit(name, ops):
    return dict(sc=name, comp="handlejitter", cfg=dict(bad=ops[0]["bad"] if ops else []), ops=ops[1:])


def handlejit_models(tier):
    q = tier == "quick"
    return [Model("MCHandleJitter", XMCM + ["M = 65536", "R = 3000", "SNs = {65534, 65535, 0, 1}", "Sleeps = {20250, 60000}" if q else "Sleeps = {250, 20250, 60000}",
                                           "MaxPushed = %d" % (4 if q else 5), "BadSets <- Bads"], 6 if q else 8, name="handlejitter", export=True,
                  to_scenario=sc_handlejit, limit=500 if q else 6000)]


PROPS = {
    "C13": lambda: dict(parts=lambda tier: [Part("mux", "TraceRtpMux", ["Step <- XStep", "InitOf <- XInit"], ["hits", "err", "desc"], gen=mux_gen,
                                                 invariants=["Inv"], models=mux_models, loose=["desc"]),
                                            Part("muxpar", "TraceRtpMuxPar", ["Accept <- PAccept", "Hidden <- PHidden", "InitOf <- PInit"], ["err"],
                                                 gen=muxpar_gen, sure=True)], assumptions=[]),
    "C14": lambda: dict(parts=lambda tier: [Part("ports", "TracePortRange", ["Step <- VStep", "InitOf <- VInit"], ["res", "port", "tried"],
                                                 gen=port_gen, models=port_models, selftest=True)],
                        assumptions=["most attempts are answered by a stand-in through net.ListenConfig.Control"]),
    "C15": lambda: dict(parts=lambda tier: [
        Part("handlejitter", "TraceHandleJitter", ["Step <- HStep", "InitOf <- HInit", "M = 65536", "R = 3000"],
             ["out", "ret", "whole", "closes", "cbs"], gen=jit_gen, models=handlejit_models),
        Part("handle", "TraceRtpHandle", ["Step <- LStep", "InitOf <- LInit"], ["seen", "err", "closes", "late"], gen=loop_gen, models=handle_models)],
        assumptions=["virtual time (testing/synctest)"]),
}
