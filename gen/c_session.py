from flow import Model, Part

MC = ["Ops <- SOps", "Apply <- SMApply", "Starts <- SStarts", "View <- SView", "Good <- SGood"]


def renumber(ops, rng=None):
    out = []
    i = 0
    for o in ops:
        o = dict(o)
        if o["ev"] in ("inject", "send"):
            i += 1
            o["id"] = i % 250
            o["size"] = 0
        out.append(o)
    return out


def to_scenario(name, ops):
    return dict(sc=name, comp="session", cfg=dict(reuse=len(ops) % 2 == 0), ops=renumber(ops) + [dict(ev="close"), dict(ev="sleep")])


def models(tier):
    q = tier == "quick"
    return [Model("MCRtpSession", MC + ["SSRCs = {1, 2}", 'Kinds = {"rtp", "short", "fault"}', "MaxReaders = 2"], 8 if q else 9, name="session"),
            Model("MCRtpSession", MC + ["SSRCs = {1}", 'Kinds = {"rtp"}', "MaxReaders = 1"], 16 if q else 26, name="session-queue"),
            Model("MCRtpSession", MC + ["SSRCs = {1, 2}", 'Kinds = {"rtp", "short"}', "MaxReaders = 2"], 6 if q else 8, name="session-replay",
                  export=True, to_scenario=to_scenario, limit=1000 if q else 8000)]


def gen_one(rng, name):
    ops = []
    ssrcs = [rng.randint(1, 2000000000) for _ in range(rng.choice([1, 2, 3]))]
    known = []
    reading = {}  # readers waiting, and the size of their buffers
    accepting = False
    conn = []
    closed = False
    # a small copy of the bookkeeping, only to issue calls which make sense
    qs = {}
    bias = rng.random()
    N = rng.choice([15, 40, 80])

    def pump():
        nonlocal accepting
        while accepting and conn:
            o = conn.pop(0)
            if o["kind"] == "fault":
                accepting = False
            elif o["kind"] != "rtp" or o["big"]:
                continue
            elif o["ssrc"] not in known:
                known.append(o["ssrc"])
                accepting = False
            elif known.index(o["ssrc"]) in reading and not qs.get(o["ssrc"]):
                k = known.index(o["ssrc"])
                reading[k][0] -= 1
                if not reading[k][0]:
                    del reading[k]
                continue
            if o["kind"] == "rtp" and not o["big"]:
                qs[o["ssrc"]] = min(10, qs.get(o["ssrc"], 0) + 1)
    for _ in range(N):
        x = rng.random()
        if x < .45 + .2 * bias:
            kind = rng.choice(["rtp"] * 12 + ["short", "csrc", "ext", "empty", "fault"])
            o = dict(ev="inject", kind=kind, ssrc=rng.choice(ssrcs), id=0, len=rng.choice([0, 1, 1, 5, 160, 160, 1000]), size=0)
            big = False
            if rng.random() < .05 and kind == "rtp":
                o["len"] = rng.choice([1440, 1488, 1489, 1500, 3000])
            if kind != "rtp":
                o["ssrc"], o["len"] = 0, 0
            ops.append(o)
            # boundary sizes may or may not be usable: the specification decides (see below)
            conn.append(dict(o, big=o["len"] >= 1440))
            if o["len"] >= 1440:
                o["ssrc"] = ssrcs[0]
                conn.pop()
                # only to known streams, so that this copy stays exact
                if ssrcs[0] not in known or not accepting:
                    ops.pop()
                    continue
                k = known.index(ssrcs[0])
                if k in reading:
                    ops.pop()
                    continue
                pump()
                continue
            pump()
        elif x < .8 and not accepting:
            ops.append(dict(ev="accept"))
            if not closed:
                accepting = True
                pump()
        elif known:
            k = rng.randrange(len(known))
            cap = rng.choice([1500, 1500, 200, 1, 0])
            if k in reading:
                if rng.random() < .7 or reading[k][0] > 3:
                    continue
                cap = reading[k][1]
            ops.append(dict(ev="read", k=k, cap=cap))
            if qs.get(known[k]):
                qs[known[k]] -= 1
            elif not closed:
                reading[k] = [reading.get(k, [0])[0] + 1, cap]
        if rng.random() < .08:
            ops.append(dict(ev="send", kind="rtp", ssrc=rng.choice(ssrcs), id=0, len=rng.choice([0, 1, 160, 1400]), size=0))
        if rng.random() < .006 and not closed:
            ops.append(dict(ev="close"))
            closed = True
            accepting = False
            conn.clear()
            reading.clear()
    ops += [dict(ev="close"), dict(ev="sleep")]
    return dict(sc=name, comp="session", cfg=dict(reuse=rng.random() < .5), ops=renumber(ops))


def many(rng, name, n):
    """Many senders."""
    ssrcs = rng.sample(range(1, 2000000000), n)
    ops = []

    def inject(x):
        ops.append(dict(ev="inject", kind="rtp", ssrc=x, id=0, len=rng.choice([0, 1, 5, 160]), size=0))
    for x in ssrcs:
        inject(x)
        ops.append(dict(ev="accept"))
    ops.append(dict(ev="accept"))  # takes what comes below
    for _ in range(2):
        for k in rng.sample(range(n), n):
            inject(ssrcs[k])
            for _ in range(1 + (_ == 0)):  # the first one that was sent waits too
                if rng.random() < .9:
                    ops.append(dict(ev="read", k=k, cap=1500))
                else:
                    break
    ops += [dict(ev="close"), dict(ev="sleep")]
    return dict(sc=name, comp="session", cfg=dict(reuse=rng.random() < .5), ops=renumber(ops))


def gen(rng, tier):
    return [gen_one(rng, "r%d" % i) for i in range(700 if tier == "quick" else 8000)] + \
           [many(rng, "many%d" % i, n) for i, n in enumerate([40, 70, 140] if tier == "quick" else [40, 70, 140, 300, 300, 600])]


SUITES = ["AES_CM_128_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32"]


def gen_par(rng, tier, srtp=False):
    out = []
    for i in range((60 if tier == "quick" else 600) if not srtp else (30 if tier == "quick" else 300)):
        n, early = rng.choice([100, 240]), 0
        if rng.random() < .6:
            early = rng.choice([1, 5, rng.randrange(1, n), rng.randrange(1, n)])
        c = dict(streams=rng.choice([1, 2, 3]), n=n, window=rng.choice([1, 2, 5, 10]), acceptors=rng.choice([1, 1, 2, 3]),
                 closers=rng.choice([1, 1, 2, 4]), writers=0 if srtp else rng.choice([0, 1, 3]), early=early, suite=rng.choice(SUITES) if srtp else "",
                 readers=1 if srtp else rng.choice([1, 1, 2, 3]))
        out.append(dict(sc="p%d" % i, comp="sessionpar", cfg=c, ops=[]))
    if not srtp:
        for i in range(12 if tier == "quick" else 80):
            c = dict(streams=1, n=20000, window=rng.choice([2, 3, 3, 4]), acceptors=1, writers=0, readers=rng.choice([2, 3, 3, 4]))
            out.append(dict(sc="m%d" % i, comp="sessionmany", cfg=c, ops=[]))
    return out


def seq(check):
    return Part("session", "TraceRtpSession", ["Step <- SStep", "InitOf <- SInitOf"], check, gen=gen, invariants=["Inv"], models=models)


def par(check):
    return Part("sessionpar", "TraceRtpSessionPar", ["Step <- QStep", "InitOf <- QInit"], check, gen=gen_par, procs=4, sure=True)


A = ["connection: an in-memory datagram connection; readers waiting for one stream have buffers of one size"]
PROPS = {
    "C11": lambda: dict(parts=lambda tier: [seq(["reads", "acc", "sent", "whole"]), par(["whole", "order"])], assumptions=A),
    "C12": lambda: dict(parts=lambda tier: [seq(["reads", "acc", "serr"]), par(["eof", "order"])], assumptions=A),
}
