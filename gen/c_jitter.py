from flow import Model, Part

CONSTS = ["Step <- JStep", "InitOf <- JInit", "M = 65536", "R = 3000"]
MC = ["Ops <- JOps", "Apply <- JApply", "Starts <- JStarts", "View <- JView", "Good <- JGood", "M = 65536", "R = 3000"]


def to_scenario(name, ops):
    ops = [dict(o, id=i) if o["ev"] == "push" else o for i, o in enumerate(ops)]
    return dict(sc=name, comp="jitter", cfg=dict(lat=20250), ops=ops)


def models(tier):
    q = tier == "quick"
    full = MC + ["SNs = {65535, 0, 1, 3100}", "Flags <- Full", "Sleeps = {10000, 21000}", "Lats = {5250}", 'Ctl = {"flush", "close"}']
    audio = MC + ["SNs = {65534, 65535, 0, 1, 2}", "Flags <- Audio", "Sleeps = {10000}", "Lats = {5250}", 'Ctl = {"flush"}']
    small = MC + ["SNs = {65535, 0, 1}", "Flags <- Few", "Sleeps = {21000}", "Lats = {5250}", 'Ctl = {"flush"}']
    ms = [Model("MCJitter", full, 5 if q else 6, name="jitter-full"),
          Model("MCJitter", audio, 7 if q else 9, name="jitter-audio"),
          Model("MCJitter", small, 6 if q else 7, name="jitter-replay", export=True, to_scenario=to_scenario,
                limit=1500 if q else 12000)]
    return ms


def stream(rng, n, profile):
    """An RTP stream as a network delivers it: sent in order, then lost, duplicated, reordered, delayed."""
    sn = rng.choice([0, 1, 65500, 65530, 65535, 32760, 1000])
    pk = []
    k = 0
    while len(pk) < n:
        size = 1 if profile == "audio" else rng.choice([1, 1, 2, 3, 5])
        if profile == "jump" and rng.random() < .06:
            sn = (sn + rng.choice([2998, 2999, 3000, 3001, 5000, 20000, 32767, 32768, 40000, -4000, -2999])) % 65536
        for i in range(size):
            pk.append(dict(sn=sn, st=i == 0, en=i == size - 1, pad=False))
            sn = (sn + 1) % 65536
        if rng.random() < (.25 if profile == "padding" else .03):
            # padding only packets: for audio payloads they look like a whole sample
            f = profile == "audio" or rng.random() < .5
            pk.append(dict(sn=sn, st=f, en=f, pad=True))
            sn = (sn + 1) % 65536
    out = []
    loss = rng.choice([0, .02, .1, .3])
    dup = rng.choice([0, .05, .2])
    reo = rng.choice([0, .1, .4])
    for i, p in enumerate(pk):
        if rng.random() < loss:
            continue
        t = float(i)
        if rng.random() < reo:
            t += rng.choice([1.5, 2.5, 5.5, 12.5])
        out.append((t, p))
        if rng.random() < dup:
            out.append((t + rng.choice([0.1, 1.2, 3.3, 9.4]), dict(p)))
    out.sort(key=lambda x: x[0])
    return [p for _, p in out]


def gen_one(rng, name, n):
    profile = rng.choice(["audio", "audio", "video", "video", "padding", "jump", "chaos"])
    lat = 250 + 1000 * rng.choice([1, 10, 20, 60, 60, 200])
    if rng.random() < .05:
        lat = 0
    if profile == "chaos":
        base = rng.choice([0, 65530, 1000])
        pks = []
        for _ in range(n):
            base = (base + rng.choice([1, 1, 1, 2, 0, -1, 3])) % 65536
            s = (base + rng.choice([0, 0, 0, 0, -1, -2, 1, 2])) % 65536
            if rng.random() < .03:
                s = (s + rng.choice([2999, 3000, 3001, 40000])) % 65536
            pks.append(dict(sn=s, st=rng.random() < .7, en=rng.random() < .7, pad=rng.random() < .1))
    else:
        pks = stream(rng, n, profile)
    api = rng.choice(["push", "at", "ext", "batch", "mix"])
    burst = rng.choice([.2, .6, .9])
    late = rng.random() < .3
    ctl = rng.choice([0, .01, .06])
    ops = []
    for i, p in enumerate(pks):
        a = rng.choice(["push", "at", "ext", "batch"]) if api == "mix" else api
        ago = 0
        if late and a != "push" and rng.random() < .3:
            ago = 1000 * rng.choice([1, 5, 30, 100, -5, -30])
        ops.append(dict(ev="push", id=i, api=a, ago=ago, **p))
        if rng.random() > burst:
            ops.append(dict(ev="sleep", d=1000 * rng.choice([1, 3, 10, 20, 20, 60, 150])))
        if rng.random() < ctl:
            ops.append(rng.choice([dict(ev="flush"), dict(ev="latency", d=250 + 1000 * rng.choice([0, 5, 10, 60, 100]))]))
        if ctl and rng.random() < ctl / 20:
            ops.append(dict(ev="close"))
    if rng.random() < .25:
        ops = batches(rng, ops)
    ops.append(rng.choice([dict(ev="flush"), dict(ev="sleep", d=500000), dict(ev="close")]))
    ops.append(dict(ev="sleep", d=500000))
    return dict(sc=name, comp="jitter", cfg=dict(lat=lat, mute=rng.random() < .06), ops=ops)


def batches(rng, ops):
    """Neighbouring packets are given in one call."""
    out = []
    for o in ops:
        if o["ev"] != "push":
            out.append(o)
            continue
        o = {k: v for k, v in o.items() if k not in ("ev", "api")}
        if out and out[-1]["ev"] == "batch" and rng.random() < .8:
            out[-1]["ps"].append(o)
        else:
            out.append(dict(ev="batch", ps=[o]))
    return out


def big(rng, name, n, gap=None):
    """Many packets wait behind a gap or in one sample."""
    sn, lat = rng.choice([0, 65000, 65535 - n, 40000]), 250 + 1000 * rng.choice([60, 200, 1000])
    one = rng.random() < .5 and gap is None
    pk = [dict(sn=(sn + i) % 65536, st=not one or i == 0, en=not one or i == n - 1, pad=False, id=i, ago=0) for i in range(n)]
    gaps = set(rng.sample(range(n), rng.choice([0, 1, 3]))) if gap is None else {gap}
    rest = [p for i, p in enumerate(pk) if i not in gaps]
    if rng.random() < .5:
        a, b = sorted(rng.sample(range(len(rest)), 2))
        rest[a:b] = reversed(rest[a:b]) if rng.random() < .5 else rng.sample(rest[a:b], b - a)
    ops = [dict(ev="push", api="at", **p) for p in rest]
    if rng.random() < .5:
        ops = batches(rng, ops)
    for i in sorted(gaps):
        if rng.random() < .5 or gap is not None:
            ops.append(dict(ev="push", api="at", **pk[i]))
    ops.append(rng.choice([dict(ev="flush"), dict(ev="sleep", d=2000000)]))
    ops.append(dict(ev="push", api="at", sn=(sn + n) % 65536, st=True, en=True, pad=False, id=n, ago=0))
    return dict(sc=name, comp="jitter", cfg=dict(lat=lat), ops=ops + [dict(ev="sleep", d=2000000)])


def gen(rng, tier):
    n = 900 if tier == "quick" else 12000
    return [gen_one(rng, "r%d" % i, rng.choice([6, 12, 25, 60])) for i in range(n)] + \
           [big(rng, "big%d" % i, rng.choice([70, 150, 300] if tier == "quick" else [300, 1000, 2000])) for i in range(3 if tier == "quick" else 60)] + \
           [big(rng, "wait%d" % i, n, 1 + i) for i, n in enumerate([600, 1100] if tier == "quick" else [600, 1100, 2900])]


def gen_par(rng, tier):
    out = []
    for i in range(120 if tier == "quick" else 1500):
        threads = rng.choice([2, 3, 4])
        n = rng.choice([10, 30, 60])
        pk, sn = [], rng.choice([0, 65520, 65535, 32760, 1000])
        while len(pk) < n:
            k = rng.choice([1, 1, 1, 2, 4])
            for j in range(k):
                pk.append(dict(sn=sn, st=j == 0, en=j == k - 1, pad=False))
                sn = (sn + 1) % 65536
            if rng.random() < .05:
                pk.append(dict(sn=sn, st=True, en=True, pad=True))
                sn = (sn + 1) % 65536
        pk[0]["pad"] = False
        order = list(range(len(pk)))
        loss = rng.choice([0, .05, .2])
        order = [j for j in order if rng.random() >= loss]
        order.sort(key=lambda j: j + rng.choice([0, 0, 0, rng.random() * 6]))
        if rng.random() < .3:
            order += rng.sample(order, min(3, len(order)))
        ops = [dict(t=rng.randrange(threads), k="push", i=j, nap=rng.choice([0, 0, 1, 3, 1000, 1000, 2000])) for j in order]
        for _ in range(rng.choice([0, 2, 8])):
            ops.insert(rng.randrange(len(ops) + 1), dict(t=rng.randrange(threads), nap=rng.choice([0, 1, 1000, 2000]),
                       **rng.choice([dict(k="flush"), dict(k="stats"), dict(k="stats"), dict(k="latency", d=1000 * rng.choice([1, 5, 20]))])))
        # the numbers of other runs are not touched by losses
        out.append(dict(sc="par%d" % i, comp="jitterpar", cfg=dict(threads=threads, lat=1000 * rng.choice([1, 2, 5, 20]), pk=pk), ops=ops))
    return out


PAR = {"C01": ["ids", "alone"], "C02": ["stats", "alone"], "C03": ["size"]}


def prop(check, id):
    return lambda: dict(
        parts=lambda tier: [Part("jitter", "TraceJitter", CONSTS, check, gen=gen, invariants=["Inv"], models=models),
                            Part("jitterpar", "TraceJitterPar", ["Step <- PStep", "InitOf <- PInit", "M = 65536", "R = 3000"], PAR[id],
                                 gen=gen_par, loose=["ids", "stats", "size"], sure=True)],
        assumptions=["virtual time (testing/synctest): timers fire exactly when due"])


PROPS = {"C01": prop(["ids", "whole", "held"], "C01"), "C02": prop(["stats", "cbs", "size", "held"], "C02"), "C03": prop(["out", "size"], "C03")}
