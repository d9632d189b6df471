"""Chains of writers: trees of stages."""
from flow import Model, Part
from c_media import MC


def values(law):
    """The samples that are values of codes."""
    out = []
    for c in range(256):
        if law == "u":
            v = 255 - c
            t = ((v % 16) * 8 + 132) * (2 ** ((v // 16) % 8))
            out.append(t - 132 if v < 128 else 132 - t)
        else:
            v = c ^ 85
            m, g = v % 16, (v // 16) % 8
            t = (2 * m + 1) * 8 if g == 0 else (2 * m + 33) * 2 ** (g + 2)
            out.append(t if v >= 128 else -t)
    return out


def tree(rng):
    nodes = []

    def mk(depth):
        i = len(nodes)
        nodes.append(None)
        leaf = depth == 0 or depth < 4 and rng.random() < .2
        k = rng.choice(["sink", "sink", "sink", "buf", "frames", "file"]) if leaf else rng.choice(["full", "full", "multi", "multi", "switch", "switch", "nop", "code", "same"])
        n = rng.choice([1, 2, 3, 5, 8, 20]) if k == "full" else 0
        kids = 0 if leaf else rng.choice([1, 2, 2, 3]) if k == "multi" else 1
        c = [mk(depth - 1) for _ in range(kids)]
        nodes[i] = dict(k=k, n=n, c=c)
        return i + 1
    mk(rng.choice([1, 2, 3, 4, 5]))
    return nodes


def gen(rng, tier):
    out = []
    vals = {a: values(a) for a in "ua"}
    for i in range(400 if tier == "quick" else 8000):
        t = tree(rng)
        while len(t) > 24:
            t = tree(rng)
        law = rng.choice("ua")
        sinks = [j + 1 for j, d in enumerate(t) if d["k"] == "sink"]
        sws = [j + 1 for j, d in enumerate(t) if d["k"] == "switch"]
        att = {j: True for j in sws}
        ops = []
        clean = rng.random() < .3
        for _ in range(rng.choice([4, 10, 25])):
            k = rng.random()
            if k < .6 or clean:
                ops.append(dict(ev="write", xs=[rng.choice(vals[law]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 21, 40]))]))
            elif k < .72 and sinks:
                ops.append(dict(ev=rng.choice(["fail", "fail", "cfail"]), i=rng.choice(sinks), on=rng.random() < .5))
            elif k < .82 and sws:
                ops.append(dict(ev="on", i=rng.choice(sws), on=rng.random() < .6))
            elif k < .95 and sws:
                j = rng.choice(sws)
                ops.append(dict(ev="swap", i=j, on=rng.random() < .6))
            elif not any(d["k"] == "file" for d in t):
                ops.append(dict(ev="close"))
        ops.append(dict(ev="close"))
        if rng.random() < .3 and not any(d["k"] == "file" for d in t):
            ops += [dict(ev="write", xs=[rng.choice(vals[law]) for _ in range(3)]), dict(ev="close")]
        out.append(dict(sc="t%d" % i, comp="chain", cfg=dict(tree=t, law=law), ops=ops))
    return out


def to(name, ops):
    u = values("u")[128:]
    return dict(sc=name, comp="chain", cfg=dict(tree=ops[0]["t"], law="u"),
                ops=[dict(o, xs=[u[v] for v in o["xs"]]) if o["ev"] == "write" else o for o in ops[1:]])


def models(tier):
    q = tier == "quick"
    return [Model("MCChain", MC + ["Trees <- AllTrees", "Sizes = {1, 2, 3}", "MaxIn = %d" % (7 if q else 12), "MaxClose = 1"], 6 if q else 9, name="chain",
                  export=True, to_scenario=to, limit=500 if q else 6000)]


PROPS = {"C40": lambda: dict(parts=lambda tier: [
    Part("chain", "TraceChain", ["Step <- CStep", "InitOf <- CInitOf"], ["err", "seen", "in", "rate", "had"], gen=gen, models=models)])}
