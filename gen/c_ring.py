from flow import Model, Part


def renumber(ops):
    k = 0
    out = []
    for o in ops:
        o = dict(o)
        if "v" in o:
            k += 1
            o["v"] = k
        if "vs" in o:
            o["vs"] = list(range(k + 1, k + 1 + len(o["vs"])))
            k += len(o["vs"])
        out.append(o)
    return out


def models(tier):
    ms = []
    for cap in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)):
        def to(name, ops, cap=cap):
            return dict(sc=name, comp="ring", cfg=dict(cap=cap), ops=renumber(ops))
        ms.append(Model("MCRing", ["Ops <- ROps", "Apply <- RMApply", "Starts <- RStarts", "View <- RView", "Good <- RGood",
                                   "Cap = %d" % cap], 100, name="ring-cap%d" % cap, export=True, to_scenario=to))
    return ms


def gen(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 5000):
        cap = rng.choice([1, 2, 3, 5, 7, 8, 16, 33])
        ops = []
        bias = rng.random()
        for _ in range(rng.choice([20, 60])):
            if rng.random() < bias:
                ops.append(rng.choice([dict(ev="push", v=0), dict(ev="trypush", v=0),
                                       dict(ev="write", vs=[0] * rng.choice([0, 1, 2, cap - 1, cap, cap + 1, 2 * cap, 3 * cap,
                                                                              rng.randint(0, cap)]))]))
            else:
                ops.append(rng.choice([dict(ev="pop"), dict(ev="trypop"), dict(ev="peek"), dict(ev="trypeek"),
                                       dict(ev="read", n=rng.choice([0, 1, 2, cap - 1, cap, cap + 1, rng.randint(0, cap)]))]))
        out.append(dict(sc="r%d" % i, comp="ring", cfg=dict(cap=cap), ops=renumber(ops)))
    return out


PROPS = {"C04": lambda: dict(
    parts=lambda tier: [Part("ring", "TraceRing", ["Step <- RStep", "InitOf <- RInitOf"], ["ret", "len", "size"],
                             gen=gen, invariants=["Inv"], models=models)],
    assumptions=["one goroutine uses the buffer at a time", "capacity at least 1"])}
