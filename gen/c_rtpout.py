from flow import Model, Part


def renumber(ops):
    out = []
    for i, o in enumerate(ops):
        o = dict(o)
        if "p" in o:
            o["p"] = [i % 256, 1 + i // 256]
            o["m"] = i % 3 == 0
            if o["ev"] == "media":
                del o["m"]
        out.append(o)
    return out


def to_scenario(name, ops):
    return dict(sc=name, comp="rtpout", cfg=dict(hi=0), ops=renumber(ops))


MC = ["Ops <- OOps", "Apply <- OApply", "Starts <- OStarts", "View <- OView", "Good <- OGood"]


def models(tier):
    q = tier == "quick"
    return [Model("MCRtpOut", MC + ["NStreams = 2", "Delays = {0, 300}", "Resets = {0, 700}"], 6 if q else 7, name="rtpout"),
            Model("MCRtpOut", MC + ["NStreams = 2", "Delays = {251}", "Resets = {40}"], 5 if q else 6, name="rtpout-replay",
                  export=True, to_scenario=to_scenario, limit=1200 if q else 8000)]


def gen_one(rng, name):
    ops = []
    durs = []
    N = rng.choice([20, 60])
    failing = rng.random() < .5
    hi = rng.choice([0, 0, 0, 1000000000, 2000000000])
    base = rng.choice([0, 0, 0, 1000000, 147483648, 2000000000])
    for i in range(N):
        x = rng.random()
        if not durs or (x < .05 and len(durs) < 4):
            rate = rng.choice([8000, 16000, 48000, 0])
            d = rate // 50 if rate else rng.choice([1, 160, 960])
            durs.append(d)
            ops.append(dict(ev="stream", typ=rng.choice([0, 8, 9, 101, 127]), dur=d, rate=rate))
            if base and rng.random() < .7:
                ops.append(dict(ev="setts", k=len(durs) - 1, ts=base + rng.choice([0, 1, 100000])))
            continue
        k = rng.randrange(len(durs))
        d = durs[k]
        if x < .4:
            ops.append(dict(ev=rng.choice(["write", "write", "media"]), k=k, m=False, p=[]))
        elif x < .6:
            ops.append(dict(ev="cur", k=k, m=False, p=[]))
        elif x < .7:
            ops.append(dict(ev="delay", k=k, d=rng.choice([0, 1, d, 24 * d, 25 * d, 25 * d + 1, 26 * d, 100 * d])))
        elif x < .77:
            ops.append(dict(ev="delayn", k=k, n=rng.choice([0, 1, 24, 25, 26, 30, -1])))
        elif x < .81:
            ops.append(dict(ev="setts", k=k, ts=base + rng.choice([0, 1, d, 24 * d, 25 * d, 26 * d, 100 * d])))
        elif x < .85:
            ops.append(dict(ev="get", k=k))
        elif x < .89:
            ops.append(dict(ev="raw", typ=rng.randrange(128), ts=base + rng.randrange(10000), m=False, p=[]))
        elif x < .94:
            ops.append(dict(ev="curts", ts=base + rng.randrange(20 * d + 1), inc=rng.choice([0, d])))
        elif failing:
            ops.append(dict(ev="fail", on=rng.random() < .5))
    return dict(sc=name, comp="rtpout", cfg=dict(hi=hi), ops=renumber(ops))


def gen(rng, tier):
    n = 700 if tier == "quick" else 8000
    out = [gen_one(rng, "r%d" % i) for i in range(n)]
    for i in range(2 if tier == "quick" else 8):
        # around the end of the sequence number space
        s = gen_one(rng, "w%d" % i)
        s["ops"] = [dict(ev="burst", n=65536 - rng.choice([0, 1, 2, 10]))] + s["ops"]
        s["ops"] = [o for o in s["ops"] if o["ev"] != "fail"]
        out.append(s)
    return out


def gen_par(rng, tier):
    n = 40 if tier == "quick" else 400
    return [dict(sc="p%d" % i, comp="rtpoutpar", cfg=dict(streams=rng.choice([2, 4, 8]), n=rng.choice([10, 60]), dur=rng.choice([1, 160])), ops=[])
            for i in range(n)]


def gen_stream(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 800):
        threads, dur, ops, resets = rng.choice([2, 3, 4]), rng.choice([1, 160, 960]), [], i % 5 == 4
        for t in range(threads):
            kinds = rng.choice([["write"], ["write", "at", "delay", "get"], ["delay"], ["get", "delay"], ["at", "write"]]) + ["reset"] * resets
            for j in range(rng.choice([20, 60])):
                f = rng.random() < .5
                ops.append(dict(t=t, i=j, k=rng.choice(kinds), d=rng.choice([0, 1, 3]) * dur if f else rng.choice([0, 1, 77, dur]), frames=f,
                                nap=rng.choice([0, 0, 0, 1000])))
        out.append(dict(sc="s%d" % i, comp="streampar", cfg=dict(threads=threads, dur=dur, resets=resets, typ=rng.randrange(128)), ops=ops))
    return out


def stream(check):
    return Part("streampar", "TraceRtpStreamPar", ["Step <- PStep", "InitOf <- PInit"], check, gen=gen_stream, loose=["ts", "order"], sure=True)


def gen_curts(rng, tier):
    return [dict(sc="c%d" % i, comp="curtspar", cfg=dict(threads=rng.choice([2, 3, 4]), n=1500, inc=rng.choice([1, 2, 20])), ops=[])
            for i in range(8 if tier == "quick" else 100)]


def curts():
    return Part("curtspar", "TraceCurTSPar", ["Step <- PStep", "InitOf <- PInit"], ["ts"], gen=gen_curts, loose=["ts"], procs=2, sure=True)


def gen_buf(rng, tier):
    return [dict(sc="b%d" % i, comp="rtpbuffer", ops=[
        dict(ev="pkt", sn=rng.randrange(65536), ts=rng.randrange(100000), m=rng.random() < .5, typ=rng.randrange(128), x=rng.randrange(200),
             p=[rng.randrange(256) for _ in range(rng.randrange(5))]) for _ in range(6)]) for i in range(30)]


def main(check):
    return Part("rtpout", "TraceRtpOut", ["Step <- OStep", "InitOf <- OInitOf"], check, gen=gen, invariants=["Inv"], models=models)


def par(check):
    return Part("rtpoutpar", "TraceRtpOutPar", ["Step <- PStep", "InitOf <- PInit"], check, gen=gen_par, selftest=True)


def buf():
    return Part("rtpbuffer", "TraceRtpBuffer", ["Step <- BStep", "InitOf <- BInit"], ["n", "all"], gen=gen_buf)


PROPS = {
    "C09": lambda: dict(parts=lambda tier: [main(["seqs", "ret", "same", "body"]), par(["seq", "typ", "m", "order"]), stream(["seq", "typ", "m", "order"]), buf()],
                        assumptions=[]),
    "C10": lambda: dict(parts=lambda tier: [main(["ts", "cur", "val", "ret", "body"]), par(["ts", "order"]), stream(["ts", "order"]), curts()],
                        assumptions=["timestamps stay below 2^31 (the code does not handle their wrap-around yet)"]),
}
