from flow import Model, Part

MC = ["Ops <- MOps", "Apply <- MApply", "Starts <- MStarts", "View <- MView", "Good <- MGood"]
I16 = [0, 1, -1, 2, -2, 3, 127, 128, 255, 256, -255, -256, -257, 32767, 32766, -32768, -32767, 16384, -16384, 12345]


def val(rng):
    return rng.choice(I16) if rng.random() < .4 else rng.randrange(-32768, 32768)


# ---- frame splitter
def sc_frames(name, ops):
    return dict(sc=name, comp="frames", cfg=dict(size=ops[0]["n"]), ops=ops[1:])


def m_frames(tier):
    q = tier == "quick"
    return [Model("MCFrames", MC + ["Sizes = {1, 2, 3}", "MaxWrite = %d" % (4 if q else 7), "Fails = {0, 1}"], 6 if q else 7, name="frames", export=True,
                  to_scenario=sc_frames, limit=600 if q else 6000)]


def gen_frames(rng, tier):
    out = []
    for i in range(200 if tier == "quick" else 3000):
        size = rng.choice([1, 2, 3, 5, 8, 20, 160])
        nxt, ops = 1, []
        for _ in range(rng.choice([1, 3, 8, 20])):
            n = rng.choice([0, 1, size - 1, size, size + 1, 2 * size, 3 * size + 1, rng.randrange(2 * size + 1)])
            ops.append(dict(ev="write", xs=list(range(nxt, nxt + n))))
            nxt += n
            if rng.random() < .15:
                ops.append(dict(ev="fail", n=rng.randrange(4)))
        ops.append(dict(ev="close", fail=rng.random() < .2))
        if rng.random() < .2 and not any(o["ev"] == "fail" for o in ops):
            ops.append(dict(ev="close", fail=False))
        out.append(dict(sc="f%d" % i, comp="frames", cfg=dict(size=size), ops=ops))
    for i, (n, size) in enumerate([(12000, 160), (40000, 960), (70000, 20000)]):  # large writes
        ops, nxt = [], 1
        for k in (n, 1, n - 1, 7):
            ops.append(dict(ev="write", xs=[(nxt + j) % 32000 for j in range(k)]))
            nxt += k
        out.append(dict(sc="big%d" % i, comp="frames", cfg=dict(size=size), ops=ops + [dict(ev="close", fail=False)]))
    return out


def gen_framespar(rng, tier):
    out = []
    for i in range(80 if tier == "quick" else 1200):
        T, size = rng.choice([2, 2, 3, 4]), rng.choice([1, 2, 3, 5])
        ops, nxt = [], 1
        for t in range(T):
            for _ in range(rng.choice([1, 2, 4])):
                n = rng.choice([0, 1, 2, 3, 4, 7])
                ops.append(dict(t=t, d=list(range(nxt, nxt + n)), nap=rng.choice([0, 0, 1, 3, 30])))
                nxt += n
        ops.append(dict(t=T - 1, d=[-1], nap=rng.choice([0, 300])))
        out.append(dict(sc="q%d" % i, comp="framespar", cfg=dict(size=size, threads=T, pause=rng.choice([0, 1, 20])), ops=ops))
    return out


# ---- switch
def sc_switch(rates):
    def f(name, ops):
        k, res = 0, []
        for o in ops:
            o = dict(o)
            if o["ev"] == "write":
                o["xs"] = [k + 1, k + 2]
                k += 2
            res.append(o)
        return dict(sc=name, comp="switch", cfg=dict(rates=rates), ops=res)
    return f


def m_switch(tier):
    q = tier == "quick"
    rates = [8000, 16000] if q else [8000, 16000, 8000]
    return [Model("MCSwitch", MC + ["Third = %s" % ("FALSE" if q else "TRUE")], 7 if q else 7, name="switch", export=True,
                  to_scenario=sc_switch(rates), limit=600 if q else 5000)]


def gen_switch(rng, tier):
    out = []
    rs = [8000, 12000, 16000, 24000, 44100, 48000]
    for i in range(80 if tier == "quick" else 1200):
        base = rng.choice(rs)
        rates = [rng.choice([base, base] + rs) for _ in range(rng.choice([1, 2, 3, 4]))]
        ops = [dict(ev="new", rate=rng.choice([base, base, -1, -5]))]
        if ops[0]["rate"] < 0:
            if rng.random() < .3:
                ops.append(dict(ev="swap", i=0))
            if rng.random() < .3:
                ops.append(dict(ev="rate"))
            ops.append(dict(ev="setrate", rate=base))
        closed, cur, k = set(), -1, 0
        for _ in range(rng.choice([5, 15, 40])):
            c = rng.random()
            if c < .5:
                n = rng.choice([1, 2, 160, 160, 7, 0])
                ops.append(dict(ev="write", xs=[(k + j) % 20000 + 1 for j in range(n)]))
                k += n
            elif c < .75:
                free = [j for j in range(len(rates)) if j not in closed] + [-1]
                cur = rng.choice(free)
                ops.append(dict(ev="swap", i=cur))
            elif c < .85:
                ops.append(dict(ev="enable", b=rng.random() < .6))
            elif c < .88:
                ops.append(dict(ev="bad", i=rng.randrange(len(rates)), on=rng.random() < .6))
            elif c < .9:
                ops.append(dict(ev="close"))
                if cur >= 0:
                    closed.add(cur)
                cur = -1
            elif c < .95:
                ops.append(dict(ev="get"))
            else:
                ops.append(rng.choice([dict(ev="rate"), dict(ev="setrate", rate=rng.choice([base, 8000, 0, -1]))]))
        for j in range(len(rates)):
            if j not in closed:
                ops += [dict(ev="swap", i=j), dict(ev="close")]
        out.append(dict(sc="w%d" % i, comp="switch", cfg=dict(rates=rates), ops=ops))
    return out


def gen_switchpar(rng, tier):
    out = []
    for i in range(100 if tier == "quick" else 1500):
        T, n = rng.choice([2, 3, 3, 4]), rng.choice([1, 2, 3])
        ops, v = [], 1
        for t in range(T):
            for _ in range(rng.choice([2, 4, 6])):
                k = rng.choice(["write", "write", "write", "swap", "swap", "close", "enable"])
                o = dict(t=t, k=k, i=-1, v=0, nap=rng.choice([0, 0, 1, 3, 20]))
                if k == "write":
                    o["v"] = v
                    v += 1
                elif k == "swap":
                    o["i"] = rng.randrange(-1, n)
                elif k == "enable":
                    o["v"] = rng.choice([0, 1, 1])
                ops.append(o)
        out.append(dict(sc="y%d" % i, comp="switchpar", cfg=dict(threads=T, sinks=n), ops=ops))
    return out


def gen_switchmany(rng, tier):
    return [dict(sc="z%d" % i, comp="switchmany", cfg=dict(threads=rng.choice([2, 3, 4, 6]), n=3000, rounds=400), ops=[])
            for i in range(4 if tier == "quick" else 40)]


# ---- writers
def gen_writers(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 800):
        n = rng.choice([0, 1, 2, 3] * 3 + [9, 20])
        ops = []
        big = rng.random() < .15
        for _ in range(rng.choice([1, 3, 6]) if big else rng.choice([1, 3, 8])):
            k = rng.choice([1100, 2048, 2500] * 3 + [45000]) if big and n < 5 else rng.choice([0, 1, 2, 5, 30])
            ops.append(dict(ev="write", xs=[val(rng) for _ in range(k)]))
            c = rng.random()
            if c < .25 and n:
                ops.append(dict(ev="fail", i=rng.randrange(n), on=rng.random() < .7))
            elif c < .32:
                ops.append(dict(ev="bad"))
            elif c < .4:
                ops.append(dict(ev="bufclose"))
        ops.append(dict(ev="close"))
        out.append(dict(sc="a%d" % i, comp="writers", cfg=dict(n=n), ops=ops))
    return out


def sc_writers(name, ops):
    return dict(sc=name, comp="writers", cfg=dict(n=ops[0]["n"] if ops else 0), ops=ops[1:] + ([] if ops[-1]["ev"] == "close" else [dict(ev="close")]))


def m_writers(tier):
    q = tier == "quick"
    return [Model("MCWriters", MC + ["MaxTargets = 2", "MaxWrites = %d" % (3 if q else 4)], 6 if q else 8, name="writers", export=True, to_scenario=sc_writers,
                  limit=250 if q else 3000)]


# ---- registry
def mixcase(rng, x):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in x)


def gen_registry(rng, tier):
    out = []
    for i in range(40 if tier == "quick" else 400):
        pre = "rg%d" % i
        stems = [pre + a for a in ("a/8000", "a/8000/1", "a/8000/2", "b/8000", "c", "b/16000")]
        base = rng.sample(["pcmu/8000", "PCMA/8000", "g722/8000", "telephone-event/8000", "opus/48000/2"], 2)
        ask = [mixcase(rng, x) for x in stems] + [mixcase(rng, x) for x in base] + [pre + "none", mixcase(rng, pre + "b/8000/1"), ""]
        ops = []
        used = []
        for _ in range(rng.choice([3, 6, 12])):
            c = rng.random()
            if c < .45:
                nm = mixcase(rng, rng.choice(stems)) if rng.random() < .95 else ""
                used.append(nm)
                ops.append(dict(ev="register", name=nm, low=nm.lower(), one=nm.count("/") == 1, typ=rng.choice([-1, -1, 0, 8, 9, rng.randrange(256)]), dis=rng.random() < .3))
            elif c < .6:
                ops.append(dict(ev="callback"))
            elif c < .7:
                ns = [mixcase(rng, n) for n in rng.sample(stems + base, rng.choice([0, 2, 3, 5]))]
                ops.append(dict(ev="enablemany", names=ns, lows=[n.lower() for n in ns], ons=[rng.random() < .5 for _ in ns]))
            else:
                nm = mixcase(rng, rng.choice(used or stems)) if rng.random() < .7 else mixcase(rng, rng.choice(stems + base))
                ops.append(dict(ev="enable", name=nm, low=nm.lower(), on=rng.random() < .5, map=rng.random() < .3))
        out.append(dict(sc="r%d" % i, comp="registry", cfg=dict(ask=ask), ops=ops))
    return out


def m_registry(tier):
    q = tier == "quick"

    def scen(name, ops):
        pre = "mr%s" % name.replace("-", "")
        out = []
        for k, o in enumerate(ops):
            o = dict(o)
            if "low" in o:
                o["low"] = pre + o["low"]
                o["name"] = o["low"].upper() if k % 2 else o["low"]
            if o["ev"] == "enable":
                o["map"] = k % 3 == 0
            out.append(o)
        return dict(sc=name, comp="registry", cfg=dict(ask=[pre + "a", pre + "b/8", pre + "b/8/1"]), ops=out)
    return [Model("MCRegistry", MC + ["MaxCodecs = %d" % (2 if q else 3), "MaxCallbacks = %d" % (1 if q else 2)], 5 if q else 7, name="registry", export=True,
                  to_scenario=scen, limit=150 if q else 1000)]


# ---- pcm
def gen_pcm(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 800):
        ops = []
        for n in (0, 1, 2, 3, 7, 64):
            src = [val(rng) for _ in range(n)]
            ops += [dict(ev="m2s", src=src, n=2 * n + rng.choice([-1, 0, 0, 1, 3]) if n else rng.choice([0, 2])),
                    dict(ev="s2m", src=src, n=max(0, n // 2 + rng.choice([-1, 0, 0, 1, 5])), inplace=False),
                    dict(ev="s2m", src=src, n=0, inplace=True),
                    dict(ev="clear", src=src),
                    dict(ev="read", src=src, sizes=[rng.choice([0, 1, 2, 5, 40]) for _ in range(5)])]
            for typ in ("pcm", "alaw", "ulaw", "g722", "opus"):
                b = src if typ == "pcm" else [rng.randrange(256) for _ in range(n)]
                size = 2 * n if typ == "pcm" else n
                for d in (-1, 0, 1, rng.choice([-size, -2, 9])):
                    ops.append(dict(ev="copy", typ=typ, src=b, n=max(0, size + d)))
        out.append(dict(sc="z%d" % i, comp="pcm", ops=ops))
    for n in (5000, 40000):  # large frames
        src = [val(rng) for _ in range(n)]
        b = [rng.randrange(256) for _ in range(n)]
        out.append(dict(sc="big%d" % n, comp="pcm", ops=[dict(ev="m2s", src=src, n=2 * n), dict(ev="s2m", src=src, n=n // 2, inplace=False), dict(ev="s2m", src=src, n=0, inplace=True),
                        dict(ev="clear", src=src), dict(ev="copy", typ="pcm", src=src, n=2 * n), dict(ev="copy", typ=["ulaw", "opus"][n > 5000], src=b, n=n)]))
    # every value as one channel, against the extremes and its neighbours
    step = 512 if tier == "quick" else 64
    for a in range(-32768, 32768, step * 16):
        ops = []
        for b in (-32768, -32767, -1, 0, 1, 32767):
            ops.append(dict(ev="s2m", inplace=False, n=16 * 8, src=[v for j in range(16 * 8) for v in (min(32767, a + j * step // 8), b)]))
        out.append(dict(sc="v%d" % a, comp="pcm", ops=ops))
    return out


def m_pcm(tier):
    q = tier == "quick"
    return [Model("MCPcm", MC + ["Values <- Few" if q else "Values <- Many", "MaxLen = 4"], 6, name="pcm")]


# ---- PlayAudio
def sc_play(name, ops):
    return dict(sc=name, comp="playaudio", ops=ops)


def m_play(tier):
    q = tier == "quick"
    return [Model("MCPlayAudio", MC + ["MaxFrames = %d" % (4 if q else 7)], 8 if q else 12, name="playaudio", export=True, to_scenario=sc_play, limit=300 if q else 2000)]


def gen_play(rng, tier):
    out = []
    for i in range(80 if tier == "quick" else 1000):
        n = rng.choice([0, 1, 2, 5, 50]) if i % 40 else 700
        fr = [[val(rng) for _ in range(rng.choice([0, 1, 3]))] for _ in range(n)]
        ops = [dict(ev="play", frames=fr)]
        k = rng.random()
        if k < .3:
            ops += [dict(ev="ticks", n=rng.randrange(n + 1)), rng.choice([dict(ev="cancel"), dict(ev="faila", on=True)])]
        ops += [dict(ev="ticks", n=n + 2), dict(ev="tick"), dict(ev="cancel")]
        out.append(dict(sc="s%d" % i, comp="playaudio", cfg=dict(per=rng.choice([10000, 20000, 20000, 60000, 2500])), ops=ops))
    return out


def det(name, mod, step, init, obs, **kw):
    return Part(name, mod, ["Step <- " + step, "InitOf <- " + init], obs, **kw)


PAR = ["Accept <- PAccept", "Hidden <- PHidden", "InitOf <- PInitOf"]
SCHED = ["interleavings of the real goroutines are those the Go scheduler produces with injected yields and sleeps"]
def gen_writerpar(kind):
    def g(rng, tier):
        out = []
        for i in range(40 if tier == "quick" else 500):
            threads, ops = rng.choice([2, 3, 4]), []
            src, dst = rng.choice([(8000, 48000), (48000, 16000), (16000, 8000), (44100, 48000)])
            for t in range(threads):
                for j in range(rng.choice([10, 25])):
                    ops.append(dict(t=t, k="write", i=j, n=rng.choice([1, 2, 7, 40, 160]), nap=rng.choice([0, 0, 1000])))
                    if rng.random() < .02:
                        ops.append(dict(t=t, k="close", nap=0))
            if rng.random() < .7:
                ops.append(dict(t=threads - 1, k="close", nap=rng.choice([0, 5000])))
            out.append(dict(sc="w%d" % i, comp="writerpar", cfg=dict(kind=kind, threads=threads, src=src, dst=dst), ops=ops))
        for i in range((8 if tier == "quick" else 40) if kind == "buffer" else 0):
            c = dict(kind=kind, threads=rng.choice([1, 2, 3]), spin=rng.choice([3, 20, 60]), rounds=120, src=8000, dst=8000)
            out.append(dict(sc="b%d" % i, comp="buffermany", cfg=c, ops=[]))
        return out
    return g


def writerpar(kind):
    return Part("writerpar", "TraceWriterPar", ["Step <- PStep", "InitOf <- PInit"], ["xs", "err", "sum", "after", "fails"], gen=gen_writerpar(kind), loose=["xs", "err", "sum"],
                sure=True)


PROPS = {
    "C20": lambda: dict(parts=lambda tier: [det("frames", "TraceFrames", "FStep", "FInitOf", ["out", "err", "closed"], invariants=["Inv"], gen=gen_frames, models=m_frames),
                                            Part("framespar", "TraceFramesPar", PAR, ["xs", "err"], gen=gen_framespar, sure=True)], assumptions=SCHED),
    "C21": lambda: dict(parts=lambda tier: [det("switch", "TraceSwitch", "SWStep", "SWInitOf", ["ret", "val", "closed", "direct", "total", "failed"], invariants=["Inv"], gen=gen_switch,
                                                models=m_switch, loose=["total", "failed"]),
                                            Part("switchpar", "TraceSwitchPar", PAR, ["i", "v"], gen=gen_switchpar, sure=True),
                                            Part("switchmany", "TraceSwitchMany", ["Step <- MStep", "InitOf <- MInit"], ["ids", "won"], gen=gen_switchmany, procs=2, sure=True)],
                        assumptions=SCHED),
    "C22": lambda: dict(parts=lambda tier: [det("writers", "TraceWriters", "WStep", "WInitOf",
                                                ["multi", "closed", "err", "frames", "buffer", "slice", "samples", "dumpsink", "quiet", "file", "dump", "fileclosed"],
                                                gen=gen_writers, models=m_writers, loose=["file", "fileclosed"]), writerpar("buffer")], assumptions=[]),
    "C23": lambda: dict(parts=lambda tier: [det("registry", "TraceRegistry", "RStep", "RInitOf", ["all", "enabled", "each", "cbs", "names", "on", "types"], gen=gen_registry, models=m_registry, procs=16)],
                        assumptions=["the registry of the process is shared by the scenarios: each uses names of its own and starts from what it finds"]),
    "C24": lambda: dict(parts=lambda tier: [det("pcm", "TracePcm", "CStep", "CInitOf", ["dst", "src", "size", "err", "k", "bytes", "beyond", "pieces", "counts"],
                                                gen=gen_pcm, models=m_pcm, loose=["dst", "src"])], assumptions=[]),
    "C26": lambda: dict(parts=lambda tier: [det("playaudio", "TracePlayAudio", "AStep", "AInitOf", ["out", "ret", "late", "list"], gen=gen_play, models=m_play)], assumptions=[]),
}
