from flow import Model, Part

MC = ["Ops <- MOps", "Apply <- MCApply", "Starts <- MStarts", "View <- MView", "Good <- MGood"]


def scenario(name, cfg, ops):
    cfg = dict(dict(sz=1, frames=5, framesopt=0, tick=20000, chan=0), **cfg)
    return dict(sc=name, comp="mixer", cfg=cfg, ops=ops)


def fix(ops):
    """Every sample written in a sequence is different (a sum tells which ones were mixed); blocking
    calls end at times which are different from those of all other events."""
    k = 0
    out = []
    for i, o in enumerate(ops):
        o = dict(o)
        if o["ev"] == "write":
            o["xs"] = [(k + j) * 7 % 3001 + 1 for j in range(len(o["xs"]))]
            k += len(o["xs"])
        if o["ev"] == "remove":
            o["api"] = ("close", "remove")[i % 2]
        out.append(o)
    return out


def models(tier):
    q = tier == "quick"

    def mk(name, cfgname, cfg, depth, sizes, delays, sleeps, maxin, ctl, export=False, limit=None, vals="{1}"):
        def to(n, ops):
            return scenario(n, cfg, fix(ops) + [dict(ev="sleep", d=20000), dict(ev="sleep", d=40000)])
        return Model("MCMixer", MC + ["Cfg <- " + cfgname, "MaxIn = %d" % maxin, "Sizes = {%s}" % sizes, "Delays = {%s}" % delays,
                                      "Sleeps = {%s}" % sleeps, "Ctl = {%s}" % ctl, "Vals = %s" % vals],
                     depth, name="mixer-" + name, export=export, to_scenario=to, limit=limit)
    direct = dict(sz=1, frames=2, framesopt=2)
    direct2 = dict(sz=2, frames=3, framesopt=3)
    ms = [mk("direct", "Direct", direct, 8 if q else 10, "1, 3", "0, 25001, 55001", "20000", 2, '"remove"'),
          mk("chan1", "Chan1", dict(direct, chan=1), 8 if q else 10, "1, 3", "1001, 45001", "20000", 1, '"remove"'),
          mk("chan2", "Chan2", dict(direct, frames=3, framesopt=3, chan=2), 9 if q else 11, "1, 2", "1001, 85001", "20000", 1, ''),
          mk("direct-replay", "Direct2", direct2, 6 if q else 8, "1, 2, 5", "0", "20000", 2, '"remove"', True, 1000 if q else 6000),
          mk("late-replay", "Direct", direct, 7 if q else 9, "1", "0, 15001, 36001, 75001", "20000", 1, '', True, 1000 if q else 6000),
          mk("chan-replay", "Chan1", dict(direct, chan=1), 7 if q else 9, "1, 2", "1001, 36001, 75001", "20000", 1, '', True, 800 if q else 6000),
          # stopped in the middle of an update, with a tick pending, with a full channel
          mk("stop-replay", "Direct", direct, 7 if q else 9, "1", "0, 75001", "20000, 75000", 1, '"stop"', True, 800 if q else 6000),
          mk("chanstop-replay", "Chan1", dict(direct, chan=1), 7 if q else 9, "1", "1001, 75001", "20000, 75000", 1, '"stop"', True, 800 if q else 6000)]
    return ms


def gen_one(rng, name):
    sz = rng.choice([1, 2, 2, 4] * 10 + [160])
    tick = rng.choice([20000] * 5 + [10000, 30000, 7000, 60000])
    framesopt = rng.choice([0, 1, 2, 3, 5, 8])
    frames = framesopt or 5
    chan = rng.choice([0, 0, 0, 1, 1, 2, 4])
    slow = rng.random() < (.5 if chan == 0 else 1)
    ops = [dict(ev="sleep", d=250)]
    if chan:
        ops.insert(0, dict(ev="sink", d=1001, fail=False))
    n = 0
    k = 0
    loud = rng.random() < .2
    stop = rng.random() < .3
    N = rng.choice([15, 30, 60]) if sz < 100 else 15
    ms = tick // 1000
    per = rng.choice([sz, sz, sz, 1, 2 * sz, sz + 1])
    for i in range(N):
        x = rng.random()
        if n == 0 or x < .06:
            ops.append(dict(ev="new"))
            n += 1
        elif x < .10:
            ops.append(dict(ev="remove", id=rng.randrange(n), api=rng.choice(["close", "remove"])))
        elif x < .15 and slow:
            d = rng.choice([0, 0, 5, 15, 16, 25, 36, 45, 55, 75, 130])
            d = d * tick // 20000 * 1000 + 1 if d else 0
            if chan and d == 0:
                d = 1001
            ops.append(dict(ev="sink", d=d, fail=rng.random() < .3))
        elif x < .55:
            for id in rng.sample(range(n), rng.randint(1, n)):
                for _ in range(rng.choice([1, 1, 1, 3])):
                    L = rng.choice([per, per, per, rng.randint(0, 3 * sz), sz * frames + rng.choice([-1, 0, 1])])
                    if loud:
                        xs = [rng.choice([32767, -32768, 20000, -20000, 0, 1, -1]) for _ in range(L)]
                    else:
                        xs = [(k + j) * 7 % 3001 * rng.choice([1, -1]) + 1 for j in range(L)]
                        k += L
                    ops.append(dict(ev="write", id=id, xs=xs))
        else:
            ops.append(dict(ev="sleep", d=1000 * rng.choice([ms, ms, ms, ms, 5, 10, 2 * ms, 3])))
    if stop:
        if rng.random() < .5:  # in the middle of an update
            ops.append(dict(ev="sink", d=1000 * rng.choice([25, 45, 75, 130]) + 1, fail=rng.random() < .3))
            for _ in range(rng.randint(1, 5)):
                ops.append(dict(ev="sleep", d=1000 * rng.choice([20, 40, 60])))
            if n:
                ops.append(dict(ev="write", id=rng.randrange(n), xs=[(k + j) * 7 % 3001 + 1 for j in range(sz * frames)]))
            if rng.random() < .5:
                ops.append(dict(ev="sink", d=1001 * (chan > 0), fail=False))
        ops.append(dict(ev="stop"))
        for _ in range(rng.randint(0, 5)):
            y = rng.random()
            if y < .4:
                ops.append(dict(ev="new"))
            elif y < .6:
                ops.append(dict(ev="remove", id=rng.randrange(n), api="close"))
            elif y < .7:
                ops.append(dict(ev="write", id=rng.randrange(n), xs=[1] * rng.choice([sz, sz * frames])))
            elif y < .9:
                ops.append(dict(ev="sleep", d=1000 * rng.choice([20, 40, 100])))
            else:
                ops.append(dict(ev="stop"))
    ops.append(dict(ev="sleep", d=10 * tick))
    cfg = dict(sz=sz, frames=frames, framesopt=framesopt, chan=chan, tick=tick)
    if chan == 1 and rng.random() < .5:
        cfg["chanopt"] = rng.choice([1, 0, -1, -7])
    return scenario(name, cfg, ops)


def crowd(rng, name, n):
    """Many inputs."""
    sz, frames = 2, 3
    ops, k = [dict(ev="sleep", d=250)] + [dict(ev="new")] * n, 0
    for step in range(8):
        for id in rng.sample(range(n), n - rng.choice([0, 0, 2])):
            L = sz * (2 if step == 0 else 1)
            ops.append(dict(ev="write", id=id, xs=[(k + j) * 7 % 3001 * rng.choice([1, -1]) for j in range(L)]))
            k += L
        ops.append(dict(ev="sleep", d=20000))
        if step == 4:
            ops += [dict(ev="remove", id=i, api="close") for i in rng.sample(range(n), n // 3)]
    return scenario(name, dict(sz=sz, frames=frames, framesopt=frames, chan=rng.choice([0, 1]), tick=20000), ops + [dict(ev="sleep", d=100000)])


def hung(rng, name):
    """The output blocks for seconds."""
    frames = rng.choice([150, 250])
    ops = [dict(ev="sleep", d=250), dict(ev="new"), dict(ev="write", id=0, xs=[j * 7 % 3001 + 1 for j in range(frames)]), dict(ev="sleep", d=40000),
           dict(ev="sink", d=rng.choice([2500, 3200, 4400, 5100]) * 1000 + 1, fail=False), dict(ev="sleep", d=20000), dict(ev="sink", d=0, fail=False),
           dict(ev="sleep", d=6000000), dict(ev="write", id=0, xs=[5, 6, 7]), dict(ev="sleep", d=100000)]
    return scenario(name, dict(sz=1, frames=frames, framesopt=frames, chan=0, tick=20000), ops)


def gen(rng, tier):
    return [gen_one(rng, "r%d" % i) for i in range(600 if tier == "quick" else 9000)] + \
           [crowd(rng, "crowd%d" % i, n) for i, n in enumerate([20, 40] if tier == "quick" else [20, 40, 40, 80, 120])] + \
           [hung(rng, "hung%d" % i) for i in range(2 if tier == "quick" else 10)]


def gen_par(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 900):
        sz, frames, threads = rng.choice([1, 2, 4]), rng.choice([2, 3, 5, 8]), rng.choice([2, 3, 4, 5])
        ops = []
        for t in (0, 1):
            at = 0
            steady = rng.random() < .6
            while at < 120000:
                nap = 1000 if steady else rng.choice([0, 3, 1000, 1000, 2000, 5000])
                at += max(nap, 100)
                ops.append(dict(t=t, k="write", nap=nap, n=sz if steady or rng.random() < .7 else rng.choice([0, 1, 2 * sz, sz * frames + 1])))
            if rng.random() < .4:
                ops.append(dict(t=t, k="leave", nap=rng.choice([0, 1000])))
                ops += [dict(t=t, k="write", nap=rng.choice([0, 1000]), n=sz) for _ in range(5)]
        for t in range(2, threads):
            for _ in range(rng.choice([10, 40])):
                ops.append(dict(t=t, k=rng.choice(["new", "new", "drop", "zeros", "zeros", "desc"]), n=rng.randrange(5), nap=rng.choice([0, 1, 1000, 1000, 3000])))
            if t == 2 and rng.random() < .3:
                ops.append(dict(t=t, k="stop", nap=rng.choice([0, 1000])))
                ops += [dict(t=t, k=rng.choice(["new", "zeros", "drop"]), n=0, nap=0) for _ in range(4)]
        out.append(dict(sc="par%d" % i, comp="mixerpar", cfg=dict(threads=threads, sz=sz, frames=frames, chan=rng.choice([0, 0, 1, 4])), ops=ops))
    return out


PAR = {"C05": ["frame"], "C06": ["pace"], "C07": ["after", "tracks"], "C08": ["tracks", "input", "output"]}


def prop(check, id):
    return lambda: dict(
        parts=lambda tier: [Part("mixer", "TraceMixer", ["Step <- MStep", "InitOf <- MInitOf"], check,
                                 gen=gen, invariants=["Inv"], models=models),
                            Part("mixerpar", "TraceMixerPar", ["Step <- PStep", "InitOf <- PInit"], PAR[id],
                                 gen=gen_par, loose=["frame", "pace", "after", "input", "output", "tracks"], sure=True)],
        assumptions=["virtual time (testing/synctest): timers fire exactly when due, code takes no time except in the output"])


PROPS = {"C05": prop(["frames"], "C05"), "C06": prop(["times", "clock"], "C06"),
         "C07": prop(["nil", "tracks", "count"], "C07"),
         "C08": prop(["tracks", "restarts", "clock", "input", "mixed", "output"], "C08")}
