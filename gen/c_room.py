"""Conferences: callers' packets through jitter buffers and decoders into one mixer and out again."""
from flow import Model, Part


def scenario(name, ops, frames=5, framesopt=0, law="u"):
    return dict(sc=name, comp="room", cfg=dict(frames=frames, framesopt=framesopt, law=law), ops=ops)


def room(rng, name):
    """Callers join, leave and send by their own clocks, through networks that lose, repeat, reorder and
    delay.  No packet comes in at a time at which the mixer ticks (or 60 ms before)."""
    framesopt = rng.choice([0, 0, 2, 3, 4, 8])
    evs = []
    total = rng.choice([200, 400, 700]) * 1000
    n = rng.choice([1, 1, 2, 2, 3, 4])
    loud = rng.random() < .3
    joins = sorted((0 if rng.random() < .6 else rng.randrange(0, total // 2)) | 1 for _ in range(n))
    k = 0
    for c in range(n):
        at = joins[c]
        evs.append((at, k, dict(ev="join", law=rng.choice("ua")), None))
        k += 1
        end = total if rng.random() < .6 else rng.randrange(at, total)
        loss, dup, jit = rng.choice([(0, 0, 0), (0, 0, 15000), (.1, 0, 10000), (.1, .1, 30000), (0, .3, 50000), (.3, 0, 80000)])
        units = rng.choice([[2], [2], [2], [1], [3], [4], [1, 2, 3]])
        sn = rng.choice([0, 1, 100, 65530, rng.randrange(65536)])
        drift = rng.choice([1, 1, 1, 1, .97, 1.03])
        t = at + rng.randrange(2, 20000)
        while t < end:
            us = [rng.choice([0, 128, 1, 129, 42, 170]) if loud else rng.randrange(256) for _ in range(rng.choice(units))]
            if rng.random() < .03:
                t += rng.randrange(0, 150000)        # the caller is silent for a while, and does not send
            e = dict(ev="rtp", c=c, sn=sn % 65536, pad=False, other=rng.random() < .04, us=us)
            for _ in range(1 + (rng.random() < dup)):
                if rng.random() >= loss:
                    evs.append((int(t + rng.random() * jit), k, e, None))
                    k += 1
            sn += 1
            if rng.random() < .01:
                sn += rng.choice([1, 5, 40, 5000])
            t += len(us) * 10000 * drift
        if end < total:
            evs.append((int(end), k, dict(ev="leave", c=c, close=rng.random() < .5), None))
            k += 1
    if rng.random() < .15:
        evs.append((rng.randrange(total // 2, total), k, dict(ev="stop"), None))
    evs.sort(key=lambda e: e[:2])
    ops, now, left, order = [], 0, set(), {}
    joined, stopped = 0, False
    for t, _, o, _ in evs:
        while t % 20000 < 50 or t % 20000 > 19950:
            t += 50
        if t > now:
            ops.append(dict(ev="sleep", d=t - now))
            now = t
        o = dict(o)
        if o["ev"] == "stop":
            stopped = True
        elif o["ev"] == "join":
            if not stopped:
                joined += 1
        elif o["c"] >= joined or o["c"] in left and o["ev"] == "leave":
            continue
        if o["ev"] == "leave":
            left.add(o["c"])
        ops.append(o)
    ops += [dict(ev="sleep", d=70001), dict(ev="sleep", d=100003)]
    return scenario(name, ops, framesopt or 5, framesopt, rng.choice("ua"))


def gen(rng, tier):
    return [room(rng, "r%d" % i) for i in range(200 if tier == "quick" else 6000)]


def gen_par(rng, tier):
    out = []
    for i in range(50 if tier == "quick" else 900):
        threads = rng.choice([2, 3, 4, 5])
        ops = []
        for t in (0, 1):
            at, bad = 0, rng.random() < .4
            stay = 900000 if rng.random() < .6 else rng.randrange(100000, 900000)
            ops.append(dict(t=t, k="lost", n=0, nap=rng.choice([0, 101, 20000])))
            while at < stay:
                n = rng.choice([2] if not bad else [1, 2, 3])
                gap = n * 10000 if not bad else rng.choice([0, 1000, n * 10000, 70000])
                at += max(gap, 500)
                ops.append(dict(t=t, k="lost" if bad and rng.random() < .2 else "rtp", n=n, nap=gap))
            if stay < 900000:
                ops.append(dict(t=t, k="leave", n=rng.randrange(2), nap=rng.choice([0, 1000])))
        for t in range(2, threads):
            for _ in range(rng.choice([10, 40])):
                ops.append(dict(t=t, k=rng.choice(["join", "quiet", "quiet", "hangup", "desc"]), n=rng.randrange(2), nap=rng.choice([0, 1, 1000, 20000])))
            if t == 2 and rng.random() < .2:
                ops.append(dict(t=t, k="stop", n=0, nap=rng.choice([0, 1000])))
                ops += [dict(t=t, k=rng.choice(["join", "quiet", "hangup"]), n=0, nap=0) for _ in range(4)]
        # sounds whose sum is neither of them
        out.append(dict(sc="par%d" % i, comp="roompar", cfg=dict(threads=threads, frames=rng.choice([2, 3, 5]),
                   says=rng.choice([[206, 160], [175, 143], [80, 32], [207, 31], [160, 206]])), ops=ops))
    return out


XMCM = ["Starts <- MStarts", "Ops <- MOps", "Apply <- MApply", "View <- MView", "Good <- MGood", "M = 65536", "R = 3000"]


def models(tier):
    q = tier == "quick"

    def to(name, ops):
        # what the model calls 1, 2, ... are quiet codes of the first caller, 100, ... loud ones of the second
        out = [dict(ev="sleep", d=1001)]
        for o in ops[1:]:
            o = dict(o)
            if o["ev"] == "join":
                o["law"] = "ua"[len(name) % 2]
            elif o["ev"] == "rtp":
                o.update(pad=False, other=False, us=[(255 if o["c"] == 0 else 208) - o["sn"] % 3 * 3] * 2)
            elif o["ev"] == "leave":
                o["close"] = o["c"] == 0
            out.append(o)
        return scenario(name, out + [dict(ev="sleep", d=60000)] * 2, ops[0]["frames"], ops[0]["frames"])
    return [Model("MCRoom", XMCM + ["SNs = {0, 1, 2}", "Sleeps = {20000, 45000}", "MaxPushed = 3", "Frms = {2, 3}"],
                  7 if q else 9, name="room", export=True, to_scenario=to, limit=600 if q else 8000)]


PROPS = {"C39": lambda: dict(parts=lambda tier: [
    Part("room", "TraceRoom", ["Step <- RStep", "InitOf <- ROf", "M = 65536", "R = 3000"],
         ["count", "times", "tracks", "err", "nil", "stats", "packets"], gen=gen, models=models, loose=["packets"]),
    Part("roompar", "TraceRoomPar", ["Step <- PStep", "InitOf <- PInit"], ["sound", "number", "after", "tracks", "pace", "units", "errs"],
         gen=gen_par, loose=["sound", "number", "after", "tracks", "pace", "units", "errs"], sure=True)])}
