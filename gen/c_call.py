"""Whole calls: negotiation, sound and digits through a bad network."""
from flow import Model, Part

REAL = ["G722/8000", "PCMU/8000", "PCMA/8000", "telephone-event/8000"]
NAMES = REAL + ["VFast/8000", "VPair/16000/2", "VStat/8000"]


def enabled(rng):
    k = rng.random()
    on = REAL[:] if k < .3 else [rng.choice(REAL[:3])] + REAL[3:] if k < .7 else [c for c in REAL if rng.random() < .6]
    return on if any(c in on for c in REAL[:3]) else on + [rng.choice(REAL[:3])]


def call(rng, name):
    ops = []
    ena = enabled(rng)
    enb = enabled(rng) if rng.random() < .5 else ena
    enc = rng.choice([("none", "none"), ("none", "allow"), ("allow", "allow"), ("require", "require"), ("allow", "require"), ("require", "allow"), ("require", "none")]
                     if rng.random() < .8 else [("none", "require")])
    common = [c for c in REAL[:3] if c in ena and c in enb]
    rate = 16000 if common[:1] == ["G722/8000"] else 8000
    inr = [rate if rng.random() < .6 else rng.choice([8000, 16000, 48000]) for _ in range(2)]
    outr = [rate if rng.random() < .6 else rng.choice([8000, 16000, 48000]) for _ in range(2)]
    ops.append(dict(ev="setup", ena=ena, enb=enb, enca=enc[0], encb=enc[1], **{"in": inr, "out": outr}))
    up = bool(common) and "none" not in enc or enc in (("none", "none"), ("none", "allow"), ("allow", "none")) and common
    if not up:
        return dict(sc=name, comp="call", cfg=dict(codecs=NAMES), ops=ops)
    ev = REAL[3] in ena
    both = rng.random() < .5
    loss, dup, late = rng.choice([(0, 0, 0), (.1, 0, 0), (.1, .1, .2), (0, .2, .4), (.3, .1, .3), (0, 0, .5)])
    # the dithering of a resampled sound that is as loud as can be throws G.722 off
    sig = "sine" if rate == 16000 and inr != [16000, 16000] else rng.choice(["noise", "noise", "sine", "full"])
    # which packets there are is known in the harness only: 'flow' lets it deliver, lose, repeat and delay
    # those sent since the last time, and record each delivery as 'net'
    n = rng.choice([3, 6, 12, 20])
    for i in range(n):
        for d in ([0, 1] if both else [0]):
            if rng.random() < .9:
                ops.append(dict(ev="say", d=d, sig=sig))
            if ev and rng.random() < .06:
                ops.append(dict(ev="digit", d=d, ds=[rng.choice("0123456789*#abcd") for _ in range(rng.choice([1, 1, 2]))]))
            ops.append(dict(ev="flow", d=d, loss=loss, dup=dup, late=late))
        if rng.random() < .08:
            ops.append(dict(ev="again", d=rng.choice([0, 1])))
        ops.append(dict(ev="sleep", d=0, t=rng.choice([20003, 20003, 20003, 20007, 5001, 41000, 61013])))
    if rng.random() < .3:
        ops.append(dict(ev="hangup", d=rng.choice([0, 1])))
        for d in (0, 1):
            ops.append(dict(ev="say", d=d, sig=sig))
            ops.append(dict(ev="flow", d=d, loss=0, dup=0, late=0))
        ops.append(dict(ev="hangup", d=0))
    ops.append(dict(ev="sleep", d=0, t=70001))
    ops.append(dict(ev="sleep", d=0, t=70001))
    return dict(sc=name, comp="call", cfg=dict(codecs=NAMES, seed=rng.randrange(2 ** 31)), ops=ops)


def gen(rng, tier):
    return [call(rng, "c%d" % i) for i in range(150 if tier == "quick" else 4000)]


XMCM = ["Starts <- MStarts", "Ops <- MOps", "Apply <- MApply", "View <- MView", "Good <- MGood", "M = 65536", "R = 3000"]


def sc_model(name, ops):
    return dict(sc=name, comp="call", cfg=dict(codecs=NAMES, seed=1), ops=ops)


def models(tier):
    q = tier == "quick"
    return [Model("MCCall", XMCM + ["MaxSent = %d" % (3 if q else 4), "MaxArrivals = %d" % (4 if q else 5), "Sleeps = {60000}" if q else "Sleeps = {25000, 60000}",
                                    "Digits = FALSE", "Talkers = {0}", "Encs <- PlainEncs"], 7 if q else 9, name="call", export=True, to_scenario=sc_model,
                  limit=300 if q else 4000),
            Model("MCCall", XMCM + ["MaxSent = 3", "MaxArrivals = %d" % (3 if q else 4), "Sleeps = {60000}" if q else "Sleeps = {25000, 60000}",
                                    "Digits = TRUE", "Talkers = {0, 1}", "Encs <- PlainEncs"], 6 if q else 8, name="calldigits")]


PROPS = {"C37": lambda: dict(parts=lambda tier: [
    Part("call", "TraceCall", ["Step <- VStep", "InitOf <- VInit", "M = 65536", "R = 3000"],
         ["err", "kinds", "sent", "heard", "digits", "pcm", "total", "ends", "coded"], gen=gen, models=models, loose=["err", "kinds", "sent", "total"])])}
