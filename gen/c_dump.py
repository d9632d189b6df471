"""Chains of a codec with diagnostic dumps on and off."""
import c_call
import c_codecs
from flow import Model, Part

SWITCH = dict(media="LK_DUMP_MEDIA", g722="LK_DUMP_G722", resample="LK_DUMP_RESAMPLE")


def env(on):
    return {SWITCH[k]: "true" for k in on}


def some(rng):
    return sorted(rng.sample(sorted(SWITCH), rng.choice([0, 1, 1, 2, 3, 3])))


def scenario(name, codec, crate, ext, enc, rate, on, ops, clock=0, typ=0, static=False, prio=0, twin=False, plain=False):
    return dict(sc=name, comp="dump", env=env(on), cfg=dict(codec=codec, crate=crate, ext=ext, enc=enc, rate=rate, on=on, twin=twin),
                ops=[dict(ev="make", clock=clock, type=typ, static=static, prio=prio, plain=plain)] + ops)


def gen(rng, tier):
    res = [scenario("p%d" % i, "own", r, "", True, 8000, [], [], plain=p)
           for i, (r, p) in enumerate((r, p) for r in (0, -1, -8000) for p in (False, True))]
    for i in range(250 if tier == "quick" else 4000):
        codec = rng.choice(["G722/8000", "G722/8000", "PCMU/8000", "PCMA/8000", "own"])
        crate = rng.choice([8000, 16000, 48000, 12000]) if codec == "own" else 0
        enc = rng.random() < .5
        plain = codec == "own" and rng.random() < .3
        rate = rng.choice([8000, 16000, 48000, 24000, 44100])
        ops = []
        frame = 160 if rng.random() < .5 else 0
        for k in range(rng.choice([1, 3, 10, 60 if tier == "quick" else 200])):
            if rng.random() < .05:
                ops.append(dict(ev="fail", on=rng.random() < .5))
            n = (rate // 50 if enc else 160) if frame else rng.choice([2, 3, 7, 160, 161, 500, 2049, 5000])
            ops.append(dict(ev="say", n=n, sig=rng.choice(["sine", "noise", "full"])))
        if enc and rng.random() < .8:
            ops.append(dict(ev="close"))
        res.append(scenario("d%d" % i, codec, crate, rng.choice(["", "abc"]) if codec == "own" else "", enc, rate, some(rng), ops,
                            rng.choice([0, 0, 8000, 90000]), rng.choice([0, 9, 96, 127]), rng.random() < .5, rng.choice([-3, 0, 7]), rng.random() < .4, plain))
    return res


XM = ["Starts <- MStarts", "Ops <- MOps", "Apply <- MApply", "View <- MView", "Good <- MGood"]


def sc_model(name, ops):
    c = ops[0]["c"]
    on = sorted(c["on"])
    body = [dict(o, sig="noise") if o["ev"] == "say" else o for o in ops[1:]]
    return scenario(name, c["codec"], c["crate"], c["ext"], c["enc"], c["rate"], on, body)


def models(tier):
    q = tier == "quick"
    return [Model("MCDump", XM + ["MaxSaid = %d" % (2 if q else 3), "Sizes = {160, 5000}" if q else "Sizes = {160, 321, 5000}",
                                  'Codecs = {"G722/8000", "PCMU/8000", "own/24000"}' if q else 'Codecs = {"G722/8000", "PCMU/8000", "PCMA/8000", "own/24000"}',
                                  "Rates = {8000, 16000, 48000}"], 5 if q else 6, name="dump", export=True, to_scenario=sc_model, limit=400 if q else 4000)]


def under(gen, n):
    """The same scenarios with dumps on."""
    def g(rng, tier):
        out = []
        sc = gen(rng, tier)
        for s in sc if tier != "quick" or len(sc) <= n else rng.sample(sc, n):
            on = rng.choice([["g722", "media", "resample"], some(rng)])
            out.append(dict(s, env=env(on)))
        return out
    return g


def again(spec, name, gen, n):
    """A part of another property, its scenarios run with dumps on."""
    p = [p for p in spec["parts"]("quick") if p.name == name][0]
    return Part("%sdumped" % name, p.trace_module, p.consts, p.check, gen=under(gen, n), invariants=p.invariants, loose=p.loose)


PROPS = {"C38": lambda: dict(parts=lambda tier: [
    Part("dump", "TraceDump", ["Step <- VStep", "InitOf <- VInit"], ["info", "quiet", "names", "whole", "failed", "err"], gen=gen, models=models,
         loose=["names", "whole", "failed", "err"]),
    again(c_call.PROPS["C37"](), "call", c_call.gen, 60),
    again(c_codecs.PROPS["C33"](), "g722", c_codecs.gen_g722, 100),
    again(c_codecs.PROPS["C25"](), "resample", c_codecs.gen_resample, 100)],
    assumptions=["a file that is never closed may lack up to 4096 bytes at its end"])}
