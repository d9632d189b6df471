from flow import Model, Part

CH = [48 + i for i in range(10)] + [42, 35, 97, 98, 99, 100]
W, X = 119, 120


def sc_dtmf(name, ops):
    return dict(sc=name, comp="dtmf", ops=ops)


def sc_tones(name, ops):
    return dict(sc=name, comp="tones", ops=ops)


MC = ["Ops <- MOps", "Apply <- MApply", "Starts <- MStarts", "View <- MView", "Good <- MGood"]


def m_dtmf(tier):
    q = tier == "quick"
    a = "{49, %d, %d}" % (W, X)
    return [Model("MCDtmf", MC + ["Alphabet = " + a, "Strings = %d" % (1 if q else 2), "StartTs = {0, 5000}"], 60 if q else 100,
                  name="dtmf", export=True, to_scenario=sc_dtmf, limit=400 if q else 3000)] + \
           ([] if q else [Model("MCDtmf", MC + ["Alphabet = {48, 100, %d}" % W, "Strings = 3", "StartTs = {7}"], 100, name="dtmf3")])


def m_tones(tier):
    q = tier == "quick"
    return [Model("MCTones", MC + ["Durs = {0, 20000, 50000}", "Sils = {0, 30000}", "Count = %d" % (1 if q else 2)], 9 if q else 11, name="tones",
                  export=True, to_scenario=sc_tones, limit=400 if q else 3000)]


def gen_dtmf(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 600):
        mode = rng.choice(["none", "pcm", "rtp"])
        ev = rng.random() < .8 or mode == "none"
        ops = [dict(ev="open", mode=mode, events=ev, rate=rng.choice([8000, 16000, 48000]))]
        last = 0
        for _ in range(rng.choice([1, 1, 2])):
            d = [rng.choice(CH) if rng.random() < .8 else rng.choice([W, W, X, 65, 0]) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
            last += rng.choice([0, 160, 100000])
            ops.append(dict(ev="write", ts=last, digits=d))
            k = rng.random()
            left = 27 * len(d) + 3
            if k < .3:
                ops.append(dict(ev="ticks", n=rng.randrange(left)))
                ops.append(rng.choice([dict(ev="cancel"), dict(ev="cancel"), dict(ev="cancel")] +
                                      ([dict(ev="faila", on=True)] if mode != "none" else []) + [dict(ev="failr", on=True)]))
            elif k < .6 and d:
                # one packet is refused, often one of the last three of an event
                ops.append(dict(ev="failr", at=rng.choice([12, 13, 14, 15, 27, 28, 29, 30, rng.randrange(40)]) if mode != "rtp" else rng.choice([24, 25, 26, 27, 28, rng.randrange(60)])))
            ops.append(dict(ev="ticks", n=left))
            ops.append(dict(ev="tick"))
            if k < .6:
                if mode != "none":
                    ops.append(dict(ev="faila", on=False))
                ops.append(dict(ev="failr", on=False))
            ops.append(dict(ev="cancel"))
            last += 4000 * len(d)
        out.append(sc_dtmf("d%d" % i, ops))
    for i in range(2 if tier == "quick" else 12):  # long numbers
        mode, n = ["rtp", "pcm"][i % 2], rng.choice([30, 45, 70])
        out.append(sc_dtmf("l%d" % i, [dict(ev="open", mode=mode, events=True, rate=8000), dict(ev="write", ts=rng.choice([0, 5000]), digits=[rng.choice(CH + [W]) for _ in range(n)]),
                                       dict(ev="ticks", n=27 * n + 3), dict(ev="tick")]))
    # all digits
    for i, c in enumerate(range(33, 127)):
        out.append(sc_dtmf("c%d" % i, [dict(ev="open", mode="pcm", events=True, rate=8000), dict(ev="write", ts=0, digits=[c]), dict(ev="ticks", n=30)]))
    return out


def gen_code(rng, tier):
    q = tier == "quick"
    out = []
    codes = list(range(256))
    for c in codes:
        ops = [dict(ev="decall", c=c, hi=rng.randrange(256), lo=rng.randrange(256)),
               dict(ev="durall", code=c, digit=0, vol=rng.randrange(64), end=rng.random() < .5, dur=256 * c),
               dict(ev="durall", code=rng.randrange(256), digit=rng.choice(CH), vol=rng.randrange(256), end=rng.random() < .5, dur=256 * rng.randrange(256)),
               dict(ev="tone", c=c)]
        for n in (0, 1, 2, 3, 4, 5, 8):
            ops.append(dict(ev="enc", code=c, digit=rng.choice([0] + CH), vol=rng.randrange(256), end=rng.random() < .5, dur=rng.randrange(65536), n=n))
            ops.append(dict(ev="dec", b=[rng.choice([c, rng.randrange(256)]) for _ in range(n)]))
        out.append(dict(sc="e%d" % c, comp="dtmfcode", ops=ops))
    return out


def m_code(tier):
    q = tier == "quick"
    return [Model("MCDtmfCode", MC + ["Vols = %s" % ("{0, 1, 10, 63}" if q else "{0, 1, 2, 7, 8, 10, 21, 31, 32, 42, 62, 63}"), "Durs = {0, 1, 160, 255, 256, 257, 4096, 32767, 32768, 65280, 65535}"], 1, name="code")]


def tonelist(rng):
    hz = [200, 350, 425, 540, 700, 1000, 1400, 1633, 2600]
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        out.append(dict(hz=sorted(rng.sample(hz, rng.choice([0, 1, 1, 2, 3]))), dur=rng.choice([0, 1, 20000, 20001, 50000, 100000, 333333, 1000000]),
                        sil=rng.choice([0, 0, 1, 20000, 30000, 110000])))
    return out


STD = {"dial": [dict(hz=[425], dur=0, sil=0)], "ring": [dict(hz=[425], dur=1000000, sil=4000000)], "busy": [dict(hz=[425], dur=500000, sil=500000)]}


def gen_tones(rng, tier):
    out = []
    for i in range(150 if tier == "quick" else 1500):
        o = dict(ev="play", tones=tonelist(rng), rate=rng.choice([8000, 16000, 24000, 44100, 48000]), vol=rng.choice([1000, 8000, 16000, 32767]))
        n = rng.choice([5, 20, 60])
        if i < 6:
            o["std"] = ["dial", "ring", "busy"][i % 3]
            o["tones"] = STD[o["std"]]
            n = 300
        ops = [o, dict(ev="ticks", n=n)]
        if rng.random() < .5:
            ops += [dict(ev="faila", on=True), dict(ev="tick"), dict(ev="tick")]
        else:
            ops += [dict(ev="cancel"), dict(ev="tick")]
        out.append(sc_tones("t%d" % i, ops))
    for i in range(60 if tier == "quick" else 600):
        hz = sorted(rng.sample([200, 350, 425, 540, 700, 1000, 1400, 1633, 2600], rng.choice([0, 1, 1, 2, 3])))
        rate = rng.choice([8000, 16000, 44100, 48000])
        vol = rng.choice([1000, 8000, 32767])
        out.append(dict(sc="g%d" % i, comp="tonegen", cfg=dict(rate=rate, vol=vol, hz=hz),
                        ops=[dict(ev="n", n=rng.choice([rate // 50, rate // 50, rate // 100, 1, 37])) for _ in range(5)]))
    return out


OBS = ["pkts", "ret", "late", "frame"]
PROPS = {
    "C16": lambda: dict(parts=lambda tier: [Part("dtmf", "TraceDtmf", ["Step <- DStep", "InitOf <- DInitOf"], OBS, gen=gen_dtmf, models=m_dtmf, loose=["frame"])],
                        assumptions=["which frequencies a frame contains is measured by the harness (least squares fit of the eight DTMF frequencies)"]),
    "C17": lambda: dict(parts=lambda tier: [Part("dtmfcode", "TraceDtmf", ["Step <- DStep", "InitOf <- DInitOf"],
                                                 ["err", "n", "b", "kept", "v", "rtp", "rtpm", "all", "back", "hz", "code"], gen=gen_code, models=m_code)], assumptions=[]),
    "C18": lambda: dict(parts=lambda tier: [Part("tones", "TraceTones", ["Step <- TStep", "InitOf <- TInitOf"], ["ret", "late", "frame", "gen", "peak"],
                                                 gen=gen_tones, models=m_tones, loose=["frame", "gen", "peak"])],
                        assumptions=["which frequencies a frame contains is measured by the harness (least squares fit)"]),
}
