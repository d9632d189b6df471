import c_session
from flow import Model, Part
from c_media import MC, det, val, writerpar

RATES = [8000, 12000, 16000, 24000, 32000, 44100, 48000]


# ---- resampler
def gen_resample(rng, tier):
    out = []
    q = tier == "quick"
    pairs = [(a, b) for a in RATES for b in RATES]
    for i in range(140 if q else 1500):
        a, b = pairs[i % len(pairs)] if i < 2 * len(pairs) else rng.choice(pairs)
        kind = rng.choice(["noise", "noise", "sine", "zero", "full"])
        ops = []
        mode = rng.choice(["frame", "frame", "odd", "big", "tiny"])
        n = {"frame": a // rng.choice([50, 50, 100]), "odd": 0, "big": a // 2, "tiny": rng.choice([1, 2, 3, 7])}[mode]
        for _ in range(rng.choice([1, 3, 12, 40]) if mode != "big" else 2):
            k = n or rng.choice([0, 1, 2, 5, 37, 160, 441, 1000, 2049])
            ops.append(dict(ev="write", n=k))
            if rng.random() < .03:
                ops += [dict(ev="fail", on=True), dict(ev="write", n=k), dict(ev="fail", on=False)]
        ops.append(dict(ev="close", fail=rng.random() < .2))
        if a != b and rng.random() < .3:
            ops.append(dict(ev="write", n=160))
            for _ in range(rng.choice([0, 2, 3])):      # what is refused is refused again
                ops.append(dict(ev="close", fail=False) if rng.random() < .6 else dict(ev="write", n=160))
        for _ in range(rng.choice([1, 2])):
            ops.append(dict(ev="once", n=rng.choice([0, 1, 2, 3, 80, 160, 441, 1000, a // 50, a // 3]), prefix=rng.choice([0, 0, 1, 50]), room=rng.choice([0, 10, 5000])))
        if i % 10 == 0:
            v = [rng.choice([0, -1, -8000]), rng.choice([8000, 16000, 48000])]
            rng.shuffle(v)
            ops.insert(rng.randrange(len(ops)), dict(ev="badrate", src=v[0], dst=v[1]))
        out.append(dict(sc="rs%d" % i, comp="resample", cfg=dict(src=a, dst=b, sig=kind), ops=ops))
    # sounds of some seconds
    for i in range(6 if q else 60):
        a, b = rng.choice([(48000, 44100), (44100, 48000), (48000, 8000), (8000, 48000), (8000, 44100), (16000, 48000), (24000, 32000)])
        k = rng.choice([a // 10, a // 10, a, 9999])
        ops = [dict(ev="write", n=k) for _ in range(4 * a // k)] + [dict(ev="close", fail=False), dict(ev="once", n=3 * a + rng.randrange(a), prefix=0, room=0)]
        out.append(dict(sc="long%d" % i, comp="resample", cfg=dict(src=a, dst=b, sig=rng.choice(["noise", "sine"])), ops=ops))
    return out


def sc_resample(name, ops):
    k = sum(map(ord, name))
    return dict(sc=name, comp="resample", cfg=dict(src=ops[0]["src"], dst=ops[0]["dst"], sig=["noise", "zero", "sine"][k % 3]),
                ops=ops[1:] + ([] if ops[-1]["ev"] == "close" else [dict(ev="close", fail=False)]))


def m_resample(tier):
    q = tier == "quick"
    return [Model("MCResample", MC + ["Pairs <- AllPairs", "Sizes = {0, 1, 160, 441}" if q else "Sizes = {0, 1, 7, 160, 441, 1000}", "MaxIn = %d" % (1200 if q else 3000)],
                  7 if q else 8, name="resample", export=True, to_scenario=sc_resample, limit=60 if q else 1500)]


# ---- G.711
def gen_g711(rng, tier):
    out = []
    for law in "au":
        out.append(dict(sc="all-" + law, comp="g711", cfg=dict(law=law, rate=8000),
                        ops=[dict(ev="encall", **{"from": f, "n": 1024}) for f in range(-32768, 32768, 1024)] + [dict(ev="decall")] +
                        [dict(ev="encrate", rate=r) for r in (8000, 16000, 48000)]))
    for law in "au":
        out.append(dict(sc="big-" + law, comp="g711", cfg=dict(law=law, rate=8000),
                        ops=[dict(ev="enc", xs=[val(rng) for _ in range(n)], fail=False) for n in (5000, 20000)] +
                        [dict(ev="dec", xs=[rng.randrange(256) for _ in range(n)], fail=False) for n in (5000, 20000)] + [dict(ev="close", fail=False)]))
    for i in range(40 if tier == "quick" else 600):
        rate = rng.choice([8000, 8000, 8000, 16000, 24000, 44100, 48000])
        ops = []
        for _ in range(rng.choice([3, 10])):
            n = rng.choice([0, 1, 2, 80, 160, 160, 33])
            k = rng.random()
            if k < .4:
                ops.append(dict(ev="enc", xs=[val(rng) for _ in range(n)], fail=rng.random() < .1))
            elif k < .75:
                ops.append(dict(ev="dec", xs=[rng.randrange(256) for _ in range(n)], fail=rng.random() < .1))
            else:
                ops.append(dict(ev="rtp", xs=[val(rng) for _ in range(max(1, n))]))
        ops.append(dict(ev="close", fail=rng.random() < .2))
        out.append(dict(sc="g%d" % i, comp="g711", cfg=dict(law=rng.choice("au"), rate=rate), ops=ops))
    return out


def m_g711(tier):
    return [Model("MCG711", MC + ["Stride = %d" % (128 if tier == "quick" else 8)], 1, name="g711")]


# ---- G.722
def gen_g722(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 800):
        rate = rng.choice([16000, 16000, 8000])
        per = 2 if rate == 16000 else 1
        n = rng.choice([320, 640, 1600])
        kind = rng.choice(["noise", "sine", "zero", "full"])
        ops = []
        for coder, total, unit in (("enc", n, 1), ("dec", n // per, 1)):
            left = [total, total]
            size = rng.choice([0, 0, rate // 50, rate // 100, 1, 3, 441])
            while any(left):
                j = rng.choice([j for j in (0, 1) if left[j]])
                k = min(left[j], (size if size and total <= 60 * size else unit * rng.choice([0, 1, 5, 40, 160, 161])) // (2 if coder == "dec" and size and per == 2 else 1))
                if k == 0 and rng.random() < .7:
                    k = min(left[j], unit)
                ops.append(dict(ev=coder, i=j, k=k, fail=rng.random() < .04))
                left[j] -= k
        if rate == 16000:
            ops.append(dict(ev="other", i=0, k=rng.choice([80, 160, 33]), rate=rng.choice([12000, 24000, 44100, 48000])))
        ops.append(dict(ev="encrate", rate=rng.choice([8000, 16000, 24000, 48000])))
        ops += [dict(ev="close", i=j, fail=rng.random() < .2) for j in (0, 1)]
        out.append(dict(sc="q%d" % i, comp="g722", cfg=dict(rate=rate, sig=kind, n=n), ops=ops))
    for rate in (8000, 16000):
        per, n = rate // 8000, 24000
        ops = [dict(ev=e, i=j, k=k, fail=False) for e, m in (("enc", n), ("dec", n // per)) for j in (0, 1) for k in ([m] if j else [m - 800, 800])]
        out.append(dict(sc="big%d" % rate, comp="g722", cfg=dict(rate=rate, sig="noise", n=n), ops=ops + [dict(ev="close", i=j, fail=False) for j in (0, 1)]))
    return out


def sc_g722(name, ops):
    n, rate, out, at = 24, ops[0]["rate"], [], {}
    for o in ops[1:]:
        # calls beyond the end of the sound are left out
        key = o["ev"], o["i"]
        k = o["k"] * (2 if o["ev"] == "dec" and rate == 16000 else 1)
        o = dict(o, fail=(len(name) + len(out)) % 7 == 3)
        if at.get(key, 0) + k <= n:
            at[key] = at.get(key, 0) + k
            out.append(o)
    return dict(sc=name, comp="g722", cfg=dict(rate=rate, sig=["noise", "sine"][len(ops) % 2], n=n), ops=out + [dict(ev="close", i=j, fail=False) for j in (0, 1)])


def m_g722(tier):
    q = tier == "quick"
    return [Model("MCG722", MC + ["Total = 24", "Chunks = {0, 1, 5, 8}"], 6 if q else 9, name="g722", export=True, to_scenario=sc_g722, limit=250 if q else 3000)]


# ---- Opus
def sc_opus(name, ops):
    # the target is not part of the calls: both are tried
    k = sum(map(ord, name))
    out = []
    for j, o in enumerate(ops):
        o = dict(o)
        if o["ev"] == "pkt":
            o.update(dur=[25, 50, 100, 200][(j + k) % 4], sig="noise")
        if o["ev"] == "bad":
            o["kind"] = (j + k) % 3
        out.append(o)
    return dict(sc=name, comp="opus", cfg=dict(rate=8000, erate=48000, target=1 + k % 2), ops=out)


def m_opus(tier):
    q = tier == "quick"
    return [Model("MCOpus", MC, 9 if q else 12, name="opus", export=True, to_scenario=sc_opus, limit=250 if q else 1500)]


def gen_opus(rng, tier):
    out = []
    for i in range(50 if tier == "quick" else 600):
        rate = rng.choice([8000, 12000, 16000, 24000, 48000])
        erate = rng.choice([8000, 16000, 48000, rate])
        ops = []
        for _ in range(rng.choice([4, 10])):
            c = rng.random()
            if c < .6:
                ops.append(dict(ev="pkt", ch=rng.choice([1, 2]), dur=rng.choice([25, 50, 100, 200, 200, 400, 600, 800, 1000, 1200] if erate != 12000 else [200]), sig=rng.choice(["noise", "sine", "zero", "full"])))
            elif c < .85:
                ch = rng.choice([1, 2])
                ops += [dict(ev="bad", ch=ch, kind=rng.randrange(3)) for _ in range(rng.choice([1, 1, 4, 5, 6, 7]))]
            elif c < .95:
                ops.append(dict(ev="empty"))
            else:
                ops += [dict(ev="fail", on=True), dict(ev="pkt", ch=rng.choice([1, 2]), dur=200, sig="sine"), dict(ev="fail", on=False)]
        ops.append(dict(ev="encnew", rate=rng.choice([8000, 12000, 16000, 24000, 48000, 44100, 32000, 0, -8000, 96000]), ch=rng.choice([0, 1, 2, 3])))
        ops.append(dict(ev="encbad", ch=rng.choice([1, 2]), n=rng.choice([7, 33, 1001])))
        ops.append(dict(ev="close"))
        out.append(dict(sc="o%d" % i, comp="opus", cfg=dict(rate=rate, erate=erate, target=rng.choice([1, 2])), ops=ops))
    for t in (0, 3, -1):
        out.append(dict(sc="t%d" % t, comp="opus", cfg=dict(rate=48000, erate=48000, target=t), ops=[]))
    return out


# ---- WebM
def gen_webm(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 600):
        codec = rng.choice(["pcm", "opus"])
        ms, us = rng.choice([(20, 0), (20, 0), (10, 0), (60, 0), (2, 500), (0, 125), (22, 675), (16, 667), (1, 1), (500, 0), (32767, 0), (33000, 0), (60000, 0), (999, 999), (2000, 0)])
        rate, ch = rng.choice([8000, 16000, 44100, 48000]), rng.choice([1, 2])
        ops, total = [], 0
        for _ in range(rng.choice([0, 1, 5, 20])):
            n = rng.choice([0, 1, 3, 40, 200] if codec == "pcm" else [1, 3, 40, 200])
            xs = [val(rng) if codec == "pcm" else rng.randrange(256) for _ in range(n)]
            ops.append(dict(ev="write", xs=xs))
            if rng.random() < (.08 if i % 2 else 0):
                ops.append(dict(ev="fail", n=rng.choice([-1, 0, 1, 2, 3, 5, 9, 20]), once=rng.random() < .5, close=rng.random() < .4))
        if i % 2 == 0 and rng.random() < .6:
            ops.append(dict(ev="write", xs=[7], times=rng.choice([400, 1700] if tier == "quick" else [400, 1700, 3500])))
            ops.append(dict(ev="write", xs=[8, 9]))
        ops.append(dict(ev="close"))
        out.append(dict(sc="b%d" % i, comp="webm", cfg=dict(codec=codec, ms=ms, us=us, rate=rate, channels=ch), ops=ops))
    return out


def sc_webm(name, ops):
    return dict(sc=name, comp="webm", cfg={k: v for k, v in ops[0].items() if k != "ev"}, ops=ops[1:] + ([] if ops[-1]["ev"] == "close" else [dict(ev="close")]))


def m_webm(tier):
    q = tier == "quick"
    return [Model("MCWebm", MC + ["MaxBlocks = %d" % (8 if q else 30), "Durations <- AllDurations"], 9 if q else 31, name="webm", export=True, to_scenario=sc_webm, limit=80 if q else 600)]


# ---- SRTP
SUITES = ["AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32"]


def sc_srtp(name, ops):
    k = sum(map(ord, name))
    mki = ["", "", "k", "keyid"][k % 4]
    return dict(sc=name, comp="srtp", cfg=dict(suite=SUITES[k // 4 % 4], mki=mki, omki=mki, keys=True), ops=ops)


def m_srtp(tier):
    q = tier == "quick"
    return [Model("MCSrtp", MC + ["MaxSent = %d" % (2 if q else 3)], 6 if q else 8, name="srtp", export=True, to_scenario=sc_srtp, limit=400 if q else 4000)]


def gen_srtp(rng, tier):
    out = []
    for i in range(100 if tier == "quick" else 1500):
        suite = rng.choice(SUITES)
        mki = rng.choice(["", "", "m", "a longer key id"])
        cfg = dict(suite=suite, mki=mki, omki=mki, keys=True)
        if rng.random() < .15:
            cfg["keys"] = False
            if rng.random() < .5:
                cfg["omki"] = "other"
            else:
                # the tag is shorter or longer, or the keys are
                cfg["other"] = rng.choice([s for s in SUITES if s != suite])
        ops = []
        nxt = {}
        nsent = 0
        for _ in range(rng.choice([2, 4, 8])):
            who, ssrc = rng.choice([0, 0, 0, 1]), rng.choice([1, 2, 7])
            key = (who, ssrc)
            if key not in nxt:
                nxt[key] = rng.choice([0, 1, 1000, 40000, 65530, 65534, 65535])
                # the first packet of a stream arrives first
                first = True
            else:
                first = False
            burst = []
            for _ in range(1 if first else rng.choice([1, 3, 10])):
                ops.append(dict(ev="send", who=who, ssrc=ssrc, id=rng.randrange(64), seq=nxt[key] % 65536, len=rng.choice([0, 1, 20, 160, 1000])))
                nxt[key] += rng.choice([1, 1, 1, 2])
                burst.append(nsent)
                nsent += 1
            if rng.random() < .5:
                rng.shuffle(burst)
            for k in burst:
                c = rng.random()
                bad = dict(ev="net", k=k, alter=rng.randrange(16000), cut=0) if rng.random() < .7 else \
                    dict(ev="net", k=k, alter=-1, cut=rng.choice([1, 2, 4, 10, -1, -4, 30]))
                good = dict(ev="net", k=k, alter=-1, cut=0)
                if c < .25:
                    ops.append(bad)
                if c > .1 or first:
                    ops.append(good)
                if .4 < c < .6:
                    ops.append(good)
                if .5 < c < .7:
                    ops.append(bad)
        for k in rng.sample(range(nsent), min(3, nsent)):
            ops.append(dict(ev="net", k=k, alter=rng.randrange(16000), cut=0))
        if rng.random() < .1:
            # nobody accepts the streams: the session has to close all the same
            cfg["lazy"] = True
        if rng.random() < .5 or "lazy" in cfg:
            ops += [dict(ev="close"), dict(ev="net", k=0, alter=-1, cut=0)]
        out.append(dict(sc="x%d" % i, comp="srtp", cfg=cfg, ops=ops))
    for i in range(2 if tier == "quick" else 8):  # many senders
        n, ops = rng.choice([20, 40]), []
        for k in range(2):
            for j in rng.sample(range(n), n) if k else range(n):
                ops += [dict(ev="send", who=0, ssrc=100 + j, id=j, seq=7 + k, len=20), dict(ev="net", k=len(ops) // 2, alter=-1, cut=0)]
        out.append(dict(sc="many%d" % i, comp="srtp", cfg=dict(suite=SUITES[i % 4], mki="", omki="", keys=True), ops=ops + [dict(ev="close")]))
    out.append(dict(sc="prof", comp="srtpprofiles", ops=[dict(ev="defaults")] +
                    [dict(ev="parse", name=n) for n in SUITES + ["", "AES_CM_128", "aes_cm_128_hmac_sha1_80", "AEAD_AES_128_GCM", "F8_128_HMAC_SHA1_80"]]))
    return out


# ---- Ogg files
def m_ogg(tier):
    return [Model("MCOggFile", MC, 9 if tier == "quick" else 16, name="oggfile")]


def gen_ogg(rng, tier):
    out = []
    for f in range(4):
        out.append(dict(sc="f%d" % f, comp="ogg", ops=[dict(ev="file", file=f, ask=a, askch=c)
                                                         for a, c in ((48000, 1), (48000, 2), (44100, 1), (0, 0), (8000, 1))]))
    for i in range(90 if tier == "quick" else 900):
        rate = rng.choice([48000, 48000, 48000, 44100, 32000, 22050, 11025, 16000, 8000, 96000, 200])
        ch = rng.choice([1, 2])
        ops = []
        for _ in range(3):
            o = dict(ev="made", file=rng.randrange(4), n=rng.choice([2, 3, 7, 30, 60]), rate=rate, channels=ch,
                     page=rng.choice([1, 2, 3, 20]), cut=rng.choice([0, 0, 1, 5, 63, 64, 65]), ask=rate, askch=ch)
            o["from"] = rng.choice([0, 1, 10, 40, 80])
            k = rng.random()
            if rng.random() < .35:
                o["loud"] = rng.choice([0x1ffff, rng.randrange(1 << 17), 0xf000 | rng.randrange(1 << 17)])
            if k < .08:
                o["ask"] = rng.choice([48000, 44100, 8000, rate * 2, rate + 50])
            elif k < .16:
                o["askch"] = rng.choice([3 - ch, 0, 3])
            elif k < .28:
                o["spoil"] = rng.choice([rng.randrange(1, 60), rng.randrange(60, 5000), rng.randrange(5000, 60000)])
            elif k < .36:
                o["short"] = rng.choice([1, 10, 300, 4000])
            ops.append(o)
        out.append(dict(sc="g%d" % i, comp="ogg", ops=ops))
    return out


def resample(name, **kw):
    """Two resamplers: soxr, and one in Go for builds without cgo."""
    return det(name, "TraceResample", "ZStep", "ZInitOf",
               ["total", "frames", "rate", "closed", "in", "err", "quiet", "fit", "same", "lens", "kept", "added", "copy", "refused"],
               gen=gen_resample, loose=["total", "frames", "lens"], **kw)


PROPS = {
    "C25": lambda: dict(parts=lambda tier: [resample("resample", models=m_resample), resample("resamplenocgo", cgo=False), resample("resample386", cgo="386"), writerpar("resample")],
                        assumptions=["the content of resampled sound is judged by the harness: silence stays zero, a 200 Hz sine stays that sine (5 %), and the division into writes makes no difference"]),
    "C30": lambda: dict(parts=lambda tier: [det("g711", "TraceG711", "GStep", "GInitOf",
                                                ["beyond", "codes", "values", "back", "in", "frames", "method", "pcm", "total", "pkts", "err", "closed"],
                                                gen=gen_g711, models=m_g711, loose=["total", "codes", "method", "back", "frames"])], assumptions=[]),
    "C31": lambda: dict(parts=lambda tier: [det("opus", "TraceOpus", "OStep", "OInitOf", ["out", "err", "closed", "in", "packets", "encerr", "encclosed"],
                                                invariants=["Inv"], gen=gen_opus, models=m_opus, loose=["out"])],
                        assumptions=["what a packet decodes to is taken from the Opus library, called directly"]),
    "C32": lambda: dict(parts=lambda tier: [det("webm", "TraceWebm", "BStep", "BInitOf", ["err", "rate", "closed", "track", "blocks", "later"], gen=gen_webm, models=m_webm)],
                        assumptions=["the file is read by a small EBML reader of the harness"]),
    "C33": lambda: dict(parts=lambda tier: [det("g722", "TraceG722", "QStep", "QInitOf", ["ref", "err", "in", "out", "len", "total", "closed", "quiet"], gen=gen_g722, models=m_g722)],
                        assumptions=["the coded stream of a whole sound is taken from the G.722 library, called directly in one piece"]),
    "C34": lambda: dict(parts=lambda tier: [det("srtp", "TraceSrtp", "PStep", "PInitOf", ["got", "hold", "err", "in", "sent", "fresh", "list", "lens", "ended"],
                                                invariants=["Inv"], gen=gen_srtp, models=m_srtp, loose=["ended", "list"]),
                                            Part("srtppar", "TraceRtpSessionPar", ["Step <- QStep", "InitOf <- QInit"], ["whole", "order", "eof"],
                                                 gen=lambda rng, tier: c_session.gen_par(rng, tier, True), procs=4, sure=True)],
                        assumptions=["cryptographic strength is not modelled: a forged packet is one with altered bits or made with other keys"]),
    "C36": lambda: dict(parts=lambda tier: [det("ogg", "TraceOgg", "FStep", "FInitOf", ["in", "refused", "total", "lens", "far"], gen=gen_ogg, models=m_ogg, loose=["far"])],
                        assumptions=["whether a file can be read, and its values, are taken from the Vorbis library, called directly"]),
}
