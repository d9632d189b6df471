import base64
from flow import Model, Part

NAMES = ["G722/8000", "PCMU/8000", "PCMA/8000", "telephone-event/8000", "VFast/8000", "VPair/16000/2", "VStat/8000"]
REAL = NAMES[:4]
SUITES = ["AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32"]
KEYLEN = dict(zip(SUITES, [16, 16, 32, 32]))
OTHER = ["AEAD_AES_128_GCM", "AEAD_AES_256_GCM", "F8_128_HMAC_SHA1_80", "aes_cm_128_hmac_sha1_80"]


def anycase(rng, s):
    k = rng.random()
    return s if k < .4 else s.lower() if k < .6 else s.upper() if k < .8 else "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)


def digits(s):
    return [int(c) for c in s]


def crypto_line(rng, tag, hard):
    """(attribute value, what the specification is told about it)"""
    suite = rng.choice(SUITES) if rng.random() < .8 else rng.choice(OTHER)
    n = KEYLEN.get(suite, 16) + 14
    if hard and rng.random() < .12:
        n = rng.choice([0, 1, 15, 16, 17, 30, 31, 32, 33, 46, 47, 60])
    key = [rng.randrange(256) for _ in range(n)]
    b = base64.b64encode(bytes(key)).decode()
    if rng.random() < .4:
        b = b.rstrip("=")
    x = dict(form="ok", tag=tag, suite=suite, key=key, b64=True, life=dict(k="none", d=[]), mki=dict(k="none", v=[], l=[]))
    if hard and rng.random() < .05:
        b, x["b64"] = rng.choice(["*" + b, b[:3] + "!" + b[3:], b + "===="]), False
    v = b
    k = rng.random()
    life = None
    if k < .35:
        life = ""
    if k < .25:
        kind = rng.choice(["pow", "pow", "dec", "dec", "bad"] if hard else ["pow", "dec"])
        if kind == "pow":
            e = str(rng.choice([0, 1, 7, 8, 20, 31, 32, 48, 62, 63] + ([64, 65, 100, 256, 999] if hard else [])))
            life, x["life"] = "2^" + e, dict(k="pow", d=digits(e))
        elif kind == "dec":
            e = str(rng.choice([1, 2, 255, 256, 65536, 2 ** 31, 2 ** 32, 2 ** 48, 2 ** 63, 2 ** 64 - 1, 12345678901]
                               + ([0, 2 ** 64, 2 ** 64 + 5, 10 ** 22] if hard else [])))
            life, x["life"] = e, dict(k="dec", d=digits(e))
        else:
            life = rng.choice(["2^", "2^x", "-1", "1.5", "2^-1", "x", "3^4", "2^2^2"])
            x["life"] = dict(k="bad", d=[])
    mki = None
    if rng.random() < .35:
        if hard and rng.random() < .2:
            mki = rng.choice(["x:4", "1:x", "-1:4", "1:-1", "1:", ":4", ":", "0x1:1", "1:1:1", "1.0:1"] + (["17", "abc"] if life is not None else []))
            x["mki"] = dict(k="bad", v=[], l=[])
        elif hard and rng.random() < .3:
            # at the edges of what a length may be
            val, n = rng.choice([(0, 0), (0, 1), (0, 8), (0, 9), (0, 16), (1, 0), (255, 1), (256, 1), (2 ** 64 - 1, 8), (2 ** 64 - 1, 9), (0, 255), (0, 256), (0, 264)])
            mki = "%d:%d" % (val, n)
            x["mki"] = dict(k="ok", v=digits(str(val)), l=digits(str(n)))
        else:
            n = rng.randint(1, 8)
            val = rng.choice([0, 1, 256 ** n - 1, rng.randrange(256 ** n)])
            if hard and rng.random() < .3:
                val = rng.choice([256 ** n, 256 ** n + 7, 2 ** 64, 2 ** 64 - 1])
                n = rng.choice([n, n, 0, 9, 255, 256, 300])
            mki = "%d:%d" % (val, n)
            x["mki"] = dict(k="ok", v=digits(str(val)), l=digits(str(n)))
    if life is not None:
        v += "|" + life
    if mki is not None:
        v += "|" + mki
    text = "%s %s inline:%s" % (tag, suite, v)
    if hard:
        k = rng.random()
        if k < .04:
            text, x["form"] = "%s %s" % (tag, suite), "skip"
        elif k < .08:
            text, x["form"] = "%s %s uri:%s" % (tag, suite, v), "skip"
        elif k < .11:
            text, x["form"] = "%s %s %s" % (rng.choice(["x", "", "1x", "-"]) or "y", suite, "inline:" + v), "bad"
        elif k < .15:
            text, x["form"] = text + rng.choice([" WSH=64", " KDR=1", ";inline:" + v, " UNENCRYPTED_SRTCP"]), "skip"
        elif k < .2:
            text = text + rng.choice([" ", "  "])
    return text, x


def maps_fmts(rng):
    fmts, maps, lines = [], [], []
    pool = NAMES[:] + ["FOO/8000", "opus/48000/2", "G722/16000", "telephone-event/48000", "PCMU/8000/2", "PCMU"]
    n = rng.choice([0, 1, 2, 3, 3, 4, 5, 7])
    for i in range(n):
        name = rng.choice(pool)
        if rng.random() < .15 and name.count("/") == 1:
            name += "/1"
        t = {"G722/8000": 9, "PCMU/8000": 0, "PCMA/8000": 8, "VStat/8000": 77}.get(name, -1)
        if t < 0 or rng.random() < .2:
            t = rng.choice([96, 97, 98, 100, 101, 102, 110, 127, 35, 128, 200, 255, 0, 8, 9, 77])
        ts = str(t)
        if rng.random() < .05:
            ts = rng.choice(["256", "257", "264", "300", "-1", "x", "", "1x", "65536", "99999999999999999999"])
            t = -1
        if rng.random() < .1:
            lines.append("a=rtpmap:" + rng.choice(["96", "foo", "", "0"]))    # no name: not a mapping
        k = rng.random()
        if k < .75 or t < 0:
            w = anycase(rng, name)
            maps.append(dict(t=t, n=w.lower()))
            lines.append("a=rtpmap:%s %s" % (ts, w))
            if k < .6:
                fmts.append((t, ts))
        else:
            fmts.append((t, ts))
        if rng.random() < .15:
            lines.append(rng.choice(["a=fmtp:%s 0-16" % ts, "a=ptime:20", "a=sendrecv", "a=x-foo:bar", "a=maxptime:150", "a=rtcp:5001"]))
    if rng.random() < .3:
        rng.shuffle(fmts)
    fmts = [f for f in fmts if f[1] != ""]
    if not fmts:
        fmts = [(97, "97")]
    if rng.random() < .03:                                  # a long media section: what matters comes after many lines that do not
        lines[:0] = [rng.choice(["a=x-foo:bar", "a=rtcp-fb:96 nack", "a=candidate:1 1 udp 1 10.0.0.9 9 typ host"]) for _ in range(rng.choice([40, 70, 150, 300]))]
    return maps, [f[0] for f in fmts], [f[1] for f in fmts], lines


ADDRS = [("1.2.3.4", "1.2.3.4"), ("10.0.0.255", "10.0.0.255"), ("::1", "::1"), ("2001:db8::17", "2001:db8::17"), ("255.255.255.255",) * 2,
         ("0.0.0.0", "0.0.0.0"), ("::", "::"), ("127.0.0.1",) * 2, ("224.2.1.1",) * 2,
         ("example.com", ""), ("1.2.3", ""), ("300.1.1.1", ""), ("1.2.3.4.5", "")]
NGOOD = 9


def conn(rng, good):
    a, ip = rng.choice(ADDRS[:NGOOD] if good or rng.random() < .7 else ADDRS)
    return "IN", "IP6" if ":" in a else "IP4", a, ip


def text_of(rng, hard=True, crypto=True, minmedia=None):
    """An SDP text and its meaning."""
    e = {}
    on, ot, oa, oip = conn(rng, not hard)
    e["origin"] = [on, oip]
    s = ["v=0", "o=%s %d %d %s %s %s" % (rng.choice(["-", "user"]), rng.randrange(2 ** 40), rng.randrange(2 ** 40), on, ot, oa),
         "s=" + rng.choice(["-", "call", "a b c"])]
    e["sconn"], e["mconn"] = [], []
    if rng.random() < .75:
        n, t, a, ip = conn(rng, not hard)
        s.append("c=%s %s %s" % (n, t, a))
        e["sconn"] = [n, ip]
    s.append("t=0 0")
    if rng.random() < .2:
        s.append("a=group:BUNDLE 0")
    others = ["video 7000 RTP/AVP 96", "application 7002 UDP/BFCP *", "video 7004 RTP/SAVP 97 98"]
    if rng.random() < .2:
        s += ["m=" + rng.choice(others), "c=IN IP4 9.9.9.9", "a=rtpmap:96 PCMU/8000", "a=crypto:9 AES_CM_128_HMAC_SHA1_80 inline:xx"]
    maps, fm, fs, lines = maps_fmts(rng)
    cr = []
    if crypto and rng.random() < .6:
        ats = sorted(rng.randrange(len(lines) + 1) if rng.random() < .3 else len(lines) for _ in range(rng.choice([1, 1, 2, 3, 4])))
        for i, at in enumerate(ats):
            t, x = crypto_line(rng, rng.choice([i + 1, i + 1, 7 + i, 99]), hard)
            cr.append(x)
            lines.insert(at + i, "a=crypto:" + t)
    e["audio"] = not (hard and rng.random() < .03)
    e["mport"] = rng.choice([1, 4000, 5004, 65535]) if not hard or rng.random() < .95 else rng.choice([0, 65536])
    if e["audio"]:
        s.append("m=audio %d %s %s" % (e["mport"], rng.choice(["RTP/AVP", "RTP/SAVP", "RTP/AVPF"]), " ".join(fs)))
    else:
        s.append("m=video %d RTP/AVP %s" % (e["mport"], " ".join(fs)))
    if rng.random() < .4:
        n, t, a, ip = conn(rng, not hard)
        s.append("c=%s %s %s" % (n, t, a))
        e["mconn"] = [n, ip]
    s += lines
    if e["audio"] and rng.random() < .15:
        s += ["m=audio 1234 RTP/AVP 0", "c=IN IP4 8.8.8.8", "a=rtpmap:99 telephone-event/8000"]
    e.update(maps=maps, fmts=fm, crypto=cr, text="\r\n".join(s) + "\r\n")
    return e


def enabled(rng):
    k = rng.random()
    if k < .4:
        return REAL[:]
    return [n for n in NAMES if rng.random() < rng.choice([.3, .6, .9])]


def here(rng):
    ip = rng.choice(["10.0.0.1", "192.168.1.2", "2001:db8::5", "::1"])
    return dict(ip=ip, ip6=":" in ip, port=rng.choice([1, 4000, 65535]))


def nego(rng):
    a, b = here(rng), here(rng)
    return dict(ev="nego", ena=enabled(rng), enb=enabled(rng), enca=rng.choice(ENC), encb=rng.choice(ENC), ipa=a["ip"], porta=a["port"],
                ipb=b["ip"], portb=b["port"])


ENC = ["none", "allow", "require"]


def mutate(rng, t):
    b = list(t)
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        k = rng.random()
        if not b:
            break
        i = rng.randrange(len(b))
        if k < .25:
            del b[i:i + rng.choice([1, 1, 3, 20])]
        elif k < .5:
            b.insert(i, rng.choice(list(" \r\n|:=/^;,*-+0123456789aA") + ["\0", "\xff", "2^", "inline:", "a=crypto:", "a=rtpmap:", "m=audio ", "c=IN IP4", "\r\n"]))
        elif k < .7:
            b[i] = chr(rng.randrange(1, 128))
        else:
            ls = "".join(b).split("\n")
            j, m = rng.randrange(len(ls)), rng.randrange(len(ls))
            if k < .8:
                ls[j], ls[m] = ls[m], ls[j]
            elif k < .9:
                del ls[j]
            else:
                ls.insert(m, ls[j])
            b = list("\n".join(ls))
    return "".join(b)


def scen(name, ops):
    return dict(sc=name, comp="sdp", cfg=dict(codecs=NAMES), ops=ops)


def select(rng):
    """Two lists of profiles for the choice of one."""
    ks = rng.sample(range(1, 200), 14)

    def some(n):
        return [[rng.choice(SUITES + ["F8_128_HMAC_SHA1_80"]), rng.choice([1, 2, 3, 7, 99]), ks.pop(),
                 rng.choice([[], [], [5], [0], [1, 2], [0, 0, 0, 5], [1] * 8])] for _ in range(n)]
    return dict(ev="select", off=some(rng.choice([0, 1, 2, 4, 6])), ans=some(rng.choice([0, 1, 2, 4, 6])), swap=rng.random() < .5)


def gen_crypto(rng, tier):
    return gen_nego(rng, tier) + [scen("k%d" % i, [select(rng) for _ in range(20)]) for i in range(20 if tier == "quick" else 400)]


def gen_nego(rng, tier):
    out = []
    for i in range(120 if tier == "quick" else 1200):
        ops = []
        for _ in range(8):
            k = rng.random()
            if k < .3:
                ops.append(nego(rng))
            elif k < .5:
                ops.append(dict(ev="offer", en=enabled(rng), enc=rng.choice(ENC), **here(rng)))
            elif k < .85:
                ops.append(dict(ev="answer", en=enabled(rng), enc=rng.choice(ENC), **text_of(rng, hard=False), **here(rng)))
            else:
                ops.append(dict(ev="apply", en=enabled(rng), enc=rng.choice(ENC), encoff=rng.choice(ENC), **text_of(rng, hard=False), **here(rng)))
        out.append(scen("n%d" % i, ops))
    return out


def edge_lines():
    """Crypto attributes with numbers at the edges of what is allowed."""
    mkis = [(v, n) for n in list(range(1, 10)) + [0, 255, 256, 264] for v in sorted({0, 1, 256 ** min(n, 9) - 1, 256 ** min(n, 9), 2 ** 63, 2 ** 64 - 1})]
    lives = [("pow", str(e)) for e in list(range(0, 67)) + [255, 256, 264, 999]]
    lives += [("dec", str(v)) for k in (0, 1, 8, 16, 31, 32, 33, 47, 48, 49, 63, 64) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1)]
    lens = [(s, n) for s in SUITES for k in (KEYLEN[s],) for n in (0, k - 1, k, k + 1, k + 13, k + 14, k + 15, 64)]
    for suite, n, life, mki in ([(SUITES[0], 30, None, m) for m in mkis] + [(SUITES[0], 30, ("pow", "20"), m) for m in mkis[::7]] +
                                [(SUITES[i % 4], KEYLEN[SUITES[i % 4]] + 14, l, None) for i, l in enumerate(lives)] +
                                [(s, k, None, None) for s, k in lens]):
        key = [(i * 7 + n) % 256 for i in range(n)]
        x = dict(form="ok", tag=1, suite=suite, key=key, b64=True, life=dict(k="none", d=[]), mki=dict(k="none", v=[], l=[]))
        v = base64.b64encode(bytes(key)).decode()
        if life:
            x["life"] = dict(k=life[0], d=digits(life[1]))
            v += "|" + ("2^" if life[0] == "pow" else "") + life[1]
        if mki:
            x["mki"] = dict(k="ok", v=digits(str(mki[0])), l=digits(str(mki[1])))
            v += "|%d:%d" % mki
        yield "1 %s inline:%s" % (suite, v), x


def gen_edges():
    ops = []
    for text, x in edge_lines():
        s = ["v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=-", "t=0 0", "m=audio 4000 RTP/SAVP 0", "a=crypto:" + text]
        ops.append(dict(ev="parse", en=REAL, origin=["IN", "1.2.3.4"], sconn=[], mconn=[], audio=True, mport=4000, maps=[], fmts=[0],
                        crypto=[x], text="\r\n".join(s) + "\r\n"))
    return [scen("e%d" % i, ops[i:i + 20]) for i in range(0, len(ops), 20)]


def gen_parse(rng, tier):
    out = gen_edges()
    for i in range(150 if tier == "quick" else 2000):
        ops = []
        for _ in range(8):
            if rng.random() < .65:
                ops.append(dict(ev="parse", en=enabled(rng), **text_of(rng)))
            else:
                t = text_of(rng)["text"]
                ops.append(dict(ev="fuzz", en=REAL, text=mutate(rng, t)))
        out.append(scen("p%d" % i, ops))
    return out


def render(o):
    """Adds the text to an answer or apply operation of the model."""
    if o["ev"] == "nego":
        return o
    ls = ["v=0", "o=- 1 1 IN IP4 10.9.8.7", "s=-", "c=IN IP4 10.9.8.7", "t=0 0",
          "m=audio %d RTP/AVP %s" % (o["mport"], " ".join(map(str, o["fmts"])) or "97")]
    o = dict(o, fmts=o["fmts"] or [97])
    return dict(o, text="\r\n".join(ls + ["a=rtpmap:%d %s" % (m["t"], m["n"]) for m in o["maps"]]) + "\r\n")


def models(tier):
    q = tier == "quick"
    pool = '{"G722/8000", "PCMU/8000", "telephone-event/8000"%s}' % ("" if q else ', "VFast/8000", "VStat/8000"')
    return [Model("MCSdp", ["Pool = " + pool, "Lists = %d" % (2 if q else 3)], None, invariants=("Agree", "Mine"), spec="MCSpec", view=False,
                  bound=False, name="sdp", export=True, limit=1500 if q else 12000, batch=20,
                  to_scenario=lambda n, ops: scen(n, [render(o) for o in ops]))]


TRACE = ["Step <- PStep", "InitOf <- PInit"]
AUDIO = ["err", "erra", "codecs", "dtmf", "sel", "selans", "audio", "audioa", "audiob", "desc"]
CRYPTO = ["some", "picked", "prof", "quiet", "err", "erra", "suite", "suitea", "suiteb", "rkey", "rsalt", "lkey", "works", "profiles", "line"]
PARSE = ["err", "codecs", "dtmf", "sel", "selans", "addr", "crypto", "dest", "ok"]
ENDS = ["err", "addr", "dest", "local", "remote", "locala", "localb", "remotea", "remoteb", "text", "back"]


def prop(check, gen, models=models):
    return lambda: dict(parts=lambda tier: [Part("sdp", "TraceSdp", TRACE, check, gen=gen, models=models, loose=["ok"])],
                        assumptions=["the text of a description is split into lines and fields by the harness and the generator, not by the code under test"])


PROPS = {"C27": prop(AUDIO, gen_nego), "C28": prop(CRYPTO, gen_crypto), "C29": prop(PARSE, gen_parse), "C35": prop(ENDS, gen_nego)}
