from flow import Model, Part


def gen_pipe(rng, tier):
    out = []
    for i in range(250 if tier == "quick" else 4000):
        W, R, C = rng.choice([(1, 1, 1), (1, 1, 2), (2, 1, 1), (2, 2, 2), (3, 2, 2), (1, 2, 1), (2, 1, 2)])
        ops = []
        nxt = 1
        naps = rng.choice([[0, 0, 1, 3], [0, 0, 20, 60], [0, 1, 2, 30]])
        t = 0
        total = 0
        k = rng.choice([2, 3, 5])
        # a reader so slow that the writers queue up (and a lock would be handed over)
        slow = i % 5 == 0
        rnaps = [1200, 2500] if slow else naps
        if slow:
            W, R, C, k = rng.choice([2, 3]), 1, 1, 2
        for _ in range(W):
            for _ in range(k):
                n = rng.choice([3, 5] if slow else [0, 1, 2, 3, 5])
                total += max(n, 1)
                ops.append(dict(t=t, k="w", d=list(range(nxt, nxt + n)), nap=rng.choice(naps)))
                nxt += n
            t += 1
        # enough reads for everything or too few of them
        reads = rng.choice([k, total + 2, total + 2, total // 2])
        for _ in range(R):
            for _ in range(-(-reads // R)):
                ops.append(dict(t=t, k="r", n=rng.choice([1, 1, 2] if slow else [0, 1, 1, 2, 4, 8]), nap=rng.choice(rnaps)))
            t += 1
        for j in range(C):
            # the last closer closes when all is over, or while everybody is at it
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(dict(t=t, k=rng.choice(["cw", "cw", "cr"]), e=rng.choice(["", "", "e1", "e2"]),
                                nap=rng.choice(naps) if j else rng.choice([60000] if slow else [0, 5, 100, 400, 1500])))
            t += 1
        out.append(dict(sc="p%d" % i, comp="pipe", cfg=dict(threads=t), ops=ops))
    for i in range(3):  # large writes
        big, n = rng.choice([6000, 20000]), rng.choice([1, 2])
        ops = [dict(t=0, k="w", d=[j % 30000 for j in range(1, big + 1)], nap=0) for _ in range(n)]
        ops += [dict(t=1, k="r", n=rng.choice([big // 2, big - 1, big, 2 * big]), nap=0) for _ in range(3 * n)]
        out.append(dict(sc="big%d" % i, comp="pipe", cfg=dict(threads=3), ops=ops + [dict(t=2, k="cw", e="", nap=60000)]))
    return out


def gen_many(rng, tier):
    return [dict(sc="n%d" % i, comp="pipemany", cfg=dict(side=side, e=e, spin=spin, n=1500 if tier == "quick" else 10000), ops=[])
            for i, (side, e, spin) in enumerate((s, e, n) for s in ("cw", "cr") for e in ("", "e1") for n in (60, 1500))]


def models(tier):
    q = tier == "quick"
    one = lambda w, r, c, rounds, name, live=True, sizes="{1, 2}": Model("MCPipe", ["Writers = %d" % w, "Readers = %d" % r, "Closers = %d" % c, "Sizes = " + sizes, "MaxLen = 2",
                                              "Rounds = %d" % rounds], None, invariants=("Exact", "Mutex"), properties=("Sticky", "Unblock") if live else ("Sticky",),
                                              spec="Spec", view=False, bound=False, name=name)
    ms = [one(1, 1, 1, 2, "pipe-1-1-1"), one(2, 1, 1, 1, "pipe-2-1-1", sizes="{2}" if q else "{1, 2}"), one(1, 2, 1, 1, "pipe-1-2-1")]
    if not q:
        ms += [one(2, 2, 1, 1, "pipe-2-2-1", False), one(2, 1, 2, 1, "pipe-2-1-2", False, "{1}")]
    return ms


PROPS = {
    "C19": lambda: dict(parts=lambda tier: [Part("pipe", "TracePipe", ["Accept <- PAccept", "Hidden <- PHidden", "InitOf <- PInitOf"], ["err", "data", "clean"],
                                                 gen=gen_pipe, models=models, sure=True),
                                            Part("pipemany", "TracePipeMany", ["Step <- MStep", "InitOf <- MInit"], ["rounds"], gen=gen_many, procs=2, sure=True)],
                        assumptions=["interleavings of the real goroutines are those the Go scheduler produces with injected yields and sleeps"]),
}
