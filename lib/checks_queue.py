"""C06: concurrent histories of block_queue."""
import vt
from vt import Scn


def scn(sid, r, nthr=None):
    cap = r.choice([1, 1, 2, 3, 5])
    s = Scn(sid, dict(seed=r.randrange(1, 10**9), strategy=r.choices([0, 1, 2, 3], [6, 5, 2, 4])[0], hunt=r.choice([5, 20, 60]), mem=r.choice([6, 20, 80, 300]),
                      sync=r.choice([10, 40, 80]), cp=r.choice([1, 2, 3, 5, 8]), spurious=r.choice([0, 0, 20]), tick=1000, cap=cap))
    s.cfg = dict(cap=cap)
    n = nthr or r.choice([1, 2, 3, 4, 5])
    v = 0
    style = r.randrange(5)
    for t in range(1, n + 1):
        for _ in range(r.randrange(1, 9 if n > 2 else 16)):
            x = r.random()
            if style == 0:      # producers and consumers, blocking only
                op = "put" if t % 2 else "take"
            elif style == 1:
                op = r.choice(["put", "put", "takefor", "take"])
            elif style == 2:
                op = r.choice(["try", "force", "takefor", "take", "put"])
            elif style == 3:    # consumers wait in turn
                op = r.choice(["take", "takefor"]) if t > 1 else r.choice(["put", "try", "force"])
            else:
                op = r.choice(["put", "try", "force", "take", "takefor", "size", "over", "disc", "rstover", "rstdisc"])
            if x < .12:
                op = r.choice(["size", "over", "disc"])
            elif x < .16:
                op = r.choice(["rstover", "rstdisc"])
            elif x < .26:
                op = "yield"
            elif x < .36:
                s.op(str(t), "pause", r.choice([1, 3, 7, 10, 20]))
                continue
            elif x < .38:
                s.op(str(t), "clock", r.choice([-86400000, -3600000, -1000, -100, -10, 10, 100, 3600000]))
                continue
            if op in ("put", "try", "force"):
                v += 1
                s.op(str(t), op, v)
            elif op == "takefor":
                s.op(str(t), op, r.choice([0, 0, 5, 10, 20, 20, 40]))
            elif op == "take" and r.random() < .1:
                s.op(str(t), op, r.choice([1, 2, 3]))       # with a limit of centuries
            else:
                s.op(str(t), op)
    if r.random() < .3:
        for _ in range(r.randrange(1, cap + 1)):
            v += 1
            s.op("0", "put", v)
    s.op("0", "start", n)
    s.op("0", "settle", 2)
    s.op("0", "finish")
    for o in ("size", "over", "disc"):
        s.op("0", o)
    s.op("0", "drain")
    return s


def forgotten(sid, r):
    """consumers wait; one kind of insertion only, several of them in a row: whoever is not woken stays asleep
    (or the other way round: producers wait for room that one consumer makes)"""
    cap = r.choice([1, 2, 3, 4, 6])
    s = Scn(sid, dict(seed=r.randrange(1, 10**9), strategy=r.choice([0, 0, 1, 2, 3]), hunt=r.choice([5, 20, 60]), mem=r.choice([6, 20, 80, 300]),
                      sync=r.choice([10, 40, 80]), cp=r.choice([1, 2, 3, 5]), spurious=0, tick=1000, cap=cap))
    s.cfg = dict(cap=cap)
    full = r.random() < .4
    waiters, busy = r.choice([2, 2, 3, 4]), r.choice([1, 1, 2])
    v = 0
    if full:
        for _ in range(cap):
            v += 1
            s.op("0", "put", v)
    kinds = [r.choice(["take", "take", "takefor"])] if full else [r.choice(["put", "try", "force"])]
    if r.random() < .15:
        kinds = ["take", "takefor"] if full else ["put", "try", "force"]
    for t in range(1, waiters + 1):
        for _ in range(r.choice([1, 1, 2])):
            v += 1
            if full:
                s.op(str(t), "put", v)
            elif r.random() < .25:
                s.op(str(t), "takefor", r.choice([60, 100, 150]))
            else:
                s.op(str(t), "take", *([r.choice([1, 2, 3])] if r.random() < .1 else []))
    for t in range(waiters + 1, waiters + busy + 1):
        s.op(str(t), "pause", r.choice([1, 5, 20]))
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            v += 1
            k = r.choice(kinds)
            s.op(str(t), k, *([v] if k in ("put", "try", "force") else [10] if k == "takefor" else []))
            if r.random() < .1:
                s.op(str(t), "yield")
    s.op("0", "start", waiters + busy)
    s.op("0", "settle", 50)
    s.op("0", "finish")
    for o in ("size", "over", "disc"):
        s.op("0", o)
    s.op("0", "drain")
    return s


def check(run):
    run.build(["drv_queue"])
    run.model("BlockQueueImpl", workers=8)
    run.model("BlockQueueImpl", "BlockQueueSpurious.cfg", workers=8)
    n = 2500 if vt.TIER == "quick" else 30000
    scns = [(forgotten if k % 3 == 2 else scn)("q-%05d" % k, run.rng) for k in range(n)]
    return vt.conformance(run, "drv_queue", "BlockQueueTrace", scns, batch=4000, deadline=600)
