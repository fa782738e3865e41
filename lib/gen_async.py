"""Scenarios for drv_async: pools, async loggers, threads, gates, failures. Only inputs, no expectations."""
import random
from vt import Scn

TYPES = ["lock", "free", "conc"]


class A:
    def __init__(self, sid, rng, tag, **kw):
        strat = rng.choices([0, 1, 2, 3], [6, 5, 2, 5])[0]
        conf = dict(seed=rng.randrange(1, 10**9), strategy=strat, mem=rng.choice([10, 40, 150, 600]),
                    sync=rng.choice([10, 40, 80]), cp=rng.choice([1, 2, 3, 5, 8]), spurious=rng.choice([0, 0, 0, 15]),
                    jump=0, tick=1000, hunt=rng.choice([5, 20, 60]))
        conf.update(kw)
        self.s = Scn(sid, conf, tag=tag)
        self.s.cfg = dict(pools={}, loggers={}, sinks={}, gated=[], failout=[], failflush={})
        self.rng = rng
        self.c = self.s.cfg

    def o(self, who, *t):
        self.s.op(str(who), *[str(x) for x in t])

    def pool(self, p, ty, q, w, ctor=0, who=0):
        self.c["pools"][p] = dict(ty=ty, q=q, w=w, ctor=ctor)
        self.o(who, "pool", p, ty, q, w, ctor)

    def sink(self, s, level=0, gated=False):
        self.c["sinks"][s] = level
        if gated:
            self.c["gated"].append(s)
        self.o(0, "sink", s, level, 1 if gated else 0)

    def logger(self, l, pool, level=0, flush=6, sinks=("s0",), who=0):
        self.c["loggers"][l] = dict(pool=pool, level=level, flush=flush, sinks=list(sinks))
        self.o(who, "logger", l, pool, level, flush, ",".join(sinks))

    def failout(self, u, s):
        if [u, s] not in self.c["failout"]:
            self.c["failout"].append([u, s])
            self.o(0, "failout", s, u)

    def failflush(self, s, n):
        self.c["failflush"][s] = n
        self.o(0, "failflush", s, n)

    def log(self, who, l, level=2, form=None, size=None, line=None):
        r = self.rng
        self.o(who, "log", l, level, r.randrange(6) if form is None else form,
               (r.choice([4095, 4096, 5000, 9000, 33000]) if r.random() < .004 else r.choice([0, 3, 12, 12, 40, 240, 249, 250, 251, 260, 700])) if size is None else size,
               r.randrange(1, 4000) if line is None else line)


def pick_q(rng):
    return rng.choice([1, 1, 2, 2, 3, 5, 8, 31, 32, 33, 64, 100])


def general(sid, rng, ty=None, w=None, q=None, nthr=None, flush_heavy=False, fails=False, drop_early=0.0, forget=False, multi=False, msgs=None, ctor=None, tag="general"):
    a = A(sid, rng, tag)
    npool = rng.choice([1, 2, 3]) if multi else 1
    nsink = rng.choice([1, 1, 2, 3])
    for k in range(nsink):
        a.sink("s%d" % k, rng.choice([0, 0, 0, 2, 3, 4]))
    for k in range(npool):
        a.pool("p%d" % k, ty or rng.choice(TYPES), q or pick_q(rng), w or rng.choice([1, 1, 2, 3, 4]), ctor if ctor is not None else rng.choice([0, 0, 0, 1, 2]))
    nlog = rng.choice([1, 2, 3]) + (npool - 1)
    for k in range(nlog):
        ss = ["s%d" % j for j in range(nsink)]
        rng.shuffle(ss)
        a.logger("L%d" % k, "p%d" % (k % npool), rng.choice([0, 0, 1, 2, 3]), rng.choice([6, 6, 0, 2, 3, 4, 5]) if not flush_heavy else rng.choice([0, 2, 3, 4, 6]),
                 ss[:rng.randrange(1, nsink + 1)])
    nthr = nthr or rng.choice([1, 1, 2, 3, 4])
    tot = msgs or rng.choice([4, 10, 20, 40])
    if fails:
        for _ in range(rng.randrange(1, 6)):
            a.failout(rng.randrange(1, tot + 1), "s%d" % rng.randrange(nsink))
        if rng.random() < .7:
            a.failflush("s%d" % rng.randrange(nsink), rng.randrange(1, 4))
    for k in range(tot):
        t = rng.randrange(1, nthr + 1)
        x = rng.random()
        if x < (.3 if flush_heavy else .08):
            a.o(t, "flush", "L%d" % rng.randrange(nlog))
        elif x < .12 + (.2 if flush_heavy else 0):
            a.o(t, "yield")
        elif x < .15 + (.2 if flush_heavy else 0):
            a.o(t, "pause", 1)
        else:
            a.log(t, "L%d" % rng.randrange(nlog), rng.randrange(0, 7) if rng.random() < .6 else rng.choice([2, 4]))
    a.o(0, "start", nthr)
    order = list(range(npool))
    rng.shuffle(order)
    early = rng.random() < drop_early
    if not early:
        a.o(0, "join")
    else:
        for _ in range(rng.randrange(0, 30)):
            a.o(0, "yield")
    if forget and not early:
        for k in range(nlog):
            if rng.random() < .5:
                a.o(0, "forget", "L%d" % k)
    for k in order:
        a.o(0, "drop", "p%d" % k)
    if early:
        a.o(0, "join")
    # a pool that is gone
    if not forget and rng.random() < .4:
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .5:
                a.log(0, "L%d" % rng.randrange(nlog), rng.randrange(0, 7))
            else:
                a.o(0, "flush", "L%d" % rng.randrange(nlog))
    return a.s


def shutdown(sid, rng, ty=None):
    """messages still queued when the pool goes away"""
    a = A(sid, rng, "shutdown")
    gated = rng.random() < .5
    a.sink("s0", 0, gated)
    a.sink("s1")
    q = pick_q(rng)
    w = rng.choice([1, 1, 2, 3, 4])
    ty = ty or rng.choice(TYPES)
    a.pool("p0", ty, q, w, rng.choice([0, 0, 1, 2]))
    a.logger("L0", "p0", 0, rng.choice([6, 4, 0]), ["s0", "s1"] if rng.random() < .5 else ["s0"])
    n = rng.randrange(1, min(q, 40) + 1) if ty != "conc" else rng.randrange(1, 50)
    if gated:
        for k in range(n):
            a.log(0, "L0", 2)
        a.o(1, "pause", 1)
        a.o(1, "open", "s0")
        a.o(0, "start", 1)
    else:
        nthr = rng.randrange(1, 4)
        for k in range(rng.randrange(1, 40)):
            a.log(rng.randrange(1, nthr + 1), "L0", rng.randrange(0, 6))
        a.o(0, "start", nthr)
        a.o(0, "join")
    a.o(0, "drop", "p0")
    if gated:
        a.o(0, "join")
    return a.s


def backpressure(sid, rng, ty=None):
    """closed sinks: the queue fills up, then everything moves on"""
    a = A(sid, rng, "backpressure")
    ty = ty or rng.choice(["lock", "lock", "free", "conc"])
    w = rng.choice([1, 1, 2, 3])
    q = rng.choice([1, 1, 2, 3, 4, 5, 7]) if ty != "free" else rng.choice([1, 2, 5, 31, 32, 33, 40])
    for k in range(w):
        a.sink("s%d" % k, 0, True)
    a.pool("p0", ty, q, w, 0)
    for k in range(w):
        a.logger("L%d" % k, "p0", 0, 6, ["s%d" % k])
    nthr = rng.choice([1, 2, 3, 4, 6])
    extra = rng.randrange(-1, 2 * nthr + 2)
    tot = max(1, q + w + extra)
    if ty == "free" and rng.random() < .3:
        tot += 40
    for k in range(tot):
        a.log(rng.randrange(1, nthr + 1), "L%d" % (k % w), 2, size=12)
    if rng.random() < .3:
        a.o(rng.randrange(1, nthr + 1), "flush", "L0")
    a.o(0, "start", nthr)
    a.o(0, "settle", 20)
    ks = list(range(w))
    rng.shuffle(ks)
    for k in ks:
        a.o(0, "open", "s%d" % k)
        if rng.random() < .5 and len(ks) == 1:
            a.o(0, "settle", 20)
    a.o(0, "join")
    if rng.random() < .5:
        a.o(0, "settle", 20)
    a.o(0, "drop", "p0")
    return a.s


def lifecycle(sid, rng):
    """many pools one after another and at once, used by the same threads; refused sizes"""
    a = A(sid, rng, "lifecycle")
    a.sink("s0")
    a.sink("s1", rng.choice([0, 3]))
    n = rng.randrange(1, 5)
    live = []
    lg = 0
    nl = []
    for k in range(n):
        x = rng.random()
        if x < .12:
            a.pool("p%d" % k, rng.choice(TYPES), rng.choice([1, 8]), rng.choice([0, 1025, 5000]), rng.choice([0, 1, 2]))
            continue
        a.pool("p%d" % k, rng.choice(TYPES), pick_q(rng), rng.choice([1, 1, 2, 3, 5, 9]), rng.choice([0, 0, 1, 2]))
        live.append(k)
        for _ in range(rng.randrange(1, 3)):
            a.logger("L%d" % lg, "p%d" % k, 0, rng.choice([6, 6, 4]), rng.choice([["s0"], ["s1"], ["s0", "s1"]]))
            nl.append((lg, k))
            lg += 1
        for _ in range(rng.randrange(0, 6)):
            l = rng.choice(nl)[0]
            if rng.random() < .25:
                a.o(0, "flush", "L%d" % l)
            else:
                a.log(0, "L%d" % l, rng.randrange(0, 6))
        if live and rng.random() < .4:
            p = live.pop(rng.randrange(len(live)))
            a.o(0, "drop", "p%d" % p)
    if nl:
        nthr = rng.randrange(1, 4)
        for _ in range(rng.randrange(1, 25)):
            t = rng.randrange(1, nthr + 1)
            l = rng.choice(nl)[0]
            if rng.random() < .15:
                a.o(t, "flush", "L%d" % l)
            else:
                a.log(t, "L%d" % l, rng.randrange(0, 6))
        a.o(0, "start", nthr)
        if rng.random() < .3:
            while live:
                a.o(0, "drop", "p%d" % live.pop())
        a.o(0, "join")
    while live:
        a.o(0, "drop", "p%d" % live.pop())
    return a.s


def threads_come_and_go(sid, rng):
    """several generations of threads on the same pool (thread ids differ, tokens must not run out)"""
    a = A(sid, rng, "generations")
    a.sink("s0")
    a.pool("p0", rng.choice(TYPES), pick_q(rng), rng.choice([1, 2, 3]), 0)
    a.logger("L0", "p0", 0, 6, ["s0"])
    for who in range(1, 4):
        for _ in range(rng.randrange(1, 5)):
            a.log(who, "L0", 2, size=12)
        if rng.random() < .4:
            a.o(who, "flush", "L0")
    for _ in range(rng.randrange(2, 5)):
        a.o(0, "start", rng.randrange(1, 4))
        a.o(0, "join")
    a.o(0, "drop", "p0")
    return a.s


def producers(sid, rng):
    """more threads than the queue has blocks"""
    a = A(sid, rng, "producers")
    a.sink("s0")
    a.pool("p0", rng.choice(["free", "free", "conc", "lock"]), rng.choice([1, 2, 33]), rng.choice([1, 2]), 0)
    a.logger("L0", "p0", 0, 6, ["s0"])
    n = rng.randrange(4, 13)
    for t in range(1, n + 1):
        for _ in range(rng.randrange(1, 4)):
            a.log(t, "L0", 2, size=12)
        if rng.random() < .2:
            a.o(t, "flush", "L0")
    a.o(0, "start", n)
    a.o(0, "join")
    a.o(0, "drop", "p0")
    return a.s


def held(sid, rng, ty=None, w=None, flush=.25):
    """a sink that hangs for a long time while threads log, flush, wait for room or shut the pool down"""
    a = A(sid, rng, "held")
    ty = ty or rng.choice(TYPES)
    w = w or rng.choice([1, 1, 2, 2, 3])
    q = rng.choice([1, 2, 3, 5, 8, 33]) if ty != "free" else rng.choice([1, 2, 31, 32, 33])
    two = rng.random() < .5
    a.sink("s0", 0, True)
    a.sink("s1", 0, False)
    a.pool("p0", ty, q, w, rng.choice([0, 0, 1, 2]))
    a.logger("L0", "p0", 0, rng.choice([6, 6, 4]), ["s0"])
    a.logger("L1", "p0", 0, rng.choice([6, 6, 4]), ["s1", "s0"] if two else ["s1"])
    nthr = rng.choice([1, 2, 2, 3])
    for t in range(1, nthr + 1):
        for _ in range(rng.randrange(1, 8)):
            x = rng.random()
            if x < flush:
                a.o(t, "flush", "L%d" % rng.randrange(2))
            elif x < flush + .1:
                a.o(t, "pause", rng.choice([1, 20]))
            else:
                a.log(t, "L%d" % rng.choice([0, 0, 1]), rng.choice([0, 2, 4]), size=12)
    early = rng.random() < .3
    if early:
        nthr += 1
        a.o(nthr, "pause", rng.choice([1, 10, 100]))
        a.o(nthr, "drop", "p0")
    a.o(0, "start", nthr)
    for _ in range(rng.choice([0, 0, 0, 60])):       # idle workers spin meanwhile
        a.o(0, "pause", 20)
    a.o(0, "settle", rng.choice([50, 1500, 7000, 40000, 400000]))
    a.o(0, "open", "s0")
    a.o(0, "join")
    if not early:
        a.o(0, "drop", "p0")
    return a.s


def bulk(sid, rng, ty=None):
    """hundreds of messages; most of them queued at once behind a closed sink, or many workers"""
    a = A(sid, rng, "bulk", mem=rng.choice([150, 600]), sync=rng.choice([10, 40]), hunt=5)
    ty = ty or rng.choice(TYPES)
    gated = rng.random() < .5
    w = rng.choice([1, 1, 2, 4]) if gated or rng.random() < .7 else rng.choice([16, 17, 33, 40])
    nthr = rng.choice([1, 2, 3, 5])
    n = rng.choice([80, 130, 200, 260]) if gated else rng.choice([300, 600]) if w < 9 else rng.choice([40, 120])
    a.sink("s0", 0, gated)
    a.pool("p0", ty, rng.choice([n + 1, 300, 1024, 8192]) if gated else rng.choice([1, 2, 40, 300, 8192]), w, rng.choice([0, 0, 1, 2]))
    a.logger("L0", "p0", 0, 6, ["s0"])
    turn = rng.random() < .5
    for k in range(n):
        a.log(1 + (k % nthr if turn else rng.randrange(nthr)), "L0", 2, form=rng.choice([0, 1]), size=5)
    if rng.random() < .5:
        a.o(rng.randrange(1, nthr + 1), "flush", "L0")
    a.o(0, "start", nthr)
    if gated:
        a.o(0, "settle", 50)
        a.o(0, "open", "s0")
    a.o(0, "join")
    a.o(0, "drop", "p0")
    return a.s


def biggest(sid, rng):
    """as many workers as a pool may have"""
    a = A(sid, rng, "biggest", mem=600, sync=10, hunt=5)
    a.sink("s0")
    a.pool("p0", rng.choice(TYPES), rng.choice([8, 1024]), rng.choice([1024, 1024, 1023]), rng.choice([0, 0, 1]))
    a.logger("L0", "p0", 0, 6, ["s0"])
    for _ in range(rng.choice([0, 1, 5])):
        a.log(0, "L0", 2)
    a.o(0, "drop", "p0")
    return a.s
