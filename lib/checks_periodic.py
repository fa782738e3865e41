"""C14: periodic tasks and periodic flushing."""
import vt
from vt import Scn

UNITS = [1000000, 1000000, 500000000, 1000, 60000000000, 1, 333]


def base(sid, r, **kw):
    u = r.choice(UNITS)
    return Scn(sid, dict(tick=0, seed=r.randrange(1, 10**9), strategy=r.choice([0, 0, 0, 1, 2, 3, 3]), hunt=r.choice([5, 20, 60]), mem=r.choice([5, 10, 40, 150]), sync=r.choice([10, 40, 80]),
                         cp=r.choice([2, 3, 5]), spurious=r.choice([0, 0, 20]), unit=u, **kw))


def kind(r, s):
    return r.choice({1000000: [0, 1, 2], 500000000: [0, 2, 5, 5], 1000: [0, 1], 60000000000: [3, 4, 4, 0]}.get(s.conf["unit"], [0]))


def interval(r, s, among):
    if r.random() < .05:
        return 1000000000, r.choice([10, 11, 12, 13, 14, 15, 16])     # centuries
    return r.choice(among), kind(r, s)


def durs(r):
    return r.choice(["0", "0", "0", "1", "3", "0,2", "7,0,0", "1,0,25"])


def clock(s, t, r, p=.08):
    """somebody sets the system clock"""
    if r.random() < p:
        s.op(t, "clock", r.choice([-86400000, -3600000, -1000, -100, -10, 10, 100, 3600000]))


def tasks(sid, r):
    s = base(sid, r)
    if r.random() < .5:         # one thread
        n = 0
        alive = []
        for _ in range(r.randrange(3, 14)):
            x = r.random()
            clock(s, 0, r)
            if x < .3 or not alive:
                n += 1
                alive.append("p%d" % n)
                s.op(0, "new", "p%d" % n, *interval(r, s, [1, 2, 3, 5, 10, 10, 0, -1, -5, 1000]), durs(r))
            elif x < .7:
                s.op(0, "sleep", r.choice([0, 1, 1, 2, 3, 5, 9, 10, 10, 11, 20, 30, 100]))
            elif x < .8:
                s.op(0, "yield")
            else:
                s.op(0, "del", alive.pop(r.randrange(len(alive))))
        for p in alive:
            s.op(0, "del", p)
        return s
    nthr = r.choice([1, 2, 3])
    for t in range(1, nthr + 1):
        for k in range(r.randrange(1, 3)):
            p, iv = "p%d_%d" % (t, k), r.choice([1, 2, 5, 10, 10, 0, -3])
            s.op(t, "new", p, iv, kind(r, s), durs(r))
            clock(s, t, r)
            # often stop it at the very moment that it is due, or while it is starting or running
            s.op(t, "sleep", r.choice([0, 0, iv, iv, 2 * iv, 3 * iv, iv + 1, iv - 1, r.randrange(0, 40)]) if iv > 0 else 3)
            for _ in range(r.randrange(0, 4)):
                s.op(t, "yield")
            s.op(t, "del", p)
    s.op(0, "start", nthr).op(0, "join")
    return s


def flushing(sid, r):
    s = base(sid, r)
    hs = ["A", "B", "C"][:r.choice([1, 2, 2, 3])]
    pool = r.random() < .3
    if pool:
        s.op(0, "pool")
    for h in hs:
        s.op(0, "logger", h, 1 if pool and r.random() < .6 else 0, "", r.choice(["0", "0", "0,0", "1", "0,2", "4"]), 1 if r.random() < .2 else 0)
    on = set()
    for h in hs:
        if r.random() < .7:
            s.op(0, "reg", h)
            on.add(h)
    closed = False
    for _ in range(r.randrange(3, 16)):
        x = r.random()
        clock(s, 0, r)
        if x < .3:
            s.op(0, "every", *interval(r, s, [1, 2, 3, 5, 10, 10, 20, 0, -1]))
        elif x < .75:
            s.op(0, "sleep", r.choice([0, 1, 1, 2, 3, 5, 9, 10, 10, 11, 20, 30]))
        elif x < .85:
            off = [h for h in hs if h not in on]
            if off and not closed:
                h = r.choice(off)
                s.op(0, "reg", h)
                on.add(h)
        elif x < .93:
            if on:
                h = r.choice(sorted(on))
                on.discard(h)
                s.op(0, "rem", h)
        elif x < .95:
            s.op(0, "remall")
            on = set()
        elif x < .98:
            s.op(0, "close")
            on, closed = set(), closed or pool
    if not pool and r.random() < .4:
        s.op(0, "exit")
    else:
        s.op(0, "close")
        s.op(0, "sleep", 50)
    return s


def check(run):
    run.build(["drv_periodic"])
    run.model("PeriodicImpl")
    run.control("PeriodicImpl", "PeriodicUnlocked.cfg", "NoLostStop")
    k = 3 if vt.TIER == "quick" else 20
    v = vt.conformance(run, "drv_periodic", "PeriodicTrace", [tasks("p-%05d" % n, run.rng) for n in range(1200 * k)], batch=4000, tag="tasks", deadline=600)
    if not v:
        v = vt.conformance(run, "drv_periodic", "PeriodicTrace", [flushing("f-%05d" % n, run.rng) for n in range(600 * k)], batch=4000, tag="flushing", deadline=600)
    return v
