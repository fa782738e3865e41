"""Scenarios for drv_logger: loggers, sinks, backtraces, failures, copies. Only inputs."""
import checks_fmt as cf
from vt import Scn

LOCS = [("main.cpp", 1, "main"), ("dir/sub/file.cpp", 12345, "operator()"), ("a", 99999, "null"), ("", 7, "fn"), ("gone", 0, "x"), ("neg", -1, "")]
HANDLES = ["L1", "L2", "L3", "L4"]
NAMES = ["alpha", "beta", "", "a longer logger name with more than thirty two characters", "x"]
BT = [0, 1, 1, 2, 2, 3, 5, 8, 20]


class G:
    def __init__(self, sid, rng, tag="", pool="", fmt=0.5, nsink=None, **conf):
        c = dict(tick=0, seed=rng.randrange(1, 10**9), strategy=2 if pool else 2, off=rng.choice([0, 0, 330, -60]))
        if pool:
            c["pool"] = pool
        c.update(conf)
        self.r, self.s, self.pool = rng, Scn(sid, c, tag=tag), pool
        self.s.cfg = dict(seq=True, reg=False)
        self.h, self.sl, self.tr, self.as_, self.shared, self.nt, self.kind = [], {}, {}, {}, set(), 0, {}
        self.n = 0
        for k in range(nsink or rng.choice([1, 2, 2, 3, 4])):
            self.kind["s%d" % k] = "fmt" if rng.random() < fmt else "raw"
            if rng.random() < (.15 if tag == "C10" else .04):
                self.kind["s%d" % k] = rng.choice(["full", "full", "null"])
            self.o("sink", "s%d" % k, self.kind["s%d" % k], rng.choice([0, 0, 0, 1, 2, 3, 4, 6]))
        self.ns = len(self.kind)

    def o(self, *t, who=0):
        self.s.op(who, *t)

    def sinks(self, lo=0):
        r = self.r
        ss = ["s%d" % k for k in range(self.ns)]
        r.shuffle(ss)
        ss = ss[:r.randrange(lo, self.ns + 1)]
        if ss and r.random() < .08:
            ss.append(r.choice(ss))
        return ss

    def new(self, lo=1):
        r = self.r
        h = r.choice(HANDLES)
        as_ = bool(self.pool) and r.random() < .7
        ss = self.sinks(lo)
        self.o("new", h, r.choice(NAMES), 1 if as_ else 0, ",".join(ss))
        self.sl[h], self.tr[h], self.as_[h] = list(ss), 0, as_
        if h not in self.h:
            self.h.append(h)
        return h

    def text(self, fails=0.0):
        r = self.r
        self.n += 1
        n = r.choice([0, 3, 10, 10, 30, 100, 240, 250, 260, 500])
        if self.s.tag == "C10" and r.random() < .04:
            n = r.choice([900, 1000, 1100, 2100, 4200])
        t = "m%d %s" % (self.n, cf.nul(r, cf.text(r, n).replace("!", "."), 0 if self.s.tag == "C10" else .06))
        while r.random() < fails:
            t += " !s%d!" % r.randrange(self.ns)
        if r.random() < .1:
            t += r.choice([" %s%n%d", " {} {0} {", " \n second line", " %v%+%n"])
        return t

    def log(self, h, fails=0.0, badfmt=0.03, free=0.1, lv=None, who=0, simple=False):
        r = self.r
        lv = r.randrange(0, 7) if lv is None else lv
        forms = [0, 1, 2, 3, 4, 7, 8, 9, 10] + ([5, 6, 11] * 2 if lv < 6 else [])
        if r.random() < free:
            forms = [20, 21, 22, 23, 26] + ([24, 25, 27] if lv < 6 else [])
        f = r.choice(forms)
        if r.random() < badfmt:
            f = r.choice([12, 13, 14])
        if simple:
            f = r.choice([0, 1, 3, 5 if lv < 6 else 0])
        loc = r.choice(LOCS)
        t = self.text(fails)
        if f in (12, 13, 14):
            t = t.replace("\x00", "")      # it ends up in an exception's what(), which is a C string
        self.o("log", h, f, lv, t, loc[0], loc[1], loc[2], 1700000000 + r.randrange(-100000, 100000), r.randrange(0, 10**9), who=who)

    def pat(self):
        return cf.pattern(self.r, "vnlWXYZvT+^$tm@", nmax=5)

    def fm(self):
        r = self.r
        c = r.choice(["", "K", "v", "n", "%"]) if r.random() < .7 else ""
        p = cf.pattern(r, "vnlWXYvT", c, 5) if c else self.pat()
        return p, r.choice(["\n", "", "!\r\n"]), c, "T%d" % r.randrange(100), 1 if c and r.random() < .25 else 0

    def usable(self, h):
        return self.tr[h] not in self.shared or self.tr[h] == 0

    def step(self, w):
        """w: weights of the kinds of operations"""
        r = self.r
        if not self.h:
            self.new()
            return
        k = r.choices(list(w), list(w.values()))[0]
        h = r.choice(self.h)
        if k == "log":
            self.log(h, w.get("_fails", 0) and r.choice([0, .3]), w.get("_bad", .03))
        elif k == "burst":
            for _ in range(r.randrange(1, 30)):
                self.log(h, 0, .01, 0, simple=True)
        elif k == "lv":
            self.o("lv", h, r.choice([0, 0, 1, 2, 3, 4, 5, 6]))
        elif k == "fl":
            self.o("fl", h, r.choice([0, 1, 2, 3, 4, 5, 6]))
        elif k == "slv":
            self.o("slv", "s%d" % r.randrange(self.ns), r.choice([0, 0, 1, 2, 3, 4, 5, 6]))
        elif k == "ff":
            self.o("ff", "s%d" % r.randrange(self.ns), r.choice([0, 1, 1, 2, 3, -1]))
        elif k == "add":
            if len(self.sl[h]) < 5:
                s = "s%d" % r.randrange(self.ns)
                self.sl[h].append(s)
                self.o("add", h, s)
        elif k == "rm":
            if self.sl[h]:
                n = r.randrange(len(self.sl[h]))
                self.sl[h].pop(n)
                self.o("rm", h, n + 1)
        elif k == "pat":
            self.o("pat", h, self.pat())
        elif k == "fmtr":
            # (a formatter is created with the flag, so its pattern knows it)
            if self.sl[h]:
                self.o("fmtr", h, *self.fm())
        elif k == "spat":
            self.o("spat", "s%d" % r.randrange(self.ns), self.pat())
        elif k == "sfmtr":
            self.o("sfmtr", "s%d" % r.randrange(self.ns), *self.fm())
        elif k == "adv":
            if self.s.tag != "C10" and not self.pool and r.random() < .2:
                self.o("fork")
            elif r.random() < .3:
                self.o("clock", r.choice([-86400000000000, -3600000000000, -1000000000, -1500000, -1, 1, 1500000, 3600000000000]))
            else:
                self.o("adv", r.choice([1, 1000, 999999, 1000000, 1000000000, 3600000000000]))
        elif k == "new":
            if self.tr[h] not in self.shared:
                self.new(0)
        elif k in ("clone", "copy", "move"):
            g = h
            if k != "clone" and self.as_[g]:
                return
            n = r.choice(HANDLES)
            if n == g and k == "move":
                return
            t = self.tr[g]
            self.o(k, n, g, *([r.choice(NAMES)] if k == "clone" else []))
            if t and k != "move" and n != g:
                self.shared.add(t)
            if n not in self.h:
                self.h.append(n)
            self.sl[n], self.tr[n], self.as_[n] = list(self.sl[g]), t, self.as_[g]
            if k == "move":
                self.h.remove(g)
        elif k == "swap":
            g = r.choice(self.h)
            if self.as_[g] != self.as_[h]:
                return
            self.o("swap", h, g, r.choice([0, 1]))
            self.sl[h], self.sl[g] = self.sl[g], self.sl[h]
            self.tr[h], self.tr[g] = self.tr[g], self.tr[h]
        elif k == "del":
            if len(self.h) > 1:
                self.o("del", h)
                self.h.remove(h)
        elif k in ("enable", "disable", "dump"):
            if not self.usable(h):
                return
            if k == "enable":
                if not self.tr[h]:
                    self.nt += 1
                    self.tr[h] = self.nt
                self.o("enable", h, r.choice(BT))
            else:
                self.o(k, h)
        elif k == "flush":
            self.o("flush", h)


# what each property puts the weight on
W = {
    "C09": dict(log=40, lv=8, fl=8, slv=6, add=3, rm=3, flush=2, new=3, clone=1, ff=.3),
    "C08": dict(log=30, burst=6, enable=6, disable=3, dump=10, lv=6, fl=2, slv=2, new=1, adv=2, swap=1, pat=1),
    "C10": dict(log=40, burst=1, adv=3, ff=6, flush=6, fl=5, lv=3, fmtr=5, sfmtr=3, enable=2, dump=3, new=1, add=1, _fails=1, _bad=.15),
    "C19": dict(log=40, pat=6, fmtr=8, spat=3, sfmtr=3, adv=6, add=2, rm=2, clone=2, new=2, lv=2),
    "C21": dict(log=30, clone=8, copy=5, move=4, swap=8, new=4, lv=6, fl=5, add=5, rm=4, slv=2, pat=5, fmtr=2, enable=3, disable=1, dump=3, flush=2, **{"del": 2}),
}


def seq(sid, rng, prop, n, pool=""):
    g = G(sid, rng, tag=prop, pool=pool, fmt={"C19": 1.0, "C09": .15, "C08": .2}.get(prop, .5))
    for _ in range(rng.choice([1, 2, 2, 3])):
        h = g.new()
        if rng.random() < .7:
            g.o("lv", h, rng.choice([0, 0, 1, 2]))
    for _ in range(n):
        g.step(W[prop])
    return g.s


def conc(sid, rng, prop):
    """several threads, fixed loggers with failing sinks: every call still does its part, reports are numbered"""
    g = G(sid, rng, tag=prop, fmt=0.3, strategy=rng.choice([0, 1, 3, 3]), hunt=rng.choice([5, 20, 60]), mem=rng.choice([10, 40, 150]), sync=rng.choice([10, 40, 80]), cp=rng.choice([2, 3, 5]))
    g.s.cfg = dict(seq=False, reg=False)
    for h in ("L1", "L2"):
        ss = g.sinks(1)
        ss = sorted(set(ss))
        g.o("new", h, h, 0, ",".join(ss))
        g.o("lv", h, rng.choice([0, 2]))
        g.o("fl", h, rng.choice([0, 3, 6]))
        g.sl[h] = ss
    for s in g.kind:
        if rng.random() < .4:
            g.o("ff", s, -1)
        # no flag with a state: the order in which threads reach a sink is theirs
        g.o("spat", s, rng.choice(["%v", "%n %l %v", "%+", "%t:%v"]))
    nthr = rng.choice([2, 3, 4])
    for t in range(1, nthr + 1):
        for _ in range(rng.randrange(2, 8)):
            if rng.random() < .2:
                g.o("flush", rng.choice(["L1", "L2"]), who=t)
            else:
                g.log(rng.choice(["L1", "L2"]), .5, .2, 0, who=t)
    g.o("start", nthr)
    g.o("join")
    return g.s
