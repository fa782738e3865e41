"""Scenarios for drv_logger with the registry: names, global settings, pools. Only inputs."""
import gen_logger as gl
from vt import Scn

NAMES = ["alpha", "beta", "gamma", "delta", ""]
POOLS = ["lock", "free", "conc"]
HS = ["H1", "H2", "H3", "H4", "H5"]
BAD_W = [0, 0, 1025, 1026, 5000]

W = {
    "C11": dict(new=10, reg=14, init=8, rem=10, deft=8, defnone=3, remall=1, log=6, flushall=3, create=4, settle=2, dele=4, lv=1, swap=2, hide=1, pool=.7, auto=1, glv=.5),
    "C12": dict(new=8, init=10, reg=3, auto=4, rem=3, deft=3, swap=1, hide=.3, gpat=7, gfmt=6, glv=7, gfl=6, pat=5, nlv=6, nfl=5, log=24, lv=2, fl=2, opat=2, ofmtr=2, create=5, adv=2, flushall=2, pool=.7, close=.7, defnone=.5, remall=.3, slv=1),
    "C13": dict(new=8, init=6, reg=6, deft=4, rem=2, pool=9, nopool=2, create=9, close=3, log=16, burst=10, flush=3, flushall=3, auto=.5, glv=.5, gfl=1, gpat=.5, defnone=.5, badpool=3, enable=1, dump=1, dele=1, swap=2, hide=1.5, hold=0),
}


class R(gl.G):
    def __init__(self, sid, rng, prop):
        super().__init__(sid, rng, tag=prop, fmt={"C11": .1, "C12": .9, "C13": .2}[prop], nsink=rng.choice([2, 3, 4]), **{"async": 1})
        self.s.cfg = dict(seq=True, reg=True)
        self.s.ops.insert(0, (0, "rstart"))
        self.lg, self.made, self.pools = {"D0": dict(nm="default_logger", ss=[], as_=False, pool=0)}, 0, 0
        self.pool_w, self.cur, self.q = 1, 0, 8192
        self.names, self.auto, self.ty = {"default_logger": "D0"}, True, ""
        self.tr, self.dflt = {}, ""
        self.pats, self.held = [], False

    def pat(self):
        # often one that was set before: it may be the one in force, or that of somebody else
        if self.pats and self.r.random() < .45:
            return self.r.choice(self.pats[-3:])
        self.pats.append(super().pat())
        return self.pats[-1]

    # what the generator needs to know to make sensible inputs: who holds a name, which pool is installed
    def alive(self, h):
        d = self.lg[h]
        return not d["as_"] or (d["pool"] and d["pool"] == self.cur)

    def put_pool(self, ty, q, w):
        self.pools += 1
        self.cur, self.pool_w, self.q, self.ty = self.pools, w, q, ty
        self.names = {n: h for n, h in self.names.items() if not self.lg[h]["as_"]}

    def flush_cost_ok(self):
        # the order in which loggers are flushed is not said; keep the number of orders small
        return len(self.names) <= 5

    def pickh(self, pred=lambda h: True, bias=None):
        hs = [h for h in self.lg if pred(h)]
        if bias and self.r.random() < .6:
            b = [h for h in hs if bias(h)]
            hs = b or hs
        return self.r.choice(hs) if hs else None

    def rstep(self, w):
        r = self.r
        k = r.choices(list(w), list(w.values()))[0]
        reg = lambda h: h in self.names.values()
        if k == "new":
            h = r.choice(HS)
            if reg(h) and r.random() < .7:
                return
            as_ = r.random() < (.6 if self.cur else .15)
            nm, ss = r.choice(NAMES), self.sinks(1)
            if h in self.names.values() or h == self.dflt:
                return
            self.o("new", h, nm, 1 if as_ else 0, ",".join(ss))
            self.lg[h] = dict(nm=nm, ss=ss, as_=as_, pool=self.cur if as_ else 0)
            if r.random() < .5:
                self.init(h)
        elif k == "init":
            h = self.pickh(lambda h: h != "D0", bias=lambda h: not reg(h))
            if h:
                self.init(h)
        elif k == "reg":
            h = self.pickh(bias=lambda h: not reg(h))
            self.o("rreg", h)
            self.names.setdefault(self.lg[h]["nm"], h)
        elif k == "auto":
            self.auto = r.random() < .6
            self.o("rauto", 1 if self.auto else 0)
        elif k == "rem":
            nm = r.choice(list(self.names) + NAMES + ["default_logger", "never"])
            self.o("rrem", nm)
            self.names.pop(nm, None)
        elif k == "deft":
            h = self.pickh()
            self.o("rdef", h)
            self.dflt = h
            self.names[self.lg[h]["nm"]] = h
        elif k == "defnone":
            self.o("rdefnone")
        elif k == "remall":
            self.o("rremall")
            self.names = {}
        elif k == "close":
            self.o("rclose")
            self.names, self.cur, self.ty, self.pool_w = {}, 0, "", 1
        elif k == "gpat":
            self.o("rgpat", self.pat())
        elif k == "gfmt":
            self.o("rgfmt", *self.fm())
        elif k == "glv":
            self.o("rglv", r.choice([0, 0, 1, 2, 3, 4, 5, 6]))
        elif k == "gfl":
            self.o("rgfl", r.choice([0, 1, 2, 3, 4, 5, 6]))
        elif k in ("pat", "nlv", "nfl"):
            nm = r.choice((list(self.names) or ["never"]) * 3 + NAMES + ["never"])
            self.o(*(["rpat", nm, self.pat()] if k == "pat" else ["rlv" if k == "nlv" else "rfl", nm, r.randrange(0, 7)]))
        elif k in ("lv", "fl"):
            self.o(k, self.pickh(), r.randrange(0, 7))
        elif k == "opat":
            self.o("pat", self.pickh(), self.pat())
        elif k == "ofmtr":
            h = self.pickh(lambda h: self.lg[h]["ss"])
            if h:
                self.o("fmtr", h, *self.fm())
        elif k == "slv":
            self.o("slv", "s%d" % r.randrange(self.ns), r.randrange(0, 5))
        elif k == "adv":
            if r.random() < .3:
                self.o("clock", r.choice([-86400000000000, -1000000000, -1, 3600000000000]))
            else:
                self.o("adv", r.choice([1, 1000, 1000000, 1000000000]))
        elif k == "log":
            h = self.pickh(bias=reg)
            self.log(h, 0, .01, 0, lv=r.choice([None, 5, 4]))
        elif k == "swap":
            # names, sinks and settings change hands; what is registered under which name does not
            h = self.pickh(bias=reg)
            g = self.pickh(lambda x: x != h and self.lg[x]["as_"] == self.lg[h]["as_"], bias=lambda x: x == "D0" or reg(x))
            if g:
                old = self.swap(h, g)
                if r.random() < .3:
                    self.o("rrem", old)
                    self.names.pop(old, None)
        elif k == "hide":
            # a default logger that no longer is found by the name it was registered under
            h = self.pickh(lambda x: x != "D0", bias=lambda x: self.lg[x]["as_"] and self.alive(x))
            g = h and self.pickh(lambda x: x not in (h, "D0") and self.lg[x]["as_"] == self.lg[h]["as_"] and self.lg[x]["nm"] != self.lg[h]["nm"])
            if g:
                self.o("rdef", h)
                self.dflt = h
                self.names[self.lg[h]["nm"]] = h
                old = self.swap(h, g)
                self.o("rrem", old)
                self.names.pop(old, None)
                e = r.random()
                if e < .6:
                    self.pool_change()
                elif e < .7:
                    self.o("rrem", self.lg[h]["nm"])
                    self.names.pop(self.lg[h]["nm"], None)
        elif k == "burst":
            # messages still queued when the next call replaces, closes or flushes the pool
            h = self.pickh(lambda h: self.lg[h]["as_"] and self.lg[h]["pool"] == self.cur and self.cur)
            if h and self.pool_w == 1 and not self.held:
                hs = [x for x in self.lg if self.lg[x]["as_"] and self.lg[x]["pool"] == self.cur]
                for x in hs:
                    self.o("lv", x, 0)
                for _ in range(r.choice([1, 3, 10, 30])):
                    self.lognw(r.choice(hs))
                e = r.random()
                if e < .5:
                    self.pool_change()
                elif e < .65 and self.made < 6:
                    self.create([x for x in POOLS if x != self.ty])
                elif e < .8:
                    self.o("rclose")
                    self.names, self.cur, self.ty, self.pool_w = {}, 0, "", 1
                elif e < .9:
                    self.o("flush", h)
                else:
                    self.o("log", h, 0, 5, "last", "f", 1, "g", 0, 0)
        elif k == "flush":
            self.o("flush", self.pickh())
        elif k == "flushall":
            if self.flush_cost_ok():
                self.o("rflush")
        elif k == "pool":
            self.pool_change()
        elif k == "hold":
            # the user keeps the registered pool alive, or lets go of all those kept
            if self.held and r.random() < .4:
                self.o("rdrop")
                self.held = False
            else:
                self.o("rhold")
                self.held = True
        elif k == "nopool":
            self.o("rnopool")
            self.cur, self.ty, self.pool_w = 0, "", 1
            self.names = {n: h for n, h in self.names.items() if not self.lg[h]["as_"]}
        elif k == "badpool":
            self.o("rpool", r.choice(POOLS), r.choice([1, 8, 300]), r.choice(BAD_W), 0)
        elif k == "create":
            self.create()
        elif k == "dele":
            h = self.pickh(lambda h: h not in self.names.values() and h != "D0" and len(self.lg) > 2)
            # (a logger that is still the default one stays)
        elif k in ("enable", "dump"):
            h = self.pickh(lambda h: h[0] == "H" and not self.lg[h]["as_"])
            if h:
                self.o(*([k, h, r.choice([1, 2, 5])] if k == "enable" else [k, h]))
        elif k == "settle":
            self.o("yield")

    def swap(self, h, g):
        self.o("swap", h, g, self.r.choice([0, 1]))
        a, b = self.lg[h], self.lg[g]
        a["nm"], b["nm"], a["ss"], b["ss"] = b["nm"], a["nm"], b["ss"], a["ss"]
        return b["nm"]

    def lognw(self, h):
        r = self.r
        loc = r.choice(gl.LOCS)
        self.o("log", h, r.choice([0, 1, 3, 7]), r.choice([1, 2, 3, 5]), self.text(), loc[0], loc[1], loc[2], 1700000000, 5, "nw")

    def init(self, h):
        self.o("rinit", h)
        if self.auto:
            self.names.setdefault(self.lg[h]["nm"], h)

    def pool_change(self):
        r = self.r
        ty, q, w = r.choice(POOLS), r.choice([1, 2, 5, 40, 8192]), r.choice([1, 1, 1, 1, 2, 3])
        self.o("rpool", ty, q, w, r.choice([0, 1]))
        self.put_pool(ty, q, w)

    def create(self, kinds=("sync", "lock", "free", "conc")):
        r = self.r
        if self.made >= 6:
            return
        self.made += 1
        kind, h, nm, s = r.choice(kinds), "M%d" % self.made, r.choice(NAMES), "sm%d" % self.made
        self.o("rcreate", kind, h, nm, s)
        if kind != "sync":
            if not self.cur:
                self.put_pool(kind, 8192, 1)
            elif self.ty != kind:
                self.put_pool(kind, self.q, self.pool_w)
        self.lg[h] = dict(nm=nm, ss=[s], as_=kind != "sync", pool=self.cur if kind != "sync" else 0)
        if self.auto:
            self.names.setdefault(nm, h)


def seq(sid, rng, prop, n):
    g = R(sid, rng, prop)
    if rng.random() < .7:
        g.o("rglv", 0)
    if prop == "C13" and rng.random() < .7:
        g.pool_change()
    w = dict(W[prop], hold=5, close=7) if prop == "C13" and rng.random() < .35 else W[prop]
    for _ in range(n):
        g.rstep(w)
    if prop == "C13" and not g.held and rng.random() < .4:
        # the program ends, perhaps with messages still queued and nothing closed
        hs = [x for x in g.lg if g.lg[x]["as_"] and g.lg[x]["pool"] == g.cur and g.cur]
        if hs and g.pool_w == 1:
            for x in hs:
                g.o("lv", x, 0)
            for _ in range(rng.choice([0, 1, 3, 10, 30])):
                g.lognw(rng.choice(hs))
        g.o("rexit")
    return g.s


def lin(sid, rng, prop):
    """threads that call the registry's functions at the same time"""
    r = rng
    s = Scn(sid, dict(tick=0, seed=r.randrange(1, 10**9), strategy=r.choice([0, 0, 1, 3, 3]), hunt=r.choice([5, 20, 60]), mem=r.choice([5, 10, 40, 150]), sync=r.choice([10, 40, 80]), cp=r.choice([2, 3, 5]), lin=1),
            cfg=dict(seq=True, reg=True))
    s.op(0, "rstart").op(0, "sink", "s0", "raw", 0)
    names = NAMES[:r.choice([1, 2, 3])]
    hs = HS[:r.choice([2, 3, 4])]
    pool = r.random() < (.8 if prop == "C13" else .3)
    made = 0
    kinds = r.choice([["lock"], ["free"], ["conc"], POOLS, POOLS])
    if pool and r.random() < .6:
        s.op(0, "rpool", r.choice(kinds), 8, 1)
    for h in hs:
        s.op(0, "new", h, r.choice(names), 1 if pool and r.random() < .6 else 0, "s0")
    if r.random() < .5:
        s.op(0, "rinit", r.choice(hs))
    if r.random() < .3:
        s.op(0, "rdef", r.choice(hs))

    def one(t):
        nonlocal made
        if pool and made < 3 and r.random() < (.3 if prop == "C13" else .1):
            made += 1
            s.op(t, "rcreate", r.choice(kinds + ["sync"] * (r.random() < .2)), "M%d" % made, r.choice(NAMES), "sm%d" % made)
            return
        k = r.choice(["rreg", "rreg", "rreg", "rinit", "rinit", "rinit", "rdef", "rdefnone", "rrem", "rrem", "rremall", "rglv", "rglv", "rgfl", "rlv", "rlv", "rfl", "rgpat", "rpat", "rauto",
                      "get", "get", "get", "getdef", "exec", "exec", "exec"] + (["rpool"] * 3 + ["rnopool", "rclose"] * (r.random() < .3) if pool else []))
        if k in ("rreg", "rinit", "rdef"):
            s.op(t, k, r.choice(hs))
        elif k in ("rrem", "get"):
            s.op(t, k, r.choice(names + ["default_logger"] * (r.random() < .3)))
        elif k in ("rglv", "rgfl"):
            s.op(t, k, r.randrange(0, 7))
        elif k in ("rlv", "rfl"):
            s.op(t, k, r.choice(names), r.randrange(0, 7))
        elif k == "rgpat":
            s.op(t, k, r.choice(["%v", "%n", "%l"]))
        elif k == "rpat":
            s.op(t, k, r.choice(names), r.choice(["%v", "%n", "%l"]))
        elif k == "rauto":
            s.op(t, k, r.choice([0, 1, 1]))
        elif k == "rpool":
            s.op(t, k, r.choice(kinds), r.choice([1, 3, 9]), r.choice([1, 1, 2, 0, 1025]))
        else:
            s.op(t, k)
    nthr = r.choice([2, 2, 3, 4])
    for t in range(1, nthr + 1):
        for _ in range(r.randrange(1, 7 if nthr < 4 else 4)):
            one(t)
    s.op(0, "start", nthr).op(0, "join").op(0, "getdef")
    if pool:
        s.op(0, "alive")
    return s
