"""C18 (pattern language), C19 (formatters and their state): TLC enumerates patterns, the real
formatter formats, TLC compares with the TLA+ definition of the language."""
import vt
from vt import Scn

FLAGS = "+nlabcymdHMSEFGTWXYZptv^$@ABC%"
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 %!=-+^$@#[](){}.,:;'\"\\/|~`*&_<>?\t"
LEN_POOL = [0, 1, 2, 3, 5, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 120, 200, 249, 250, 251, 300]
LOCS = [("", 0, ""), ("main.cpp", 1, "main"), ("dir/sub/file.cpp", 12345, "operator()"), ("a", 99999, "null"), ("b.h", 100000, "f"),
        ("gone.cpp", 0, "g"), ("neg.cpp", -3, "h"), ("x", 2147483647, ""), ("", 7, "fn"), ("y.cpp", 9, "null"), ("z.cpp", 10, "q")]
DAYS = [-1, -1, 0, 0, 58, 59, 60, 364, 365, 789, 790, 11015, 11016, 11017, 19716, 19781, 19782, 19783, 19999, 20088, 24000]
FAR = [47540, 47541, 47542, 50000, 84064, 84065, 106750, -1, -365, -366, -20000, -24837, -25509, -25508, -62091, -106000]


def text(rng, n):
    return "".join(rng.choice(ALPHA) for _ in range(n))


def nul(rng, s, p=.06):
    """(a text may hold any byte)"""
    if s and rng.random() < p:
        k = rng.randrange(len(s))
        s = s[:k] + "\x00" + s[k + 1:]
    return s


def width(rng):
    w = rng.choice(["", "", "", "0", "1", "2", "3", "4", "5", "7", "8", "9", "10", "12", "16", "24", "25", "30", "31", "48", "63", "64", "65", "99", "100", "640",
                    "1000", "007", "064", "18446744073709551617", "4294967298", "99999999999999999999999"])
    return (rng.choice(["", "", "-", "="]) + w + (rng.choice(["", "!"]) if w else "")) if w else rng.choice(["", "", "", "-", "=", "!"])


def pattern(rng, flags=FLAGS, cust="", nmax=9):
    r = rng.random()
    if r < 0.05:
        return "".join(chr(rng.choice([1, 9, 10, 27, 127, 128, 200, 255, 37, 37, 48, 49, 33, 45, 61, 118])) for _ in range(rng.randrange(0, 14)))
    if r < 0.12:
        return text(rng, rng.randrange(0, 30))
    out = []
    for _ in range(rng.randrange(1, nmax)):
        if rng.random() < 0.4:
            out.append(text(rng, rng.choice([1, 1, 2, 3, 7, 20])))
        fl = rng.choice(cust) if cust and rng.random() < 0.5 else rng.choice(flags) if rng.random() < 0.93 else rng.choice("QqzI#~ \\?r")
        out.append("%" + width(rng) + fl)
    if rng.random() < 0.05:
        out.append(rng.choice(["%", "%-", "%=", "%5", "%-5", "%5!", "%=12!"]))
    return "".join(out)


class Gen:
    def __init__(self, rng, timers=True, epoch=1700000000, off=0):
        self.rng, self.timers, self.t, self.off = rng, timers, epoch, off
        self.ns = 0

    def time(self):
        r, rng = rng_roll(self.rng), self.rng
        if r < 0.35:
            pass                                            # the same second
        elif r < 0.55:
            self.t += rng.choice([1, 1, 2, 59, 60, 61, 3600, 86400])
        elif r < 0.7:
            self.t -= rng.choice([1, 1, 2, 60, 3600, 86400])
        elif r < 0.9:
            self.t = rng.choice(DAYS) * 86400 + rng.choice([0, 1, 3599, 3600, 35999, 36000, 43199, 43200, 86399]) - self.off * 60
        elif not self.timers:
            self.t = rng.choice(FAR) * 86400 + rng.randrange(0, 86400)
        self.t = min(max(self.t, -86400 if self.timers else -106600 * 86400), 106750 * 86400)
        self.ns = rng.choice([0, 1, 9, 10, 99, 999, 1000, 1001, 99999, 999999, 1000000, 9999999, 99999999, 123456789, 999000000, 999999000, 999999999, rng.randrange(0, 10**9)])
        return self.t, self.ns

    def msg(self):
        rng = self.rng
        t, ns = self.time()
        loc = rng.choice(LOCS)
        return (nul(rng, text(rng, rng.choice(LEN_POOL))) if rng.random() < 0.8 else rng.choice(["", "logger"]), nul(rng, text(rng, rng.choice(LEN_POOL))), rng.randrange(0, 7), loc[0], loc[1], loc[2],
                rng.choice([0, 1, 9, 10, 12345, 99999, 100000, 4294967295, 4294967296, 9999999999, 18446744073709551615, 10000000000000000000]), t, ns)


def rng_roll(r):
    return r.random()


def one_pattern(rng, sid, pats):
    """a scenario that formats a few messages with each of some patterns"""
    off = rng.choice([0, 0, 60, -60, 330, -570, 845, -720])
    s = Scn(sid, dict(tick=0, off=off))
    g = Gen(rng, timers=False, off=off)
    for k, p in enumerate(pats):
        # far away times only where no elapsed time is computed (TLC has 32 bit integers)
        g.timers = any(c in p for c in "WXYZ")
        if g.timers:
            g.t = 1700000000 + rng.randrange(-10, 10)
        f = "f%d" % k
        s.op("new", f, p, rng.choice(["default", "\n", "", "\r\n", "<eol>\n", "%v"]))
        for _ in range(rng.choice([1, 2, 3])):
            s.op("fmt", f, *g.msg())
            if rng.random() < (.2 if "p" in p else .005):
                s.op("fork")        # everything goes on in a child process
    return s


def summer(rng, sid):
    """a zone with summer time (10 April to 27 October): around the changes, and anywhere"""
    import datetime
    off = rng.choice([0, 0, 60, -300, 330, -570])
    s = Scn(sid, dict(tick=0, off=off, dst=1))
    s.op("new", "f", "%a %b %c|%y-%m-%d %H:%M:%S|%T|%E", "\n").op("new", "g", "%+", "default")
    t = 0
    for _ in range(60):
        r = rng.random()
        if r < .4 or not t:
            d = (datetime.date(rng.randrange(1972, 2037), *rng.choice([(4, 10), (10, 27), (4, 9), (10, 26), (4, 11), (10, 28)])) - datetime.date(1970, 1, 1)).days
            t = d * 86400 + 7200 - off * 60 + rng.choice([0, -1, 1, 1800, -1800, 3599, 3600, -3600, -3601])
        elif r < .6:
            t += rng.choice([1, -1, 3600, -3600, 1800])
        elif r < .8:
            t = rng.randrange(63072000, 2114380800)
        s.op("fmt", rng.choice("fg"), "n", "x", 2, "", 0, "", 1, t, rng.randrange(0, 10**9))
    return s


def c18(run):
    rng = run.rng
    run.build(["drv_fmt"])
    thorough = vt.TIER == "thorough"
    out = run.model("PatternMC", "PatternMCdeep.cfg" if thorough else "PatternMC.cfg", workers=4)
    pats = [p for (p,) in vt.printed(out, "PAT")]
    run.notes["enumerated_patterns"] = len(pats)
    run.log("patterns", len(pats))
    pats = [p for p in pats if not p or p[0] == "%" or rng.random() < 0.2]
    scns = []
    for a in range(0, len(pats), 40):
        s = Scn("enum-%05d" % (a // 40), dict(tick=0, off=0))
        g = Gen(rng)
        for p in pats[a:a + 40]:
            s.op("new", "f", p, "\n").op("fmt", "f", "nm", text(rng, rng.choice([0, 1, 2, 3, 4, 5, 14])), 2, "m.cpp", 3, "fn", 5, *g.time())
        scns.append(s)
    # every flag with every way to give a width, a value shorter, equal and longer than it
    for fl in FLAGS + "Q":
        for side in ("", "-", "="):
            s = Scn("width-%02x-%s" % (ord(fl), side or "l"), dict(tick=0, off=0))
            g = Gen(rng)
            for w in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 23, 24, 25, 40, 63, 64, 65, 66, 1000):
                for cut in ("", "!"):
                    m = list(g.msg())
                    m[1] = text(rng, max(0, w + rng.choice([-2, -1, 0, 1, 2])))
                    m[0] = text(rng, max(0, min(70, w) + rng.choice([-2, -1, 0, 1, 2])))
                    s.op("new", "f", "<%%%s%d%s%s>" % (side, w, cut, fl), "").op("fmt", "f", *m)
            scns.append(s)
    # calendar: days all over the range, edges of months and years, with every part of the date
    days = [d for d in range(-106000, 106751, 97 if not thorough else 7)] + [d for y in (1700, 1800, 1899, 1900, 1901, 1904, 1960, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2038, 2096, 2100, 2104, 2200, 2262) for d in edge_days(y) if d < 106751]
    for a in range(0, len(days), 60):
        s = Scn("cal-%05d" % (a // 60), dict(tick=0, off=0))
        s.op("new", "f", "%a %b %c|%y-%m-%d %H:%M:%S|%T|%E %F %G", "\n").op("new", "g", "%+", "default")
        for d in days[a:a + 60]:
            s.op("fmt", "f", "n", "x", 2, "", 0, "", 1, d * 86400 + rng.randrange(0, 86400), rng.randrange(0, 10**9))
            s.op("fmt", "g", "n", "x", 2, "", 0, "", 1, d * 86400 + rng.randrange(0, 86400), rng.randrange(0, 10**9))
        scns.append(s)
    for k in range(40 if not thorough else 400):
        scns.append(summer(rng, "dst-%05d" % k))
    n = 1500 if not thorough else 20000
    for k in range(n):
        scns.append(one_pattern(rng, "rnd-%05d" % k, [pattern(rng) for _ in range(8)]))
    return vt.conformance(run, "drv_fmt", "FormatterTrace", scns, batch=6000)


def edge_days(y):
    import datetime
    e = datetime.date(1970, 1, 1)
    r = []
    for m in range(1, 13):
        d = (datetime.date(y, m, 1) - e).days
        r += [d - 1, d]
    return r


def fmt_state(rng, sid, n):
    """several formatters, copied and changed and used in turns; custom flags; elapsed times"""
    off = rng.choice([0, 0, 120, -300])
    s = Scn(sid, dict(tick=0, off=off))
    g = Gen(rng, off=off)
    cust = "".join(rng.sample("vWnKQ%^l+9", 4))
    live, cur = [], {}
    for _ in range(n):
        r = rng.random()
        f = rng.choice("abcd")
        if not live or r < 0.12:
            cur[f] = pattern(rng, "WXYZvT+^$", cust if rng.random() < .3 else "", nmax=5)
            s.op("new", f, cur[f], rng.choice(["default", "", "!\n"]))
            live = sorted(set(live) | {f})
        elif r < 0.24:
            g0 = rng.choice(live)
            cur[f] = cur[g0]
            s.op("clone", f, g0)
            live = sorted(set(live) | {f})
        elif r < 0.32:
            f = rng.choice(live)
            cur[f] = pattern(rng, "WXYZvTnl", cust, 6)
            s.op("setpat", f, cur[f])
        elif r < 0.42:
            f = rng.choice(live)
            for _ in range(rng.choice([1, 1, 2])):
                s.op("flag", f, rng.choice(cust), rng.choice(["K", "tag", "longer-tag", ""]) + str(rng.randrange(100)), 1 if rng.random() < 0.12 else 0)
            # (also the pattern it has had: the new flag counts from then on)
            if rng.random() < .65:
                cur[f] = pattern(rng, "WXYZvT", cust, 6)
            s.op("setpat", f, cur[f])
        elif r < 0.5:
            if rng.random() < .2:
                s.op("fork")
            elif rng.random() < .3:
                s.op("clock", rng.choice([-61000000000, -1000000000, -1500000, -1, 1, 1500000, 3600000000000]))
            else:
                s.op("adv", rng.choice([1, 999, 1000, 1000000, 999999999, 1000000000, 61000000000]))
        else:
            s.op("fmt", rng.choice(live), *g.msg())
    return s


def c19_scns(run, n, ops):
    return [fmt_state(run.rng, "state-%05d" % k, ops) for k in range(n)]
