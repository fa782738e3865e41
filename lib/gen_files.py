"""Histories for file sinks (C16) and rolling file sinks (C15)."""
from vt import Scn

PATHS = ["a.log", "./b.log", "d/c.log", "d/e/f/g.log", "d//e///h.log", "@/i.log", "@/p/q/r.log", "noext", ".hidden", "d.ir/x", "d.ir/.y", "sp ace/na me.log", "new/../z.log", "./d/./e/.././k.log",
         "a.tar.gz", "tail.", "%41%n.log", "n" * 250, "d/" + "m" * 255, "e" * 200 + "/" + "e" * 200 + "/f"]
BAD = ["", "d/", "@/", ".", "..x/", "x" * 256, "y" * 256 + "/f", "d/e/"]
PATTERNS = ["%v", "%+", "[%n] %l %v", "%5!v|%-8l|", "", "%v%v%v", "%l"]
EOLS = ["\n", "\n", "", "\r\n", "<end>\n"]
TXT = "abcdefghijklmnopqrstuvwxyz0123456789 .,;:%\\\"\t\x00"


def text(rng, n):
    return "".join(rng.choice(TXT) for _ in range(n))


def size(rng, lim):
    return rng.choice([0, 1, 2, 3, 5, 8, 13, 20, lim // 3, lim // 2, max(0, lim - 2), max(0, lim - 1), lim, lim + 1, lim * 2, rng.randrange(0, lim + 2)])


class World:
    """what the generator has to know of the tree: the paths others may touch"""
    def __init__(self, rng, sid, see):
        self.rng, self.s, self.see = rng, Scn(sid, dict(tick=0, see=1 if see else 0)), see
        self.dirs, self.files, self.snk, self.n, self.full = [], [], {}, 0, {}

    def fault(self, fns):
        rng = self.rng
        fn = rng.choice(fns)
        n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 9]) if fn in ("open", "fdopen", "mkdir") else 1
        skip = rng.choice([0, 0, 1]) if fn == "open" and n <= 3 else 0
        self.s.op("fault", fn, n, skip, rng.choice([0, 1, 3, 1000]) if fn == "fwrite" else 0, rng.choice([28, 5, 13, 24, 2]))


def canon(p):
    out = []
    for c in p.split("/"):
        if c in ("", ".", "@"):
            continue
        if c == "..":
            out.pop()
        else:
            out.append(c)
    return "/".join(out)


def files(sid, rng, n, faults=.15, kill=True):
    """file sinks: open, log, flush, drop, faults, other writers, kill"""
    big = rng.random() < .12
    w = World(rng, sid, not big)
    n = n // 2 if big else n
    s, faulty, killed, moved = w.s, rng.random() < .5, False, 0
    paths = rng.sample(PATHS, rng.choice([1, 2, 3]))
    for p in paths:             # things that are there already
        c = canon(p)
        if rng.random() < .4 and "/" not in c and ".." not in p:
            s.op("write", c, text(rng, rng.choice([0, 1, 17, 300])))
            w.files.append(c)
    if rng.random() < .2:
        s.op("mkdir", "d")
    if rng.random() < .1:
        s.op("write", "d.ir" if rng.random() < .5 else "p", "in the way")
    # handle -> [path given, where its file is now (None: not known, or gone), truncating, shared with another sink]
    k = 0
    while k < n:
        k += 1
        r = rng.random()
        if not w.snk or r < .08:
            h = "h%d" % rng.randrange(0, 6)
            if h in w.snk:
                continue
            p = rng.choice(paths) if rng.random() < .82 else rng.choice(BAD + ["a.log/x.log", paths[0] + "/under"])
            if rng.random() < .03:
                p = "@full"
            c = canon(p) if p != "@full" else p
            tr = rng.random() < .3 and p != "@full"
            # one path has one sink at a time, or sinks that append and flush each record
            same = [v for v in w.snk.values() if v[1] == c]
            if same and (big or c == "@full"):
                continue
            if same:
                for v in same:
                    v[3] = True
                for x in sorted(w.snk):
                    if w.snk[x][1] == c:
                        s.op("flush", x)
            if faulty and rng.random() < .5:
                w.fault(["open", "open", "fdopen", "mkdir"])
            s.op("open", h, "file", rng.choice(["sink", "factory"]), p, 1 if tr else 0, 0, 0, rng.randrange(2))
            w.snk[h] = [p, c, tr, bool(same)]
            s.op("ls") if not w.see else None
            continue
        h = rng.choice(sorted(w.snk))
        if faulty and not w.snk[h][3] and rng.random() < faults:
            w.fault(["fflush", "fclose", "fwrite"])
        if r < .62:
            full = w.snk[h][0] == "@full"
            ln = rng.choice([0, 1, 10, 40]) if full or not big else rng.choice([10, 900, 3000, 4096, 4095, 5000, 9000])
            s.op("log", h, rng.randrange(0, 6), text(rng, ln))
            if w.snk[h][3]:
                s.op("flush", h)
        elif r < .72:
            s.op("flush", h)
            if not w.see:
                s.op("ls")
        elif r < .77:
            s.op("fmt", h, rng.choice(PATTERNS), rng.choice(EOLS))
        elif r < .84:
            s.op("drop", h)
            del w.snk[h]
        elif r < .88 and w.see and w.snk[h][0] in PATHS and w.snk[h][1]:
            # someone else removes, renames or appends to the file being written
            c, act = w.snk[h][1], rng.choice(["rm", "mv", "write", "write"])
            if act == "write":
                if len(c) > 240:
                    continue
                for x in sorted(w.snk):
                    if w.snk[x][1] == c:
                        s.op("flush", x)
                s.op("write", c, text(rng, rng.choice([0, 1, 30])))
                continue
            moved += 1
            new = "moved_%d" % moved
            s.op("rm", c) if act == "rm" else s.op("mv", c, new)
            for x in w.snk.values():
                if x[1] == c:
                    x[1] = new if act == "mv" else None
        elif r < .9:
            s.op("ls")
        elif kill and r < .915:
            if rng.random() < .5:
                s.op("die", rng.choice([1, 1, 1, 2, 3]))
                s.op(rng.choice(["log", "flush", "drop"]), h, 2, text(rng, rng.choice([3, 30, 5000 if big else 10])))
            s.op("kill")
            killed = True
            break
    # operations on handles whose opening failed are left out: the driver skips them
    if not killed:
        for h in sorted(w.snk):
            s.op("drop", h)
        s.op("ls")
    return s


def roll_name(base, i, num):
    d, f = base[:base.rfind("/") + 1], base[base.rfind("/") + 1:]
    k = f.rfind(".")
    stem, ext = (f, "") if k <= 0 else (f[:k], f[k:])
    return "%s%s_%0*d%s" % (d, stem, len(str(num)), i, ext)


RPATHS = ["a.log", "./b.log", "d/c.log", "d/e/f/g.log", "d//e///h.log", "@/i.log", "@/p/q/r.log", "noext", ".hidden", "d.ir/x", "d.ir/.y", "d.i.r/x.y.z", "sp ace/na me.log", "new/../z.log",
          "./d/./e/.././k.log", "a.tar.gz", "tail.", "%41%n.log", "a_1.log", "a_1", "1.2", "..x", "d/..y", "n" * 240 + ".log", "9.log"]


def rolling(sid, rng, n, faults=.12, kill=True):
    """rolling sinks: message sizes around the limit, files that are there already, faults, others, kill"""
    big = rng.random() < .06
    w = World(rng, sid, not big)
    n = n // 2 if big else n
    s, faulty, killed, moved = w.s, rng.random() < .45, False, 0
    bases = rng.sample(RPATHS, rng.choice([1, 1, 1, 2]))
    nums = [rng.choice([0, 1, 2, 3, 3, 4, 5, 9, 10, 11, 12, 100, 9999, 10000]) for _ in bases]
    lims = [rng.choice([3000, 4096, 9000]) if big else rng.choice([1, 2, 5, 10, 10, 20, 50, 200]) for _ in bases]
    dirs = set()

    def parents(c):
        for k, x in enumerate(c.split("/")[:-1]):
            d = "/".join(c.split("/")[:k + 1])
            if d not in dirs:
                s.op("mkdir", d)
                dirs.add(d)
    for b, num in zip(bases, nums):          # things that are there already
        if rng.random() < .5 and ".." not in b.split("/"):
            for i in range(0, max(1, min(num, 14)) + 2):
                if rng.random() < rng.choice([.1, .5, .9]):
                    c = canon(roll_name(b, i, num))
                    parents(c)
                    if rng.random() < .12:
                        s.op("mkdir", c)
                    else:
                        s.op("write", c, text(rng, rng.choice([0, 3, 17])))
            if rng.random() < .3:
                s.op("write", canon(b), "the base name itself")
    if rng.random() < .05:
        s.op("write", rng.choice(["d", "d.ir", "p"]), "in the way")
    # handle -> index of its base
    k = 0
    while k < n:
        k += 1
        r = rng.random()
        if not w.snk or r < .05:
            h = "h%d" % rng.randrange(0, 4)
            j = rng.randrange(len(bases))
            if h in w.snk or j in w.snk.values():
                continue
            q = rng.random()
            mx, num, p = lims[j], nums[j], bases[j]
            if q < .05:
                mx = 0
            elif q < .1:
                num = rng.choice([10001, 10001, 20000, 4294967296])
            elif q < .12:
                mx = rng.choice([4294967295, 4294967296, 18446744073709551615])
            elif q < .15:
                p = rng.choice(["", "d/", "x" * 256, "y" * 250 + ".log"])
            elif q < .26:
                num = rng.choice([0, 1, 2, 3, 10])
            if faulty and rng.random() < .3:
                w.fault(["open", "open", "fdopen", "mkdir"])
            s.op("open", h, "roll", rng.choice(["sink", "factory"]), p, 0, mx, num, rng.randrange(2))
            if q >= .15 or .1 <= q < .12:
                w.snk[h] = j
            elif q >= .12:
                s.op("drop", h)
            if rng.random() < .9:
                s.op("fmt", h, rng.choice(["%v", "%v", "%v", "%l|%v", "%v%v", ""]), rng.choice(["", "\n", "\n", "<end>\n"]))
            s.op("ls") if not w.see else None
            continue
        h = rng.choice(sorted(w.snk))
        j = w.snk[h]
        if faulty and rng.random() < faults:
            if rng.random() < .5:
                w.fault(["open", "open", "fdopen"])
            else:
                fn = rng.choice(["fflush", "fclose", "fwrite"])
                s.op("fault", fn, 1, 0, 0, rng.choice([28, 5, 13]))
        if r < .72:
            s.op("log", h, rng.randrange(0, 6), text(rng, size(rng, lims[j])))
        elif r < .8:
            s.op("flush", h)
            if not w.see:
                s.op("ls")
        elif r < .83:
            s.op("fmt", h, rng.choice(["%v", "%v", "%+", "%l|%v", "%v%v", ""]), rng.choice(["", "\n", "\n", "<end>\n"]))
        elif r < .88:
            s.op("drop", h)
            del w.snk[h]
        elif r < .93 and ".." not in bases[j].split("/") and "@" not in bases[j]:
            # someone else makes, removes or renames one of the numbered files
            c = canon(roll_name(bases[j], rng.randrange(0, max(1, min(nums[j], 14)) + 2), nums[j]))
            act = rng.choice(["rm", "mv", "mk", "mk"])
            if act == "mk":
                if "/" in c:
                    parents(c)
                s.op("make", c, text(rng, rng.choice([0, 3, 30])))
            elif act == "rm":
                s.op("rm", c)
            else:
                moved += 1
                s.op("mv", c, "moved_%d" % moved)
        elif r < .95:
            s.op("ls")
        elif kill and r < .965:
            if rng.random() < .6:
                s.op("die", rng.choice([1, 1, 2, 2, 3, 4, 5]))
                s.op(rng.choice(["log", "log", "log", "flush", "drop"]), h, 2, text(rng, size(rng, lims[j])))
            s.op("kill")
            killed = True
            break
    if not killed:
        for h in sorted(w.snk):
            s.op("drop", h)
        s.op("ls")
    return s
