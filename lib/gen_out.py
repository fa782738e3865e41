"""Histories for console sinks (C20) and for threads sharing sinks (C17)."""
from vt import Scn
import checks_fmt as cf

KNOWN = ["ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys", "putty", "rxvt", "screen", "vt100", "xterm", "alacritty", "vt102"]
TERMS = KNOWN + ["xterm-256color", "screen.linux", "my-linux-console", "rxvt-unicode", "gnome-256", "-", "dumb", "", "vt220", "XTERM", "xter", "vt10", "vt1020", "lin ux", "unknown", "conso", "tmux", "emacs", "xterm\t", "-ansi-"]
TXT = "abcdefghijklmnopqrstuvwxyz0123456789 .,;:%\\\"\t[]{}m\x00"
MARKED = ["%^%v%$", "<%^%l%$> %v", "%+", "%v", "%^%+%$", "%$%v%^", "%^%v", "%v%$", "a%^%$b", "%^%l%$ %^%v%$", "%+%^%n%$", "%^%8l%$|%-9v|", "%^%=12!v%$", "%n", "", "%^", "%$", "[%T] %^[%l] %v%$ %n", "%^%v%$%+"]
CODES = ["", "\x1b[31m", "\x1b[1m\x1b[4m", "<color>", "\x1b[38;5;200m", "\x1b[m", "x"]
KINDS = ["out", "err", "cout", "cerr"]


def text(rng, n):
    return "".join(rng.choice(TXT) for _ in range(n))


def env(rng, real=.25):
    def st():
        return "pipe" if rng.random() < .3 else "pty" if rng.random() < real else "tty"
    c = dict(tick=0, out=st(), err=st(), term=rng.choice(TERMS), cterm="-")
    if rng.random() < .15:
        c["cterm"] = rng.choice(["1", "truecolor", "", "0"])
    if rng.random() < .3:
        c["lb"] = 1
    return c


def pat(rng):
    return rng.choice(MARKED) if rng.random() < .7 else cf.pattern(rng, "+nlabcymdHMSEFGTptv^$^$^$@ABC%", nmax=5)


def console(sid, rng, n):
    s = Scn(sid, env(rng))
    hs, lg = {}, []
    for k in range(rng.choice([1, 2, 3, 4])):
        kind = rng.choice(KINDS + ["cout", "cerr"])
        if rng.random() < .6:
            s.op(0, "sink", "s%d" % k, kind, rng.randrange(2))
            hs["s%d" % k] = kind
        else:
            if rng.random() < .15 and "gd" not in hs:
                s.op(0, "fac", "gd", "default", 1)
                hs["gd"] = "cout"
            else:
                s.op(0, "fac", "g%d" % k, kind, rng.randrange(2))
                hs["g%d" % k] = kind
    base = [h for h in sorted(hs) if h[0] == "s"]
    if base and rng.random() < .5:
        s.op(0, "lgr", "m", ",".join(rng.sample(base, rng.randrange(1, len(base) + 1))))
        lg.append("m")
    for _ in range(n):
        r = rng.random()
        h = rng.choice(sorted(hs) + lg)
        if r < .66:
            ln = rng.choice([0, 1, 5, 20, 20, 60, 500]) if rng.random() < .97 else rng.choice([1500, 2500])
            s.op(0, "log", h, rng.randrange(0, 7) if h[0] == "s" else rng.randrange(0, 6), text(rng, ln))
        elif r < .8:
            s.op(0, "fmt", h, pat(rng), rng.choice(["\n", "\n", "", "<end>\n", "\r\n"]))
        elif r < .9:
            s.op(0, "flush", h)
        else:
            c = [x for x in sorted(hs) if hs[x][0] == "c"]
            if c:
                s.op(0, "color", rng.choice(c), rng.randrange(0, 7), rng.choice(CODES))
    for h in sorted(hs):
        s.op(0, "flush", h)
    return s


def shared(sid, rng):
    """threads that log through shared thread-safe sinks while others flush, set patterns and colours"""
    c = dict(tick=0, par=1, seed=rng.randrange(1, 1 << 30), strategy=rng.choice([0, 0, 0, 1, 1, 2, 3, 3]), hunt=rng.choice([5, 20, 60]), sync=rng.choice([10, 30, 50, 70]), mem=rng.choice([30, 100, 300]), cp=rng.choice([2, 3, 5]))
    same = rng.random() < .35
    c.update(out=rng.choice(["tty", "tty", "pipe"]), err=rng.choice(["tty", "pipe"]), term="xterm", cterm="-")
    if same:
        c.update(same=1, lb=1)
    s = Scn(sid, c)
    # the kinds of sinks that share something
    kinds = rng.choice([["file"], ["roll"], ["os"], ["cout", "cerr"], ["out", "cout"], ["cout", "cout"], ["out", "err", "cout", "cerr"], ["err", "cerr"], ["cerr", "cerr", "cout"], ["out", "out"],
                        ["file", "os"], ["roll", "cout"], ["os", "os"], ["file", "roll"]])
    hs = []
    for k, kind in enumerate(kinds):
        h = "s%d" % k
        if kind in KINDS and rng.random() < .3:
            h = "g%d" % k
            s.op(0, "fac", h, kind, 1)
        elif kind == "roll":
            s.op(0, "sink", h, "roll", 1, rng.choice([1, 20, 40, 60, 100]), rng.choice([1000, 10000]))
        else:
            s.op(0, "sinkt" if rng.random() < .2 else "sink", h, kind, 1, *([rng.randrange(2)] if kind == "os" else []))
        hs.append(h)
    base = [h for h in hs if h[0] == "s"]
    use = list(hs)
    if base and rng.random() < .3:
        s.conf["pool"], s.conf["workers"] = rng.choice(["lock", "free", "conc"]), rng.choice([1, 1, 2, 3])
        s.op(0, "alg", "z", ",".join(rng.sample(base, rng.randrange(1, len(base) + 1))))
        use += ["z"] * (1 + len(use))
    for k in range(rng.choice([0, 1, 1, 2])):
        if base:
            s.op(0, "lgr", "m%d" % k, ",".join(rng.sample(base, rng.randrange(1, len(base) + 1))))
            use += ["m%d" % k] * 2
    eols = ["\n"] if same else ["\n", "\n", "", "<end>\n"]
    pats = ["%v", "%^%v%$", "<%^%l%$> %v", "%+", "[%n] %^%v%$ %l", "%l|%v|%v"]
    for h in hs:
        if rng.random() < .7:
            s.op(0, "fmt", h, rng.choice(pats), rng.choice(eols))
    n = rng.choice([2, 2, 3, 4])
    calm = rng.random() < .3
    flushy = kinds[0] in ("roll", "file") and rng.random() < .5
    s.op(0, "start", n)
    for t in range(1, n + 1):
        for k in range(rng.choice([2, 3, 4, 6]) if n < 4 else rng.choice([2, 3])):
            r, h = rng.random(), rng.choice(use)
            if r < .7 or (calm and r < .85):
                s.op(t, "log", h, rng.randrange(0, 6), "%d%s" % (t, chr(97 + k) * rng.choice([0, 1, 3, 9, 30, 60])))
            elif r < .82 or (flushy and r < .93):
                s.op(t, "flush", h)
            elif r < .95:
                s.op(t, "fmt", h, rng.choice(pats), rng.choice(eols))
            else:
                cs = [x for x, kd in zip(hs, kinds) if kd[0] == "c"]
                if cs:
                    s.op(t, "color", rng.choice(cs), rng.randrange(0, 6), rng.choice(["<A>", "<BB>", "\x1b[35m"]))
    s.op(0, "join")
    return s


def rolling(sid, rng):
    """threads that log through a rolling sink that opens a new file with nearly every record, while others flush it"""
    c = dict(tick=0, par=1, seed=rng.randrange(1, 1 << 30), strategy=rng.choice([0, 0, 0, 1, 3]), hunt=rng.choice([5, 20, 60]), sync=rng.choice([50, 70, 90]), mem=rng.choice([30, 100, 300]), cp=rng.choice([2, 3, 5]),
             out="tty", err="tty", term="xterm", cterm="-")
    s = Scn(sid, c)
    s.op(0, "sink", "s0", "roll", 1, rng.choice([1, 1, 1, 10]), 1000)
    use = ["s0"]
    if rng.random() < .3:
        s.op(0, "lgr", "m0", "s0")
        use = ["s0", "m0"]
    s.op(0, "fmt", "s0", rng.choice(["%v", "%l|%v"]), "\n")
    n = rng.choice([2, 2, 2, 3])
    s.op(0, "start", n)
    for t in range(1, n + 1):
        for k in range(rng.choice([4, 6, 8])):
            if t == 1 and rng.random() < .9 or rng.random() < .1:
                s.op(t, "flush", rng.choice(use))
            else:
                s.op(t, "log", rng.choice(use), rng.randrange(0, 6), "%d%s" % (t, chr(97 + k) * rng.choice([0, 1, 3, 9])))
    s.op(0, "join")
    return s
