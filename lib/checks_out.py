"""C17 (records of concurrent threads), C20 (console output and colouring)."""
import vt, gen_out as g
from vt import Scn

SCALE = 1 if vt.TIER == "quick" else 10
ENVS = [dict(out=o, err=e, term=t, cterm=c) for o, e, t, c in
        [("pipe", "pipe", "xterm", "1"), ("tty", "tty", "xterm-256color", "-"), ("tty", "pipe", "linux", "-"), ("pipe", "tty", "screen", "-"), ("tty", "tty", "dumb", "-"), ("tty", "tty", "-", "1"), ("pty", "pty", "vt100", "-")]]


def graph(run):
    out = []
    for k, sc in enumerate(vt.graph_scripts(run, "ConsoleMC", "Console_small.cfg" if vt.TIER == "quick" else "Console_deep.cfg", timeout=900)):
        for n, e in enumerate(ENVS):
            s = Scn("C20-graph-%04d-%d" % (k, n), dict(tick=0, **e))
            mt = (k + n) % 2
            s.op(0, "sink", "a", "out", mt).op(0, "sink", "b", "cout", mt).op(0, "sink", "c", "cerr", mt).op(0, "lgr", "abc", "a,b,c").op(0, "lgr", "bc", "b,c")
            for o in sc:
                h = "".join(o["hs"])
                if o["op"] == "log":
                    s.op(0, "log", h, o["lv"], "x%d" % (k % 7))
                elif o["op"] == "fmt":
                    s.op(0, "fmt", h, o["pat"], "\n")
                elif o["op"] == "flush":
                    s.op(0, "flush", h)
                elif o["op"] == "color":
                    s.op(0, "color", h, o["lv"], "<C>" if k % 2 else "\x1b[35m")
            out.append(s)
    return out


def c20(run):
    run.build(["drv_out"])
    # every known and unknown terminal type, on pretended terminals
    sc = []
    for t in sorted(set(g.TERMS)):
        for c in ("-", "", "1"):
            s = Scn("C20-term-%s-%s" % (t.encode().hex(), c), dict(tick=0, out="tty", err="pipe" if c else "tty", term=t, cterm=c))
            s.op(0, "sink", "a", "cout", 1).op(0, "sink", "b", "cerr", 0).op(0, "log", "a", 2, "x").op(0, "log", "b", 3, "y").op(0, "flush", "a").op(0, "flush", "b")
            sc.append(s)
    sc += graph(run)
    sc += [g.console("C20-%05d" % k, run.rng, 40) for k in range(1200 * SCALE)]
    return vt.conformance(run, "drv_out", "ConsoleTrace", sc, batch=2500, deadline=600)


def c17(run):
    run.build(["drv_out"])
    sc = [g.shared("C17-%05d" % k, run.rng) for k in range(2600 * SCALE)]
    sc += [g.rolling("C17-roll-%05d" % k, run.rng) for k in range(1000 * SCALE)]
    return vt.conformance(run, "drv_out", "OutputTrace", sc, batch=3000, deadline=600)
