"""Properties of loggers: C08 (backtrace), C09 (filtering and fan-out), C10 (failures), C19 (formatters), C21 (copies)."""
import vt
import gen_logger as g
import gen_async as ga
import checks_fmt
from vt import Scn

SCALE = 1 if vt.TIER == "quick" else 10
CSCALE = 3 * SCALE


def mk(run, prop, n, ln):
    out = []
    for k in range(n * SCALE):
        pool = ["", "", "lock", "free", "conc"][k % 5]
        out.append(g.seq("%s-%05d" % (prop, k), run.rng, prop, ln, pool))
    return out


def graph(run, prop):
    """every transition of the small logger of LoggerMC, replayed in real loggers of every kind"""
    out = []
    for k, sc in enumerate(vt.graph_scripts(run, "LoggerMC", "LoggerGraph.cfg")):
        pool = ["", "lock", "", "free", "", "conc"][k % 6] if vt.TIER == "quick" else None
        for p in ([pool] if pool is not None else ["", "lock", "free", "conc"]):
            s = Scn("%s-graph-%05d%s" % (prop, k, p), dict(tick=0, seed=1 + k, strategy=2, off=0), cfg=dict(seq=True, reg=False))
            if p:
                s.conf["pool"] = p
            s.op(0, "sink", "s0", "raw", 0).op(0, "sink", "s1", "raw", 0).op(0, "new", "L1", "one", 1 if p else 0, "s0,s1")
            for o in sc:
                if o["op"] == "log":
                    s.op(0, "log", "L1", [0, 1, 3, 7][k % 4], o["n"], "m%d" % o["n"], "f.cpp", 3, "fn", 0, 0)
                elif o["op"] in ("lv", "fl", "enable"):
                    s.op(0, o["op"], "L1", o["n"])
                elif o["op"] == "slv":
                    s.op(0, "slv", "s1", o["n"])
                else:
                    s.op(0, o["op"], "L1")
            out.append(s)
    return out


def bt_conc(sid, rng):
    """threads that log, dump, enable and disable the same silent logger"""
    s = Scn(sid, dict(tick=0, seed=rng.randrange(1, 10**9), strategy=rng.choice([0, 0, 1, 3, 3]), hunt=rng.choice([5, 20, 60]), mem=rng.choice([5, 10, 40, 150]), sync=rng.choice([10, 40, 80]), cp=rng.choice([2, 3, 5])))
    s.op(0, "sink", "s0", "raw", 0).op(0, "new", "L1", "one", 0, "s0").op(0, "lv", "L1", 6)
    if rng.random() < .8:
        s.op(0, "enable", "L1", rng.choice([1, 2, 3, 5]))
    for _ in range(rng.choice([0, 0, 3])):
        s.op(0, "log", "L1", 0, 1, "start%d" % rng.randrange(1000), "f", 1, "g", 0, 0)
    nthr = rng.choice([2, 2, 3])
    k = 0
    for t in range(1, nthr + 1):
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            k += 1
            if r < .6:
                s.op(t, "log", "L1", rng.choice([0, 1, 3, 4]), rng.randrange(0, 6), "m%d-%s" % (k, "x" * rng.choice([0, 10, 200, 260])), "f", 1, "g", 0, 0)
            elif r < .85:
                s.op(t, "dump", "L1")
            elif r < .95:
                s.op(t, "enable", "L1", rng.choice([0, 1, 2, 3]))
            else:
                s.op(t, "disable", "L1")
    s.op(0, "start", nthr).op(0, "join").op(0, "dump", "L1").op(0, "dump", "L1")
    return s


def bt_first(sid, rng):
    """backtrace is enabled for the first time by threads while others log"""
    s = Scn(sid, dict(tick=0, seed=rng.randrange(1, 10**9), strategy=rng.choice([0, 3, 3]), hunt=rng.choice([20, 60]), mem=rng.choice([5, 5, 10]), sync=rng.choice([10, 40]), cp=5))
    s.op(0, "sink", "s0", "raw", 0).op(0, "new", "L1", "one", 0, "s0").op(0, "lv", "L1", 6)
    k = 0
    for t in range(1, 4):
        if t == 1 or rng.random() < .5:
            s.op(t, "enable", "L1", rng.choice([1, 2, 3]))
        for _ in range(rng.choice([1, 2, 3])):
            k += 1
            s.op(t, "log", "L1", rng.choice([0, 1, 3, 4]), 1, "m%d" % k, "f", 1, "g", 0, 0)
    s.op(0, "start", 3).op(0, "join").op(0, "dump", "L1").op(0, "dump", "L1")
    return s


def c08(run):
    run.build(["drv_logger"])
    v = vt.conformance(run, "drv_logger", "LoggerTrace", graph(run, "C08"), batch=4000, tag="graph", deadline=600)
    if not v:
        v = vt.conformance(run, "drv_logger", "LoggerTrace", mk(run, "C08", 400, 60), batch=4000, tag="seq", deadline=600)
    if not v:
        v = vt.conformance(run, "drv_logger", "BacktraceTrace", [bt_conc("C08c-%05d" % k, run.rng) for k in range(600 * CSCALE)]
                           + [bt_first("C08f-%05d" % k, run.rng) for k in range(100 * CSCALE)], batch=4000, tag="conc", deadline=600)
    return v


def c09(run):
    run.build(["drv_logger"])
    v = vt.conformance(run, "drv_logger", "LoggerTrace", graph(run, "C09"), batch=4000, tag="graph", deadline=600)
    if not v:
        v = vt.conformance(run, "drv_logger", "LoggerTrace", mk(run, "C09", 500, 60), batch=4000, tag="seq", deadline=600)
    return v


def logger(prop, n=400, ln=60):
    def fn(run):
        run.build(["drv_logger"])
        return vt.conformance(run, "drv_logger", "LoggerTrace", mk(run, prop, n, ln), batch=4000, deadline=600)
    return fn


def c10(run):
    run.build(["drv_logger"])
    v = vt.conformance(run, "drv_logger", "LoggerTrace", mk(run, "C10", 250, 60), batch=4000, tag="seq", deadline=600)
    if not v:
        run.build(["drv_logger", "drv_async"], asserts=True)        # a debug build: assertions are errors too
        v = vt.conformance(run, "drv_logger", "LoggerTrace", [g.conc("C10c-%05d" % k, run.rng, "C10") for k in range(300 * CSCALE)], batch=4000, tag="conc", deadline=600)
    if not v:
        v = vt.conformance(run, "drv_logger", "LoggerTrace", mk(run, "C10", 60, 20), batch=4000, tag="seqdbg", deadline=600)
    if not v:
        sc = [ga.general("C10a-%05d" % k, run.rng, fails=True, drop_early=.3) for k in range(400 * SCALE)]
        v = vt.conformance(run, "drv_async", "AsyncTrace", sc, batch=4000, tag="async", deadline=600)
    return v


def c19(run):
    run.build(["drv_fmt", "drv_logger"])
    v = vt.conformance(run, "drv_fmt", "FormatterTrace", checks_fmt.c19_scns(run, 600 * SCALE, 60), batch=4000, tag="formatters", deadline=600)
    if not v:
        v = vt.conformance(run, "drv_logger", "LoggerTrace", mk(run, "C19", 300, 60), batch=4000, tag="loggers", deadline=600)
    return v


import gen_registry as gr


def reg_graph(run, prop, cfg):
    out = []
    for k, sc in enumerate(vt.graph_scripts(run, "RegistryMC", cfg)):
        s = Scn("%s-%s-%05d" % (prop, cfg[:-4], k), {"tick": 0, "seed": 1, "strategy": 2, "async": 1}, cfg=dict(seq=True, reg=True))
        s.op(0, "rstart").op(0, "sink", "s0", "raw", 0).op(0, "new", "H1", "alpha", 0, "s0")
        if "names" in cfg:
            s.op(0, "new", "H2", "alpha", 0, "s0").op(0, "new", "H3", "beta", 1, "s0")
        else:
            s.op(0, "new", "H2", "beta", 0, "s0")
        for o in sc:
            if o["op"] in ("rreg", "rinit", "rdef"):
                s.op(0, o["op"], o["h"])
            elif o["op"] == "rrem":
                s.op(0, o["op"], o["nm"])
            elif o["op"] in ("rauto", "rglv", "rgfl"):
                s.op(0, o["op"], o["n"])
            elif o["op"] in ("rlv", "rfl"):
                s.op(0, o["op"], o["nm"], o["n"])
            elif o["op"] == "rpool":
                s.op(0, o["op"], ["lock", "free", "conc"][k % 3], 4, o["n"], 0)
            else:
                s.op(0, o["op"])
        out.append(s)
    return out


GRAPHS = {"C11": ["names"], "C12": ["levels", "flush"], "C13": ["names"]}


def registry(prop, n=300, ln=60, nlin=600):
    def fn(run):
        run.build(["drv_logger"])
        sc = []
        for g in GRAPHS[prop] + (["settings"] if vt.TIER != "quick" and prop == "C12" else []):
            sc += reg_graph(run, prop, "Registry_%s.cfg" % g)
        v = vt.conformance(run, "drv_logger", "LoggerTrace", sc, batch=4000, tag="graph", deadline=600)
        if not v:
            v = vt.conformance(run, "drv_logger", "LoggerTrace", [gr.seq("%s-%05d" % (prop, k), run.rng, prop, ln) for k in range(n * SCALE)], batch=4000, tag="seq", deadline=600)
        if not v and nlin:
            v = vt.conformance(run, "drv_logger", "RegistryLin", [gr.lin("%sc-%05d" % (prop, k), run.rng, prop) for k in range(nlin * CSCALE)], batch=4000, tag="conc", deadline=600)
        return v
    return fn
