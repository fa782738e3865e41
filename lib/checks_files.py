"""C15 (rolling files), C16 (file sinks): recorded runs against Files."""
import vt, gen_files as g
from vt import Scn

SCALE = 1 if vt.TIER == "quick" else 10


def graph(run, prop, kind):
    """every transition of the small worlds of FilesMC, replayed in the real sinks"""
    out = []
    cfg = "Files_%s%s.cfg" % (kind, "" if vt.TIER == "quick" else "_deep")
    for k, sc in enumerate(vt.graph_scripts(run, "FilesMC", cfg, timeout=900)):
        s = Scn("%s-graph-%05d" % (prop, k), dict(tick=0, see=1))
        for o in sc:
            if o["op"] == "open":
                s.op("open", "h", kind, ["sink", "factory"][k % 2], o["path"], 1 if o["trunc"] else 0, o["max"], o["num"], k // 2 % 2).op("fmt", "h", "%v", "")
            elif o["op"] == "log":
                s.op("log", "h", 2, o["txt"])
            elif o["op"] in ("flush", "drop"):
                s.op(o["op"], "h")
            elif o["op"] in ("mkdir", "rm"):
                s.op(o["op"], o["p"])
            elif o["op"] == "write":
                s.op("write", o["p"], o["txt"])
            elif o["op"] == "mv":
                s.op("mv", o["p"], o["q"])
        out.append(s)
    return out


def c16(run):
    run.build(["drv_file"])
    sc = graph(run, "C16", "file") + [g.files("C16-%05d" % k, run.rng, 40) for k in range(800 * SCALE)]
    return vt.conformance(run, "drv_file", "FilesTrace", sc, batch=2000, deadline=600)


def c15(run):
    run.build(["drv_file"])
    sc = graph(run, "C15", "roll") + [g.rolling("C15-%05d" % k, run.rng, 50) for k in range(1000 * SCALE)]
    return vt.conformance(run, "drv_file", "FilesTrace", sc, batch=2000, deadline=600)
