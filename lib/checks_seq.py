"""C07 (ring buffer), C22 (buffered messages): behaviours of the specification replayed in the real classes."""
import vt
from vt import Scn


def ring(run):
    run.build(["drv_seq"])
    run.model("RingMC", "RingMC.cfg" if vt.TIER == "thorough" else "RingSmall.cfg", workers=8)
    scripts = vt.graph_scripts(run, "RingMC", "RingGraph.cfg")
    scripts += vt.sim_scripts(run, "RingMC", "RingSim.cfg", 150 if vt.TIER == "quick" else 3000, 150)
    scns = [Scn("ring-%05d" % k, dict(kind="ring"), [(o["op"], o["b"], o["c"], o["n"]) for o in s]) for k, s in enumerate(scripts)]
    return vt.conformance(run, "drv_seq", "RingTrace", scns, batch=4000)


def msg(run):
    run.build(["drv_seq"])
    scripts = vt.graph_scripts(run, "MsgBufMC", "MsgBufGraph.cfg")
    scripts += vt.sim_scripts(run, "MsgBufMC", "MsgBufSim.cfg", 500 if vt.TIER == "quick" else 4000, 80)
    scripts += vt.sim_scripts(run, "MsgBufMC", "MsgBufSame.cfg", 300 if vt.TIER == "quick" else 3000, 80)
    scns = [Scn("msg-%05d" % k, dict(kind="msg"), [(o["op"], o["b"], o["c"], o["sz"][0], o["sz"][1], o["id"]) for o in s]) for k, s in enumerate(scripts)]
    return vt.conformance(run, "drv_seq", "MsgBufTrace", scns, batch=4000)
