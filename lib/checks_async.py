import vt
import gen_async as g


def mk(run, plan):
    """plan: [(function, kwargs, count)]"""
    out = []
    k = 0
    for fn, kw, n in plan:
        for _ in range(n):
            k += 1
            out.append(fn("%s-%05d" % (run.prop, k), run.rng, **kw))
    run.rng.shuffle(out)
    return out


PLANS = {
    "C01": [(g.general, {}, 300), (g.general, dict(multi=True), 120), (g.general, dict(forget=True), 60),
            (g.shutdown, {}, 250), (g.general, dict(drop_early=1.0), 120), (g.producers, {}, 40), (g.threads_come_and_go, {}, 40), (g.held, {}, 100), (g.bulk, {}, 12)],
    "C02": [(g.general, dict(w=1, nthr=2, msgs=30), 150), (g.general, dict(w=1, ty="lock"), 200), (g.general, dict(w=1, ty="free"), 150),
            (g.general, dict(ty="conc"), 300), (g.shutdown, {}, 100), (g.threads_come_and_go, {}, 60), (g.producers, {}, 40), (g.held, dict(flush=0), 100), (g.held, dict(ty="conc", w=2, flush=.1), 60), (g.bulk, {}, 8), (g.bulk, dict(ty="conc"), 4)],
    "C03": [(g.general, dict(flush_heavy=True), 500), (g.general, dict(flush_heavy=True, ty="conc"), 150),
            (g.general, dict(flush_heavy=True, w=1, q=1), 120), (g.general, dict(flush_heavy=True, drop_early=1.0), 120), (g.producers, {}, 40), (g.held, dict(flush=.4), 150)],
    "C04": [(g.backpressure, {}, 400), (g.backpressure, dict(ty="lock"), 150), (g.backpressure, dict(ty="free"), 150), (g.producers, {}, 120),
            (g.general, dict(q=1), 150), (g.held, {}, 150), (g.bulk, {}, 8)],
    "C05": [(g.lifecycle, {}, 600), (g.general, dict(multi=True, drop_early=.5), 150), (g.shutdown, {}, 80), (g.threads_come_and_go, {}, 80), (g.bulk, {}, 8), (g.biggest, {}, 2)],
}
SCALE = 3 if vt.TIER == "quick" else 30


# design models: the pools' queues, tokens and shutdown, every step of which is a step of the contract
DESIGN = {"C01": ["Pool_freeq", "-Pool_neg"], "C02": ["Pool_concq"], "C03": ["Pool_lock1"], "C04": ["Pool_lockq"], "C05": ["Pool_freeq", "Pool_concq"]}
DEEP = {"C01": ["Pool_free2"], "C02": ["Pool_lock2"], "C03": ["Pool_free1"], "C04": ["Pool_free1"], "C05": ["Pool_conc2"]}


def check(prop):
    def fn(run):
        run.build(["drv_async"])
        for c in DESIGN[prop] + (DEEP[prop] if vt.TIER == "thorough" else []):
            if c[0] == "-":
                run.control("PoolImpl", c[1:] + ".cfg", "Invariant NotBad", workers=8)
            else:
                run.model("PoolImpl", c + ".cfg", workers=8)
        scns = mk(run, [(f, k, n * SCALE) for f, k, n in PLANS[prop]])
        v = vt.conformance(run, "drv_async", "AsyncTrace", scns, batch=4000, deadline=600)
        if not v:       # the library built without thread-local storage
            run.build(["drv_async"], tls=False)
            scns = mk(run, [(f, k, max(8, n * SCALE // 6)) for f, k, n in PLANS[prop]])
            v = vt.conformance(run, "drv_async", "AsyncTrace", scns, batch=4000, tag="notls", deadline=700)
        return v
    return fn
