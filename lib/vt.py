"""Shared machinery of the checks: build the drivers from /repo, run scenarios in them, have TLC
validate the recorded traces against the TLA+ specifications, run design-level model checks, and
write evidence. The specifications are the only oracle; nothing here judges behaviour."""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
NCPU = int(os.environ.get("VT_JOBS", "8"))
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = [p for p in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar") if os.path.exists(p)]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class CheckError(Exception):
    """The check itself did not work (neither pass nor violation)."""


class TimeUp(CheckError):
    """TLC did not get through in the time or memory it was given."""


def pct(s):
    return "".join(c if c.isalnum() or c in "_.-/:,+#" else "".join("%%%02X" % b for b in c.encode("latin-1")) for c in str(s))


class Scn:
    """One scenario: driver configuration (C), operations (O) and what the specification is told (cfg)."""
    def __init__(self, sid, conf=None, ops=None, cfg=None, tag=""):
        self.id, self.conf, self.ops, self.cfg, self.tag = sid, dict(conf or {}), list(ops or []), dict(cfg or {}), tag

    def op(self, *toks):
        self.ops.append(toks)
        return self

    def text(self):
        out = ["S " + self.id]
        out += ["C %s %s" % (k, pct(v)) for k, v in self.conf.items()]
        out += ["O " + " ".join(pct(t) for t in o) for o in self.ops]
        out.append("E")
        return "\n".join(out) + "\n"


class Run:
    """One check run: a working directory outside /verif, removed at the end."""
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.dir = tempfile.mkdtemp(prefix="vt_%s_" % prop, dir=os.environ.get("VT_TMP", "/tmp"))
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.states = self.transitions = self.validated = self.executions = 0
        self.samples, self.notes, self.design = [], {}, []
        self.built = None

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def build(self, drivers, mk="build.mk", tls=True, asserts=False):
        b = os.path.join(self.dir, ("b" if tls else "b_notls") + ("_dbg" if asserts else ""))
        os.makedirs(b, exist_ok=True)
        cmd = ["make", "-j%d" % NCPU, "-f", os.path.join(ROOT, "harness", mk), "R=" + REPO, "B=" + b, "DRV=" + " ".join(drivers)] + ([] if tls else ["TLS="]) + (["NDEBUG="] if asserts else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
        self.built = b
        self.log("built", *drivers)

    # -------------------------------------------------------------- execution
    def execute(self, driver, scns, tag="s", timeout=600):
        """Runs the scenarios; returns the traces [{id, rc, ev}] in scenario order."""
        f = os.path.join(self.dir, "%s_%s.scn" % (driver, tag))
        o = os.path.join(self.dir, "%s_%s.out" % (driver, tag))
        with open(f, "w") as h:
            for s in scns:
                h.write(s.text())
        env = dict(os.environ, TZ="UTC")
        env.update(getattr(self, "env", {}))
        p = subprocess.Popen([os.path.join(self.built, driver), f, o, str(NCPU)], env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            raise CheckError("driver %s: time ran out" % driver)
        if p.returncode:
            raise CheckError("driver %s failed (%s): %s" % (driver, p.returncode, out[-2000:].decode("latin-1")))
        res = {}
        for l in open(o, encoding="utf-8", errors="replace"):
            try:
                t = json.loads(l)
            except ValueError:                        # a run that broke while it was writing its record
                m = re.search(r'"id": *"([^"]*)"', l)
                if not m:
                    continue
                t = {"id": m.group(1), "rc": -1, "ev": [{"e": "garbled", "t": 0}]}
            if len(t["ev"]) > 4000:
                t["ev"] = t["ev"][:3000] + [{"e": "endless", "t": 0}]
            res[t["id"]] = t
        miss = [s.id for s in scns if s.id not in res]
        if miss:
            raise CheckError("driver %s: no result for %s" % (driver, miss[:5]))
        self.executions += len(scns)
        return [res[s.id] for s in scns]

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=1, heap="2g", timeout=900, tag=""):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + md, "-cp", ":".join([JAR] + CM), "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TimeUp("TLC on %s: time ran out" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        if r.returncode and re.search(r"OutOfMemoryError|GC overhead limit|Java heap space", r.stdout):
            raise TimeUp("TLC on %s: memory ran out" % module)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        return r.returncode, r.stdout, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def validate(self, module, traces, cfg=None, limit=float(os.environ.get("VT_LIMIT", 240)) if TIER == "quick" else 900, total=540 if TIER == "quick" else 3000):
        """traces: list of dicts with id, cfg, ev. Returns the rejected ones: [(trace, first unexplained event)].
        When TLC does not get through a set of traces (a run that the specification does not explain can be
        costly to reject), the set is halved, so that the rest is decided; without any rejection, undecided
        traces are an error."""
        if not traces:
            return []
        n = max(1, min(NCPU, (len(traces) + 19) // 20))
        weight = sorted(range(len(traces)), key=lambda k: -len(traces[k]["ev"]))
        work = collections.deque((weight[k::n], limit) for k in range(n))
        bad, undecided, end = [], [], time.time() + total
        lock, busy = threading.Condition(), [0]

        def one(todo, lim):
            res = []
            for attempt in range(6):
                if not todo:
                    break
                f = os.path.join(self.dir, "tr_%s_%d_%d.ndjson" % (module, todo[0], len(todo)))
                with open(f, "w") as h:
                    for j in todo:
                        t = traces[j]
                        h.write(json.dumps({"id": t["id"], "cfg": t["cfg"], "ev": t["ev"]}) + "\n")
                try:
                    rc, out, _ = self.tlc(module, cfg, env={"VT_TRACES": f}, heap="2500m", timeout=max(5, min(lim, end - time.time())))
                except TimeUp as e:
                    return res, todo, str(e)
                finally:
                    os.unlink(f)
                m = re.search(r'<<\s*"VT",\s*(\d+),\s*"(.*)"\s*>>', out)
                if m and rc == 0 and int(m.group(1)) == len(todo):
                    rej = json.loads(m.group(2).encode().decode("unicode_escape"))
                    if isinstance(rej, list):
                        rej = {str(a + 1): v for a, v in enumerate(rej)}
                    return res + [(traces[todo[int(a) - 1]], v) for a, v in rej.items()], [], ""
                # an invariant or an evaluation failed in a state of one trace: the specification does not
                # explain that trace; go on without it
                tr, pos = re.findall(r"^(?:/\\ )?tr = (\d+)$", out, re.M), re.findall(r"^(?:/\\ )?i = (\d+)$", out, re.M)
                if not tr or not pos or not (1 <= int(tr[-1]) <= len(todo)):
                    raise CheckError("TLC on %s failed (rc %d)\n%s" % (module, rc, out[-4000:]))
                j = todo[int(tr[-1]) - 1]
                traces[j]["tlc_error"] = out[-6000:]
                res.append((traces[j], int(pos[-1])))
                todo = [k for k in todo if k != j]
            return res, [], ""

        def worker():
            while True:
                with lock:
                    while not work and busy[0]:
                        lock.wait()
                    if not work:
                        lock.notify_all()
                        return
                    todo, lim = work.popleft()
                    busy[0] += 1
                res, left, why = [], [], ""
                try:
                    res, left, why = one(list(todo), lim)
                finally:
                    with lock:
                        bad.extend(res)
                        if left:
                            self.log("%s: %d traces, %s" % (module, len(left), why))
                            if len(left) > 1 and time.time() < end - 20 and not bad:
                                half = max(30, lim / 2)
                                work.extend([(left[0::2], half), (left[1::2], half)])
                            else:
                                undecided.extend(left)
                        busy[0] -= 1
                        lock.notify_all()

        with cf.ThreadPoolExecutor(n) as ex:
            for x in [ex.submit(worker) for _ in range(n)]:
                x.result()
        if undecided and not bad:
            raise CheckError("TLC on %s: %d traces undecided, e.g. %s" % (module, len(undecided), traces[undecided[0]]["id"]))
        self.validated += len(traces) - len(bad) - len(undecided)
        return bad

    # ------------------------------------------------------------ design model
    def model(self, module, cfg=None, workers=4, heap="6g", timeout=800, args=(), expect_ok=True, note=""):
        rc, out, st = self.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, args=args)
        ok = rc == 0 and "No error has been found" in out
        self.design.append({"module": module, "cfg": cfg or module + ".cfg", "generated": st[0], "distinct": st[1]})
        if expect_ok and not ok:
            raise CheckError("model check of %s (%s) failed (rc %d):\n%s" % (module, cfg, rc, out[-5000:]))
        self.log("model", module, cfg or "", st)
        return out


    def control(self, module, cfg, violated, workers=4):
        """A configuration without what makes the design work: TLC has to find the violation (the model is not vacuous)."""
        out = self.model(module, cfg, workers=workers, expect_ok=False)
        if ("%s is violated" % violated) not in out:
            raise CheckError("negative control %s (%s): %s should be violated:\n%s" % (module, cfg, violated, out[-3000:]))
        self.design[-1]["violated as expected"] = violated


def level_counts(traces):
    c = {}
    for t in traces:
        for e in t["ev"]:
            c[e["e"]] = c.get(e["e"], 0) + 1
    return c


def known_findings():
    f = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def write_evidence(run, level, extra, assumptions, violations):
    cov = {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.validated,
           "samples": run.samples[:3] or ["none"], "executions": run.executions, "design_models": run.design}
    cov.update(run.notes)
    cov.update(extra or {})
    ev = {"property": run.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - run.t0, 2), "violations": violations}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, run.prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)


def conformance(run, driver, module, scns, cfg=None, tag="s", batch=None, deadline=None, finding=None, env=None):
    """Runs the scenarios in the driver and validates the traces. A rejection counts when running the
    scenario again is rejected again (the runs are deterministic). Returns the violations found."""
    byid = {s.id: s for s in scns}
    viol = []
    batch = batch or len(scns) or 1
    done = 0
    for a in range(0, len(scns), batch):
        if a and deadline and time.time() - run.t0 > deadline:
            break
        part = scns[a:a + batch]
        tr = run.execute(driver, part, tag="%s%d" % (tag, a))
        for s, t in zip(part, tr):
            t["cfg"] = s.cfg
        tr = [t for t in tr if not t.get("skip")]
        bad = run.validate(module, tr, cfg)
        done += len(part)
        cnt = run.notes.setdefault("events", {})
        for k, v in level_counts(tr).items():
            cnt[k] = cnt.get(k, 0) + v
        good = [t for t in tr if all(t is not b[0] for b in bad)]
        if good and len(run.samples) < 3:
            g = good[min(len(good) - 1, 3)]
            run.samples.append({"driver": driver, "scenario": byid[g["id"]].text()[:1500], "events": g["ev"][:40], "events_total": len(g["ev"])})
        if bad:
            again = [byid[t["id"]] for t, _ in bad[:12]]
            for attempt in range(3):
                tr2 = run.execute(driver, again, tag="again")
                for s, t in zip(again, tr2):
                    t["cfg"] = s.cfg
                v0 = run.validated
                bad2 = run.validate(module, tr2, cfg)
                run.validated = v0
                if bad2:
                    break
            for t, pos in bad2:
                viol.append({"driver": driver, "module": module, "scn": byid[t["id"]], "trace": t, "pos": pos})
            if not bad2:
                run.log("rejected once, accepted when run again:", [t["id"] for t, _ in bad[:5]])
                run.notes["unrepeatable"] = run.notes.get("unrepeatable", 0) + len(bad)
        if viol:
            break
    run.notes["scenarios_" + tag] = done
    run.log(module, "validated", done, "executions;", len(viol), "violations")
    return viol


def report(run, viol):
    """Prints the VIOLATION lines; returns the number of new ones."""
    d = os.path.join(ROOT, "replays")
    new = 0
    for n, v in enumerate(viol[:5]):
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%d.json" % (run.prop, n))
        t = v.get("trace") or {}
        ev = t.get("ev", [])
        pos = v.get("pos", 0)
        with open(p, "w") as h:
            json.dump({"property": run.prop, "driver": v.get("driver"), "spec": v.get("module"), "scenario": v["scn"].text() if v.get("scn") else "",
                       "cfg": t.get("cfg"), "first_unexplained_event": pos, "event": ev[pos - 1] if 0 < pos <= len(ev) else None,
                       "trace": ev, "tlc_error": t.get("tlc_error", ""), "note": v.get("note", "")}, h, indent=1)
        run.log("rejected:", v["scn"].id if v.get("scn") else "", "at event", pos, json.dumps(ev[pos - 1])[:300] if 0 < pos <= len(ev) else v.get("note", ""))
        print("VIOLATION property=%s replay=%s" % (run.prop, p), flush=True)
        new += 1
    return new


def main(prop, fn, assumptions, level="model_checking"):
    run = Run(prop)
    try:
        viol = fn(run)
        n = report(run, viol)
        write_evidence(run, level, None, assumptions, n)
        run.log("done:", "VIOLATED" if n else "held", "states", run.states, "traces", run.validated)
        return 1 if n else 0
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        return 2
    except Exception:
        import traceback
        print("CHECK ERROR:", traceback.format_exc(), flush=True)
        return 2
    finally:
        run.close()


# ------------------------------------------------------------- behaviours of a specification as test scripts
def printed(out, tag):
    # (TLC breaks some long tuples into lines)
    for m in re.finditer(r'<<\s*"%s"((?:,\s*"(?:[^"\\]|\\.)*")+)\s*>>' % tag, out):
        yield [json.loads(x.encode().decode("unicode_escape")) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))]


def graph_scripts(run, module, cfg, maxlen=60, timeout=600):
    """Every transition of the (small) state graph of a specification, covered by walks from the initial
    state. The specification prints <<"TR", from, operation, to>> (an action constraint)."""
    rc, out, st = run.tlc(module, cfg, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model check of %s (%s) failed:\n%s" % (module, cfg, out[-4000:]))
    run.design.append({"module": module, "cfg": cfg, "generated": st[0], "distinct": st[1]})
    edges, init = {}, None
    for a, o, b in printed(out, "TR"):
        a, b = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
        init = init or a
        d = edges.setdefault(a, {})
        d.setdefault(json.dumps(o, sort_keys=True), b)
        edges.setdefault(b, {})
    left = {a: sorted(d) for a, d in edges.items()}
    todo = sum(len(v) for v in left.values())
    run.notes.setdefault("graph_transitions", {})[cfg] = todo
    scripts = []
    # shortest way from the initial state to every state
    par, q = {init: None}, [init]
    for a in q:
        for o, b in edges[a].items():
            if b not in par:
                par[b] = (a, o)
                q.append(b)

    def way(a):
        r = []
        while par[a]:
            a, o = par[a]
            r.append(o)
        return r[::-1]

    def near(a, lim):
        """shortest way from a to a state with an uncovered transition"""
        seen, qq = {a: None}, [a]
        for x in qq:
            if left[x]:
                r = []
                y = x
                while seen[y]:
                    y, o = seen[y]
                    r.append(o)
                return x, r[::-1]
            if len(seen) > 400:
                return None, None
            for o, b in edges[x].items():
                if b not in seen:
                    seen[b] = (x, o)
                    qq.append(b)
        return None, None
    order = [a for a in q]
    k = 0
    while k < len(order):
        if not left[order[k]]:
            k += 1
            continue
        cur, s = order[k], way(order[k])
        while True:
            if left[cur]:
                o = left[cur].pop()
            else:
                x, w = near(cur, maxlen)
                if x is None or len(s) + len(w) >= maxlen:
                    break
                s += w
                cur = x
                continue
            s.append(o)
            cur = edges[cur][o]
            if len(s) >= maxlen:
                break
        scripts.append([json.loads(o) for o in s])
    run.log("graph", cfg, "transitions", todo, "scripts", len(scripts))
    return scripts


def sim_scripts(run, module, cfg, num, depth, seed=None, timeout=600):
    """Random behaviours of a specification (TLC -simulate). It prints <<"SIM", operations>> at the end."""
    rc, out, st = run.tlc(module, cfg, args=("-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed if seed is not None else run.rng.randrange(1, 10**9))), timeout=timeout)
    res, seen = [], set()
    for (h,) in printed(out, "SIM"):
        key = json.dumps(h[:depth - 1], sort_keys=True)
        if key not in seen:
            seen.add(key)
            res.append(h)
    if not res or "Error:" in out:
        raise CheckError("simulation of %s (%s) failed:\n%s" % (module, cfg, out[-4000:]))
    run.log("simulated", cfg, len(res), "behaviours")
    run.notes.setdefault("simulated", {})[cfg] = run.notes.get("simulated", {}).get(cfg, 0) + len(res)
    return res
