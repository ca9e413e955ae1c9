"""Seeded parallel search, gating, minimisation, replay files and evidence."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, random, shutil, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.dirname(HERE)
VERIF = os.path.dirname(SIM)
sys.path.insert(0, HERE)
sys.path.insert(0, SIM)
sys.path.insert(0, os.path.join(SIM, "props"))
import build as builder
from core import FAULTS, Server, SimError, scratch_base


class Violation(Exception):
    """klass: short stable class; detail: what was observed."""

    def __init__(self, klass, detail):
        Exception.__init__(self, klass + ": " + detail)
        self.klass, self.detail = klass, detail


class Ctx:
    """What an episode sees: the simulated machine, and counters for the evidence."""

    def __init__(self, srv, scale=1):
        self.srv, self.scale = srv, scale
        self.runs = 0
        self.sim_us = 0
        self.ops = 0
        self.draws = 0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.digests = set()
        self.escapes = 0
        self.trace = None

    def run(self, procs, **kw):
        for q in procs:
            q["cpu"] = max(1, int(q.get("cpu", 4) * self.scale))
        rs = self.srv.run(procs, **kw)
        h = hashlib.sha1()
        for q, r in zip(procs, rs):
            self.runs += 1
            self.sim_us += max(0, r.clock_us - q.get("clock", (1000000, 1000))[0] * 1000)
            self.ops += r.ops
            self.draws += r.draws
            for k, v in r.fired.items():
                self.fired[k] += v
            h.update((q["prog"] + r.digest()).encode())
            if r.escapes:
                raise Violation("escape", "%s touched a path outside its working directory and /tmp: %s" % (
                    q["prog"], [l for l in r.log.split("\n") if "ESCAPE" in l][:2]))
        h.update(repr(self.srv.trace).encode())
        self.digests.add(h.digest()[:8])
        self.trace = self.srv.trace
        return rs

    def run1(self, prog, args, **kw):
        kw.update(prog=prog, args=list(args))
        return self.run([kw])[0]


SLOW = 5


def run_case(mod, case, srv, scale=1):
    """-> (violation or None, ctx).  A run that exceeds its CPU budget is repeated with a much larger one before it counts as a hang."""
    v, ctx = run_case1(mod, case, srv, scale)
    if v is not None and v.klass.startswith("hang") and scale < SLOW:
        v, ctx2 = run_case1(mod, case, srv, SLOW)
        ctx2.runs += ctx.runs
        if v is None:
            ctx2.probes["slow"] += 1
        return v, ctx2
    return v, ctx


def run_case1(mod, case, srv, scale=1):
    for attempt in (0, 1):
        ctx = Ctx(srv, scale)
        try:
            if srv.p is None:
                srv.start()
            srv.reset()
            mod.execute(case, ctx)
            return None, ctx
        except Violation as v:
            return v, ctx
        except SimError:
            srv.stop()
            if attempt:
                raise


def worker(k, mod, seed, tier, base, counter, deadline, stop, q, maxcases):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    stats = dict(cases=0, runs=0, sim_us=0, ops=0, draws=0, nontrivial=0, cpu=0.0)
    fired, probes, digests, sigs, samples = collections.Counter(), collections.Counter(), set(), set(), []
    viol = None
    err = None
    srv = Server(builder.BIN, os.path.join(base, "w%d" % k))
    try:
        while time.time() < deadline and not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if maxcases and i >= maxcases:
                break
            R = random.Random("%s:%s:%d" % (seed, mod.ID, i))
            case = mod.gen(R, tier)
            v, ctx = run_case(mod, case, srv)
            stats["cases"] += 1
            for n in ("runs", "sim_us", "ops", "draws"):
                stats[n] += getattr(ctx, n)
            fired.update(ctx.fired)
            probes.update(ctx.probes)
            digests |= ctx.digests
            s = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:8]
            if mod.nontrivial(case, ctx):
                sigs.add(s)
            if i < 3:
                samples.append(case)
            if v is not None:
                again, _ = run_case(mod, case, srv, 3)
                if again is None or again.klass != v.klass:
                    # a limit on real time met by an overloaded machine, not an answer of the program
                    probes["not reproduced, discarded"] += 1
                    continue
                viol = (i, case, v.klass, v.detail)
                with counter.get_lock():
                    first = not stop.value
                    stop.value = 1
                break
    except BaseException:
        err = traceback.format_exc()
        stop.value = 1
    finally:
        srv.stop()
    q.put(dict(stats=stats, fired=dict(fired), probes=dict(probes), digests=digests, sigs=sigs, samples=samples, viol=viol, err=err))


def minimise(mod, case, klass, srv, budget):
    """Greedy: take any simpler case that fails in the same way."""
    end = time.time() + budget
    tried = 0
    improved = True
    seen = set()
    while improved and time.time() < end:
        improved = False
        for c in mod.shrink(case):
            if time.time() > end:
                break
            s = json.dumps(c, sort_keys=True)
            if s in seen:
                continue
            seen.add(s)
            tried += 1
            try:
                v, _ = run_case(mod, c, srv)
            except (SimError, Exception):
                continue
            if v is not None and v.klass == klass:
                case, improved = c, True
                break
    return case, tried


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status", "open") == "open":
                    out.append(k)
    return out


def confirm(mod, case, base, tag, scale=3):
    srv = Server(builder.BIN, os.path.join(base, tag))
    try:
        v, ctx = run_case(mod, case, srv, scale)
        return (v.klass if v else None), (v.detail if v else None), sorted(d.hex() for d in ctx.digests)
    finally:
        srv.stop()


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("LATTESIM_BUDGET", "90" if tier == "quick" else "600"))
    jobs = int(os.environ.get("LATTESIM_JOBS", str(min(8, os.cpu_count() or 1))))
    maxcases = int(os.environ.get("LATTESIM_CASES", "0"))
    builder.build()
    tb = time.time() - t0
    print("check %s tier=%s seed=%d (built in %.1fs)" % (prop, tier, seed, tb), flush=True)
    mod = importlib.import_module("props." + prop.lower())
    base = scratch_base()
    rc = 0
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        fixed_viol = None
        # listed findings first: each is replayed, and reported only as a known finding
        nknown = 0
        srv = Server(builder.BIN, os.path.join(base, "k"))
        try:
            for k in known_findings(prop):
                v, _ = run_case(mod, k["case"], srv, 3)
                if v is not None and v.klass == k["class"]:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
                    nknown += 1
                elif v is not None:
                    fixed_viol = (-1, k["case"], v.klass, v.detail)
            # fixed scenarios that every run starts with
            for j, c in enumerate(getattr(mod, "corpus", lambda: [])()):
                if fixed_viol:
                    break
                v, _ = run_case(mod, c, srv)
                if v is not None:
                    fixed_viol = (-1 - j, c, v.klass, v.detail)
        finally:
            srv.stop()
        counter = mp.Value("l", 0)
        stop = mp.Value("i", 1 if fixed_viol else 0)
        q = mp.Queue()
        t1 = time.time()
        deadline = t1 + budget
        ps = [mp.Process(target=worker, args=(k, mod, seed, tier, base, counter, deadline, stop, q, maxcases)) for k in range(jobs)]
        for p in ps:
            p.start()
        outs = []
        while len(outs) < len(ps):
            try:
                outs.append(q.get(timeout=5))
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    break
        for p in ps:
            p.join(10)
            if p.is_alive():
                p.kill()
        search = max(time.time() - t1, 1e-6)
        if len(outs) < len(ps):
            print("ERROR: a worker vanished")
            return 2
        S = collections.Counter()
        fired, probes = collections.Counter(), collections.Counter()
        digests, sigs, samples = set(), set(), []
        viols = [fixed_viol] if fixed_viol else []
        for o in outs:
            S.update(o["stats"])
            fired.update(o["fired"])
            probes.update(o["probes"])
            digests |= o["digests"]
            sigs |= o["sigs"]
            samples += o["samples"]
            if o["viol"]:
                viols.append(o["viol"])
            if o["err"]:
                print(o["err"][-3000:])
                rc = 2
        viols.sort(key=lambda v: v[0])
        reported = 0
        unrepro = 0
        for idx, case, klass, detail in viols:
            a = confirm(mod, case, base, "c1")
            b = confirm(mod, case, base, "c2")
            if a[0] is None or a[0] != b[0]:
                unrepro += 1
                print("note: episode %d (%s) did not reproduce: %r %r" % (idx, klass, a[:2], b[:2]))
                continue
            if a != b:
                print("note: episode %d (%s) fails in every execution, but the histories differ" % (idx, klass))
            srv = Server(builder.BIN, os.path.join(base, "m"))
            try:
                small, tried = minimise(mod, case, a[0], srv, 30 if tier == "quick" else 120)
            finally:
                srv.stop()
            c = confirm(mod, small, base, "c3")
            d = confirm(mod, small, base, "c4")
            if c[0] != a[0] or c != d:
                small, c = case, a
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-seed%d-%s.json" % (prop, seed, hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, episode=idx, **{"class": c[0]}, detail=c[1], case=small,
                               original_case=case, digests=c[2], replay="python3 sim/replay.py " + path), f, indent=1, sort_keys=True)
            print("%s: %s" % (c[0], c[1]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            reported += 1
            rc = 1
            break
        if unrepro and not reported:
            rc = 2
        if rc == 0 and (S["cases"] == 0 or not sigs):
            print("ERROR: nothing was explored")
            rc = 2
        wall = time.time() - t0
        ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), wall_s=round(wall, 2), violations=reported,
                  coverage=dict(
                      evaluations=S["cases"], distinct_nontrivial=len(sigs), rule=mod.RULE,
                      samples=[trim(s) for s in samples[:3]],
                      simulated_processes=S["runs"], simulated_processes_per_hour=int(S["runs"] / search * 3600),
                      episodes_per_hour=int(S["cases"] / search * 3600), seeds="episode i uses PRNG(VERIF_SEED:%s:i), i < %d" % (prop, counter.value),
                      simulated_seconds=round(S["sim_us"] / 1e6, 1), operations=S["ops"], random_draws_answered=S["draws"],
                      faults_fired=dict(sorted(fired.items())), probes=dict(sorted(probes.items())),
                      distinct_histories=len(digests), distinct_histories_measure="distinct hashes of (event log, exit status, number of draws, schedule) over all simulated processes",
                      known_findings_replayed=nknown, real_components=mod.REAL, stubbed_components=mod.STUB),
                  assumptions=getattr(mod, "ASSUME", []))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        print("%s: %d episodes (%d distinct non-trivial), %d simulated processes, %d distinct histories, %.0fs; faults %s; probes %s" % (
            prop, S["cases"], len(sigs), S["runs"], len(digests), wall, dict(sorted(fired.items())), dict(sorted(probes.items()))))
        return rc
    finally:
        shutil.rmtree(base, ignore_errors=True)


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def replay(path):
    f = json.load(open(path))
    builder.build()
    mod = importlib.import_module("props." + f["property"].lower())
    base = scratch_base()
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(base)
        k, d, dig = confirm(mod, f["case"], base, "r")
        print("class: %s\ndetail: %s\nsame history as recorded: %s" % (k, d, dig == f.get("digests")))
        if k is not None:
            print("VIOLATION property=%s replay=%s" % (f["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
