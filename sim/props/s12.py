"""S12: simultaneous runs in different directories do not disturb each other or anything else."""
import lat, work
from clean import REAL, STUB
from engine import Violation
from s02 import gen_fault, place

ID = "S12"
LEVEL = "exploration"
RULE = "2-4 programs of any kind in different directories, every operation of all of them interleaved by a seeded scheduler, with equal or different process ids and left-over temporary directories, some of the programs crashing or failing midway; non-trivial: at least two schedule switches"
ASSUME = ["a child process runs to its end within one step of the schedule",
          "two programs with the same process id share one /tmp only when they live in different process-id namespaces"]


def gen(R, tier):
    procs = []
    n = R.choice([2, 2, 3, 3, 4])
    pids = R.choice([[500], [500, 501], [500, 501, 502, 503], [1, 11, 111], [2147483, 500]])
    for i in range(n):
        k = R.choice(work.ALL)
        w = work.ALLKINDS[k].gen(R, tier, small=True)
        if R.random() < 0.7 and "opts" in w and k not in ("topknap", "optimize", "interp", "hilbert") and "prog" not in w:
            w["opts"] = [o for o in w["opts"] if not o.startswith("--triangulation=")] + ["--triangulation=topcom"]
        if i and R.random() < 0.3:
            w = procs[0]["w"]
        procs.append(dict(w=w, rng=lat.gen_rng(R, 0.2), pid=R.choice(pids), host=R.choice(["a", "a", "b", "node-17.example.org"]),
                          end=R.choice(["none", "none", "none", "none", "crash", "fault"]), at=R.randrange(1001), plan=[gen_fault(R)]))
    if all(p["end"] != "none" for p in procs):
        procs[0]["end"] = "none"
    stale = []
    for p in procs:
        while R.random() < 0.4 and len(stale) < 5:
            stale.append([p["pid"], p["host"], R.choice([0, 0, 1, 2]), R.choice(["empty", "file", "old", "old"])])
    return dict(procs=procs, stale=stale, sched=R.getrandbits(31), sticky=R.choice([0, 0, 20, 60, 90]))


OLD_IN = "[[1,0],\n[0,1]]\n"
OLD_OUT = "{{0,1}}\n"


def execute(case, ctx):
    ops, live = [], []
    for p in case["procs"]:
        ctx.srv.reset()
        r = work.run_clean(p["w"], ctx, p["rng"], cpu=6, pid=p["pid"], host=p["host"])
        if r.exit != 0 or r.sig:
            return
        left = [f for f in ctx.srv.tree("tmp")] or [d for d in ctx.srv.dirs("tmp")]
        if left:
            raise Violation("temporary-left", "%s %s succeeded and left %s" % (p["w"]["kind"], work.ALLKINDS[p["w"]["kind"]].args(p["w"]), left[:3]))
        if any(k == 'mkdir' for _, k, _ in r.oplist()):
            ctx.probes['uses its temporary directory'] += 1
        ops.append((r.oplist(), r.ops, r.allocs))
    ctx.srv.reset()
    before = {}
    for pid, host, i, what in case["stale"]:
        d = "tmp/latte-%d@%s-%d" % (pid, host, i)
        if d in ctx.srv.dirs("tmp") or ctx.srv.get(d) is not None:
            continue
        if what == "file":
            ctx.srv.put(d, "not a directory\n")
        else:
            ctx.srv.mkdir(d)
            if what == "old":
                ctx.srv.put(d + "/topcom_input", OLD_IN)
                ctx.srv.put(d + "/topcom_output", OLD_OUT)
    stale_dirs = set(ctx.srv.dirs("tmp"))
    before = ctx.srv.tree("tmp")
    qs = []
    for i, p in enumerate(case["procs"]):
        work.setup(p["w"], ctx.srv, "w%d" % i)
        K = work.ALLKINDS[p["w"]["kind"]]
        q = K.proc(p["w"])
        faults = []
        ol, n, al = ops[i]
        if p["end"] == "crash" and n:
            faults = [[min(n - 1, n * p["at"] // 1000), "crash", 0]]
        elif p["end"] == "fault":
            faults = place(p["plan"], ol, al)
        q.update(cwd="w%d" % i, rng=p["rng"], pid=p["pid"], host=p["host"], cpu=8, faults=faults)
        qs.append(q)
    rs = ctx.run(qs, sched=case["sched"], sticky=case["sticky"])
    ctx.switches = sum(1 for a, b in zip(ctx.trace, ctx.trace[1:]) if a != b)
    allok = True
    for i, (p, q, r) in enumerate(zip(case["procs"], qs, rs)):
        K = work.ALLKINDS[p["w"]["kind"]]
        tag = "%s %s in directory %d next to %s" % (q["prog"], " ".join(q["args"]), i, " | ".join(
            "%s %s%s" % (o["prog"], " ".join(o["args"]), " (%s)" % o["faults"][0] if o["faults"] else "") for j, o in enumerate(qs) if j != i))
        files = K.files(p["w"])
        for n, t in files.items():
            if ctx.srv.get("w%d/%s" % (i, n)) != t:
                raise Violation("input-changed", "%s changed its input %s" % (tag, n))
        if q["faults"]:
            allok = False
            continue
        if K.gave_up(p["w"], r):
            continue
        if r.hung():
            raise Violation("hang", tag)
        if r.exit != 0 or r.sig:
            if work.external_crash(r):
                continue
            raise Violation("fail", "exit %d sig %d: %s: %s" % (r.exit, r.sig, tag, r.err[-300:]))
        try:
            K.verify(p["w"], r, lambda n: ctx.srv.get("w%d/%s" % (i, n)))
        except Violation as v:
            raise Violation("together-" + v.klass, "%s; %s" % (v.detail[:300], tag))
        ctx.probes["runs in company"] += 1
    after = ctx.srv.tree("tmp")
    for f, t in before.items():
        if after.get(f) != t:
            raise Violation("foreign-file", "%s in the temporary directory of another process was %s" % (f, "removed" if f not in after else "changed"))
    if not stale_dirs <= set(ctx.srv.dirs("tmp")):
        raise Violation("foreign-file", "a temporary directory of another process was removed")
    if allok:
        new = [f for f in after if f not in before] + [d for d in ctx.srv.dirs("tmp") if d not in stale_dirs]
        if new:
            raise Violation("temporary-left", "all programs succeeded and left %s" % new[:3])


def nontrivial(case, ctx):
    return getattr(ctx, "switches", 0) > 1


def shrink(case):
    P = case["procs"]
    for i in range(len(P)):
        if len(P) > 1:
            yield dict(case, procs=P[:i] + P[i + 1:])
    for i in range(len(case["stale"])):
        yield dict(case, stale=case["stale"][:i] + case["stale"][i + 1:])
    for i in range(len(P)):
        if P[i]["end"] != "none":
            yield dict(case, procs=P[:i] + [dict(P[i], end="none")] + P[i + 1:])
        if P[i]["rng"] != ["uniform", 1, 0]:
            yield dict(case, procs=P[:i] + [dict(P[i], rng=["uniform", 1, 0])] + P[i + 1:])
        for w in work.ALLKINDS[P[i]["w"]["kind"]].shrink(P[i]["w"]):
            yield dict(case, procs=P[:i] + [dict(P[i], w=w)] + P[i + 1:])
    for s in (0, 90):
        if case["sticky"] != s:
            yield dict(case, sticky=s)
    for s in range(4):
        if case["sched"] > s:
            yield dict(case, sched=s)
