"""S10: Hilbert bases are complete for every partition, interruption and restart."""
import hilb, lat, work
from clean import REAL, STUB
from engine import Violation

ID = "S10"
LEVEL = "exploration"
RULE = "random pointed cones of dimension 2-4 (also embedded in a larger space), all options of hilbert-from-rays, in one of five stories: one run; several cones in a .triang file; subcones split among 1-4 simultaneous workers; a crash followed by a restart or by continuing from the saved triangulation or subcone file; a run in the directory of another one; with clock jumps, expiring time limits and verbosity signals at random operations; non-trivial: more than one cone was handled"
ASSUME = ["cone entries are small, so that 4ti2's int arithmetic does not overflow", "--reduction=cplex and facets are not compiled in"]

STORY = ["single", "single", "triang", "workers", "workers", "workers", "restart", "restart", "dirty"]
H = work.Hilbert


def gen_events(R):
    """Clock jumps (milliseconds) and signals at random points of the run."""
    ev = []
    while R.random() < 0.4 and len(ev) < 4:
        ev.append([R.randrange(1001), "clock", R.choice([500, 1500, 5000, 100000, -5000, 10 ** 9])] if R.random() < 0.7 else [R.randrange(1001), "signal", R.choice([10, 12])])
    return ev


def gen(R, tier):
    story = R.choice(STORY)
    w = H.gen(R, tier)
    case = dict(story=story, w=w, rng=lat.gen_rng(R), ev=gen_events(R), tick=R.choice([37, 37, 20000, 200000, 700000, 3000000]))
    if story == "triang":
        w["form"] = "rays"
        cones = [w["cone"]]
        for _ in range(R.choice([0, 1, 1, 2])):
            for _ in range(50):
                c = hilb.gen_cone(R, dmax=4)
                if len(c["emb"]) == len(w["cone"]["emb"]):
                    cones.append(c)
                    break
        case["cones"] = cones
        w["opts"] = [o for o in w["opts"] if "pull-rays" not in o and "height-vector" not in o and "subcones" not in o]
    elif story == "workers":
        w["opts"] = [o for o in w["opts"] if "--output-subcones" not in o and "--no-initial" not in o]
        n = R.choice([1, 2, 2, 3, 4])
        ws = []
        for _ in range(n):
            o = H.gen_opts(R, w["cone"]) if R.random() < 0.7 else list(w["opts"])
            if R.random() < 0.5:
                o = [x for x in o if "--no-triang-file" not in x]
            ws.append(dict(opts=[x for x in o if "--output-subcones" not in x], rng=lat.gen_rng(R), ev=gen_events(R), pid=R.choice([500, 501])))
        if n > 1 and R.random() < 0.25:  # exchange files with the same external program
            for x in ws:
                x["opts"] = [o for o in x["opts"] if "--triangulation" not in o] + ["--triangulation=topcom"]
        if R.random() < 0.4:  # a second pass over the subcones; those it leaves as they are go to a file of their own
            case["refine"] = [o for o in H.gen_opts(R, w["cone"]) if "--output-subcones" not in o and "--no-initial" not in o] + (["--output-trivial-subcones=tr.subcones"] if R.random() < 0.7 else [])
        case.update(workers=ws, split=R.getrandbits(31), again=R.choice([0, 0, 0, 1]), sched=R.getrandbits(31), sticky=R.choice([0, 0, 20, 60, 90]))
    elif story in ("restart", "dirty"):
        first = dict(w)
        if story == "dirty":
            first = H.gen(R, tier)
        elif R.random() < 0.5:
            first["opts"] = H.gen_opts(R, w["cone"])
        first["form"] = w["form"]
        if R.random() < 0.4 and not any("--output-subcones" in o for o in first["opts"]):
            first["opts"] = first["opts"] + ["--output-subcones=out.subcones"]
        case.update(first=first, rng1=lat.gen_rng(R), end=R.choice(["crash", "crash", "torn", "enospc", "eio"] if story == "restart" else ["none", "crash", "torn"]), at=R.randrange(1001), param=R.randrange(1000),
                    cont=R.choice(["scratch", "triang", "subcones"]))
    return case


def write_triang(cones):
    t = ""
    for c in cones:
        rays = hilb.rays_of(c)
        d = len(rays[0])
        t += "==========\nCone.\nCoefficient: 1\nVertex: [%s]\nExtreme rays:\n%sDeterminant:0\nFacets:\n[]\nDual determinant:0\nLattice points in parallelepiped:\n[]\n==========\n\n" % (
            " ".join(["0"] * d), "".join("[%s]\n" % " ".join(map(str, r)) for r in rays))
    return t


def place_events(ev, ops):
    return [[min(max(ops - 1, 0), ops * at // 1000), k, v] for at, k, v in ev]


def judge(case, ctx, r, w, names, what, cones=None):
    if r.sig in (24, 9) or r.ops_exceeded:
        raise Violation("hang", what)
    if r.exit != 0 or r.sig:
        if work.external_crash(r):
            ctx.probes["external tool crashed (reported)"] += 1
            return False
        if H.may_refuse(w) and r.sig in (0, 6):
            ctx.probes["refused"] += 1
            return False
        raise Violation("fail", "exit %d sig %d: %s: %s" % (r.exit, r.sig, what, r.err[-300:]))
    texts = [ctx.srv.get("w/" + n) for n in names]
    try:
        if cones:
            check_many(cones, texts, names)
        else:
            H.check_hil(w["cone"], texts, names)
    except Violation as v:
        raise Violation(v.klass, "%s; %s" % (v.detail[:400], what))
    return True


def check_many(cones, texts, names):
    d, m = H.parse_matrix(texts[0], names[0])
    tests = [hilb.member(c) for c in cones]
    for v in m:
        if not any(t(v) for t in tests):
            raise Violation("outside-cone", "%s is in none of the cones" % (v,))
    have = set(m)
    for c in cones:
        mine = have | set(hilb.rays_of(c))
        for v in hilb.basis_of(c):
            if v not in mine:
                raise Violation("basis-incomplete", "%s is missing; cone %s" % (v, hilb.rays_of(c)))


def run(ctx, args, rng, ev, faults=(), cpu=8, **kw):
    q = dict(prog="hilbert-from-rays", args=args, cwd="w", rng=rng, cpu=cpu, clock=[1700000000000, ctx.tick], **kw)
    base = None
    if ev:
        base = ctx.run([dict(q)])[0].ops
        # the probing run leaves files behind, as any run does: the next one starts from them
        q["faults"] = place_events(ev, base) + list(faults)
    elif faults:
        q["faults"] = list(faults)
    return ctx.run([q])[0]


def count(ctx, r):
    n = r.err.count("### Level")
    ctx.cones = getattr(ctx, "cones", 0) + n
    ctx.probes["cones handled"] += n
    ctx.probes["subdivided further"] += r.err.count("subdividing...")
    ctx.probes["time limit expired"] += r.err.count("too much time in zsolve")
    ctx.probes["enumerated"] += r.err.count("Enumerating fund")


def execute(case, ctx):
    ctx.cones = 0
    ctx.tick = case["tick"]
    w = case["w"]
    story = case["story"]
    for n, t in H.files(w).items():
        ctx.srv.put("w/" + n, t)
    name = H.inname(w)
    if story in ("single", "triang"):
        cones = None
        args = H.args(w)
        if story == "triang":
            cones = case["cones"]
            ctx.srv.put("w/in.triang", write_triang(cones))
            name = "in.triang"
            args = list(w["opts"]) + [name]
        r = run(ctx, args, case["rng"], case["ev"])
        count(ctx, r)
        what = "hilbert-from-rays %s" % " ".join(args)
        wj = w
        if cones:
            wj = next((dict(w, cone=c) for c in cones if H.may_refuse(dict(w, cone=c))), w)
        if judge(case, ctx, r, wj, [name + ".hil"], what, cones):
            ctx.probes["story " + story] += 1
        return
    if story == "workers":
        args = list(w["opts"]) + ["--only-triangulate", "--output-subcones=all.subcones", name]
        r = run(ctx, args, case["rng"], case["ev"])
        what = "hilbert-from-rays %s" % " ".join(args)
        if r.exit != 0 or r.sig:
            judge(case, ctx, r, w, [], what)
            return
        n, m = H.parse_matrix(ctx.srv.get("w/all.subcones"), "all.subcones")
        if n != len(w["cone"]["core"]) and not w["cone"].get("redundant"):
            raise Violation("bad-subcones", "all.subcones has %d columns for %d rays; %s" % (n, len(w["cone"]["core"]), what))
        if case.get("refine") is not None:
            args = list(case["refine"]) + ["--only-triangulate", "--subcones=all.subcones", "--output-subcones=nt.subcones", name]
            r = run(ctx, args, case["rng"], case["ev"])
            what += " then hilbert-from-rays %s" % " ".join(args)
            if r.exit != 0 or r.sig:
                judge(case, ctx, r, dict(w, opts=case["refine"]), [], what)
                return
            n2, m2 = H.parse_matrix(ctx.srv.get("w/nt.subcones"), "nt.subcones")
            if any("trivial" in o for o in case["refine"]):
                n3, m3 = H.parse_matrix(ctx.srv.get("w/tr.subcones"), "tr.subcones")
                if m3 and n3 != n or not set(map(tuple, m3)) <= set(map(tuple, m)):
                    raise Violation("bad-subcones", "subcones %s are reported as unchanged, but were not among %s; %s" % (m3, m, what))
                m2 = m2 + m3
                ctx.probes["unchanged subcones"] += len(m3)
            if n2 != n:
                raise Violation("bad-subcones", "nt.subcones has %d columns for %d rays; %s" % (n2, n, what))
            m = m2
            ctx.probes["refined"] += 1
        import random
        R = random.Random(case["split"])
        K = len(case["workers"])
        parts = [[] for _ in range(K)]
        for row in m:
            parts[R.randrange(K)].append(row)
            if case["again"] and R.random() < 0.3:
                parts[R.randrange(K)].append(row)
        qs, names = [], []
        # cdd works on files of fixed names: its users get directories of their own
        alone = K > 1 and any("cdd" in o for x in case["workers"] for o in x["opts"])
        for i, (p, x) in enumerate(zip(parts, case["workers"])):
            cwd = "w%d" % i if alone else "w"
            for f, t in H.files(w).items():
                ctx.srv.put("%s/%s" % (cwd, f), t)
            ctx.srv.put("%s/part%d.subcones" % (cwd, i), "%d %d\n" % (len(p), n) + "".join(" ".join(map(str, row)) + "\n" for row in p))
            qs.append(dict(prog="hilbert-from-rays", args=list(x["opts"]) + ["--subcones=part%d.subcones" % i, name], cwd=cwd, rng=x["rng"], cpu=10, clock=[1700000000000, case["tick"]], pid=x["pid"],
                           faults=place_events(x["ev"], 60)))
            if p:
                names.append("%s/%s--subcones-part%d.subcones.hil" % (cwd, name, i))
        rs = ctx.run(qs, sched=case["sched"], sticky=case["sticky"])
        what += " then " + " | ".join(" ".join(q["args"]) for q in qs)
        ok = True
        for x, q, r in zip(case["workers"], qs, rs):
            count(ctx, r)
            ok = judge(case, ctx, r, dict(w, opts=x["opts"]), [], what) if (r.exit or r.sig or r.ops_exceeded) and ok else ok
        if ok:
            H.check_hil(w["cone"], [ctx.srv.get(f) for f in names], names)
            ctx.probes["story workers"] += 1
        return
    # an earlier run, perhaps interrupted
    first = case["first"]
    for n, t in H.files(first).items():
        ctx.srv.put("w/" + n, t)
    q = dict(prog="hilbert-from-rays", args=H.args(first), cwd="w", rng=case["rng1"], cpu=8)
    n = ctx.run([dict(q)])[0].ops
    ctx.srv.reset()
    for f, t in H.files(first).items():
        ctx.srv.put("w/" + f, t)
    if case["end"] != "none":
        q["faults"] = [[min(max(n - 1, 0), n * case["at"] // 1000), case["end"], case["param"]]]
    r1 = ctx.run([q])[0]
    cont = case["cont"] if story == "restart" else "scratch"
    for f, t in H.files(w).items():
        ctx.srv.put("w/" + f, t)
    opts = [o for o in w["opts"] if "--output-subcones" not in o]
    names = [name + ".hil"]
    if cont == "triang" and "Printed triangulation to file" in r1.err and ctx.srv.get("w/%s.triang" % name) is not None:
        opts = [o for o in opts if "height-vector" not in o and "pull-rays" not in o]
        args = opts + [name + ".triang"]
        names = [name + ".triang.hil"]
    elif cont == "subcones" and ctx.srv.get("w/out.subcones") is not None and (ctx.srv.get("w/out.subcones") or "").split()[0:1] not in ([], ["-1"]):
        args = opts + ["--subcones=out.subcones", name]
        names = [name + "--subcones-out.subcones.hil"]
    elif cont == "subcones" and ctx.srv.get("w/out.subcones") is not None:
        # the list of subcones is not complete: a worker must not take it for a short one
        r = ctx.run([dict(prog="hilbert-from-rays", args=opts + ["--subcones=out.subcones", name], cwd="w", rng=case["rng"], cpu=8)])[0]
        if r.exit == 0 and not r.sig:
            raise Violation("incomplete-taken", "an interrupted run left out.subcones incomplete (%r) and the next run took it: %s" % (ctx.srv.get("w/out.subcones")[:60], opts))
        ctx.probes["incomplete list refused"] += 1
        return
    else:
        cont = "scratch"
        args = list(w["opts"]) + [name]
    r = run(ctx, args, case["rng"], case["ev"])
    count(ctx, r)
    what = "hilbert-from-rays %s after hilbert-from-rays %s (%s)" % (" ".join(args), " ".join(q["args"]), q.get("faults"))
    if cont != "scratch" and (r.exit or r.sig in (6,)) and (H.may_refuse(first) or case["end"] in ("enospc", "eio", "torn")):
        ctx.probes["damaged saved state refused"] += 1
        return
    if judge(case, ctx, r, w, names, what):
        ctx.probes["story %s, from %s" % (story, cont)] += 1


def nontrivial(case, ctx):
    return getattr(ctx, "cones", 0) > 1


def shrink(case):
    if case["tick"] != 37:
        yield dict(case, tick=37)
    if case["ev"]:
        yield dict(case, ev=[])
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
    if case["story"] == "triang":
        for i in range(len(case["cones"])):
            if len(case["cones"]) > 1:
                yield dict(case, cones=case["cones"][:i] + case["cones"][i + 1:])
        for i, c in enumerate(case["cones"]):
            for c2 in work.shrink_cone(c):
                if len(c2["emb"]) == len(c["emb"]):
                    yield dict(case, cones=case["cones"][:i] + [c2] + case["cones"][i + 1:])
    if case["story"] == "workers":
        W = case["workers"]
        for i in range(len(W)):
            if len(W) > 1:
                yield dict(case, workers=W[:i] + W[i + 1:])
            for j in range(len(W[i]["opts"])):
                yield dict(case, workers=W[:i] + [dict(W[i], opts=W[i]["opts"][:j] + W[i]["opts"][j + 1:])] + W[i + 1:])
            if W[i]["ev"]:
                yield dict(case, workers=W[:i] + [dict(W[i], ev=[])] + W[i + 1:])
        if case.get("refine") is not None:
            yield {k: v for k, v in case.items() if k != "refine"}
            for j in range(len(case["refine"])):
                yield dict(case, refine=case["refine"][:j] + case["refine"][j + 1:])
        if case["again"]:
            yield dict(case, again=0)
        if case["sticky"] != 90:
            yield dict(case, sticky=90)
    if "first" in case:
        yield dict(case, story="single")
        for f in H.shrink(case["first"]):
            if f["form"] == case["w"]["form"] and (case["story"] == "dirty" or f["cone"] == case["w"]["cone"]):
                yield dict(case, first=f)
        if case["cont"] != "scratch":
            yield dict(case, cont="scratch")
        for p in (0, 500):
            if case["param"] != p:
                yield dict(case, param=p)
    for w in H.shrink(case["w"]):
        if case["story"] == "triang" and w["cone"] != case["w"]["cone"]:
            continue
        if "first" in case and case["story"] == "restart":
            yield dict(case, w=w, first=dict(case["first"], cone=w["cone"], form=w["form"], heights=w["heights"]))
        elif "first" in case:
            yield dict(case, w=w, first=dict(case["first"], form=w["form"]))
        else:
            yield dict(case, w=w)
