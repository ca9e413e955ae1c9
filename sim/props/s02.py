"""S02: exit status 0 means a right and complete answer, whatever fails underneath."""
import re
import lat, work
from clean import REAL, STUB
from engine import Violation

ID = "S02"
LEVEL = "exploration"
RULE = "random workload of any program (count, Ehrhart data, generating functions, integrals, optimization, knapsack) x 1-6 fault plans, each of 1-3 faults at positions drawn from the operations of the fault-free run; non-trivial: at least one fault fired"
ASSUME = ["abort with a message (SIGABRT) counts as a loud failure, SIGSEGV, SIGFPE and SIGBUS do not",
          "failures of writes to the terminal are not injected"]

FILE_R = ["eio", "short", "emfile", "eacces"]
FAULT_FOR = {
    "openr": ["emfile", "eacces", "eio"],
    "openw": ["emfile", "eacces", "eio", "enospc"],
    "read": ["eio", "short"],
    "write": ["eio", "enospc", "short"],
    "close": ["eio"],
    "rename": ["eio", "eacces"], "unlink": ["eio", "eacces"], "mkdir": ["eio", "eacces", "enospc"], "rmdir": ["eio", "eacces"],
    "system": ["t_fail", "t_killed", "t_notfound", "t_forkfail", "t_trunc_ok", "t_trunc_fail", "t_norun_ok"],
}
CLASSES = ["system", "system", "system", "write", "write", "openw", "openr", "read", "close", "any", "alloc", "site", "site", "site", "site", "site", "site"]


def gen_fault(R):
    c = R.choice(CLASSES)
    return [c, R.randrange(10000), R.randrange(100), R.choice([0, 0, 1, 250, 500, 750, 900, 990, 999, R.randrange(1000)])]


def gen(R, tier):
    k = R.choice(work.ALL)
    w = work.ALLKINDS[k].gen(R, tier, small=True)
    n = R.choice([4, 6, 8])
    plans = []
    for _ in range(n):
        plans.append([gen_fault(R) for _ in range(R.choice([1, 1, 1, 2, 3]))])
    case = dict(w=w, rng=lat.gen_rng(R, 0.3), plans=plans)
    if R.random() < 0.3:           # an earlier run in the same directory left its files
        case["prior"] = work.similar(R, w, tier) if R.random() < 0.8 else work.ALLKINDS[R.choice(work.ALL)].gen(R, tier, small=True)
        case["prng"] = lat.gen_rng(R, 0.2)
    return case


def lay(case, ctx):
    """The directory at the start of the run."""
    ctx.srv.reset()
    if case.get("prior"):
        w = case["prior"]
        work.setup(w, ctx.srv)
        p = work.ALLKINDS[w["kind"]].proc(w)
        p.update(rng=case["prng"], cpu=6)
        ctx.run([p])
        ctx.probes["in a used directory"] += 1
    work.setup(case["w"], ctx.srv)


def place(plan, ops, allocs):
    """Turn the relative fault plan into positions in the fault-free history."""
    out = []
    for c, sel, which, param in plan:
        if c == "alloc":
            if allocs:
                out.append([(sel * 7919) % allocs if which % 4 else sel % min(allocs, 200), "alloc", 1 if which % 3 == 0 else 0])
            continue
        el = [o for o in ops if o[1] in FAULT_FOR and (c in ("any", "site") or o[1] == c)]
        if not el:
            continue
        if c == "site":                # each kind of operation on each file alike, however often it occurs
            sites = {}
            for o in el:
                sites.setdefault((o[1], re.sub(r"\d+", "", o[2].split(" ")[0] if o[1] != "system" else o[2][:12])), []).append(o)
            names = sorted(sites)
            el = sites[names[sel % len(names)]]
            sel //= len(names)
        o = el[sel % len(el)]
        kinds = FAULT_FOR[o[1]]
        k = kinds[which % len(kinds)]
        out.append([o[0], k, (1 + param % 120) if k == "t_fail" else param])
    return out


def execute(case, ctx):
    w = case["w"]
    K = work.ALLKINDS[w["kind"]]
    lay(case, ctx)
    pilot = work.run_clean(w, ctx, case["rng"], cpu=6)
    if pilot.exit != 0 or pilot.sig:
        return
    ops = pilot.oplist()
    for plan in case["plans"]:
        faults = place(plan, ops, pilot.allocs)
        if not faults:
            continue
        judge(case, K, ctx, faults)


def judge(case, K, ctx, faults):
    w = case["w"]
    lay(case, ctx)
    q = K.proc(w)
    q.update(rng=case["rng"], cpu=8, faults=faults)
    r = ctx.run([q])[0]
    where = " | ".join(l for l in r.log.split("\n") if "!" in l or "alloc-fail" in l)[:300]
    tag = "%s %s%s; faults: %s" % (q["prog"], " ".join(q["args"]), " in a used directory" if case.get("prior") else "", where or faults)
    if K.gave_up(w, r):
        return r
    if r.hung():
        raise Violation("hang", tag)
    if r.sig in (11, 8, 7, 4):
        raise Violation("memory-fault", "signal %d; %s" % (r.sig, tag))
    if r.exit == 0 and r.sig == 0:
        try:
            K.verify(w, r, lambda n: ctx.srv.get("w/" + n))
        except Violation as v:
            raise Violation("silent-" + v.klass, "%s; %s" % (v.detail[:200], tag))
        ctx.probes["still right"] += 1
    else:
        ctx.probes["failed loudly"] += 1
    return r


def nontrivial(case, ctx):
    return sum(ctx.fired.values()) > 0


def shrink(case):
    P = case["plans"]
    if len(P) > 1:
        for p in P:
            yield dict(case, plans=[p])
    elif P and len(P[0]) > 1:
        for f in P[0]:
            yield dict(case, plans=[[f]])
    if case.get("prior"):
        yield {k: v for k, v in case.items() if k not in ("prior", "prng")}
        if case["prng"] != ["uniform", 1, 0]:
            yield dict(case, prng=["uniform", 1, 0])
        for w in work.ALLKINDS[case["prior"]["kind"]].shrink(case["prior"]):
            yield dict(case, prior=w)
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
    for w in work.ALLKINDS[case["w"]["kind"]].shrink(case["w"]):
        yield dict(case, w=w)
    if len(P) == 1 and len(P[0]) == 1:
        c, sel, which, param = P[0][0]
        for s in {0, sel // 2, sel % 100, sel - 1}:
            if 0 <= s < sel:
                yield dict(case, plans=[[[c, s, which, param]]])
        if which >= 7:
            yield dict(case, plans=[[[c, sel, which % 7, param]]])
        if param not in (0, 500):
            yield dict(case, plans=[[[c, sel, which, 0]]])
            yield dict(case, plans=[[[c, sel, which, 500]]])
