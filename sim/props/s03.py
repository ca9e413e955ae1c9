"""S03: a run in a directory full of left-overs, after crashes at any point, gives the right answer."""
import lat, work
from clean import REAL, STUB
from engine import Violation

ID = "S03"
LEVEL = "exploration"
RULE = "1-4 earlier runs (random program, input and options) in one directory, each left alone, crashed before a random operation, crashed with a prefix of that operation on disk, or hit by a tool or disk fault; then the final run, fault-free, with a random process id (often that of a crashed run); non-trivial: an earlier run left a file behind"
ASSUME = ["a crash loses nothing that was written before it (files are not synced; power failures that lose earlier writes are not simulated)"]

END = ["crash", "crash", "crash", "torn", "torn", "none", "fault"]
TOOLF = ["t_fail", "t_killed", "t_trunc_ok", "t_trunc_fail", "t_norun_ok", "eio", "enospc"]


def gen_w(R, tier, kind=None):
    k = kind or R.choice(work.ALL)
    return work.ALLKINDS[k].gen(R, tier, small=True)


def gen(R, tier):
    last = gen_w(R, tier)
    steps = []
    for _ in range(R.choice([1, 1, 2, 2, 3, 4])):
        r = R.random()
        if r < 0.25:
            w = dict(last)                                     # the same problem again
        elif r < 0.5 and "opts" in last:
            w = work.similar(R, last, tier)
        else:
            w = gen_w(R, tier)
        steps.append(dict(w=w, rng=lat.gen_rng(R, 0.2), end=R.choice(END), at=R.choice([0, 1, 10, 900, 990, 1000, R.randrange(1001), R.randrange(1001), R.randrange(1001)]),
                          param=R.choice([0, 1, 500, 900, 990, 999, R.randrange(1000)]), fault=R.choice(TOOLF), pid=R.choice([1000, 1000, 1001])))
    return dict(steps=steps, last=last, rng=lat.gen_rng(R, 0.3), pid=R.choice([1000, 1001]))


def execute(case, ctx):
    last = case["last"]
    r = work.run_clean(last, ctx, case["rng"], cpu=6)
    if r.exit != 0 or r.sig:
        return
    base_cpu = 6
    # how many operations do the earlier runs make?
    counts = []
    for s in case["steps"]:
        if s["end"] == "none":
            counts.append(0)
            continue
        ctx.srv.reset()
        work.setup(s["w"], ctx.srv)
        q = work.ALLKINDS[s["w"]["kind"]].proc(s["w"])
        q.update(rng=s["rng"], cpu=6)
        counts.append(ctx.run([q])[0].ops)
    ctx.srv.reset()
    hist = []
    for s, n in zip(case["steps"], counts):
        w = s["w"]
        work.setup(w, ctx.srv)
        q = work.ALLKINDS[w["kind"]].proc(w)
        faults = []
        if n and s["end"] != "none":
            at = min(n - 1, n * s["at"] // 1000)
            faults = [[at, s["fault"] if s["end"] == "fault" else s["end"], s["param"]]]
        q.update(rng=s["rng"], cpu=6, faults=faults, pid=s["pid"])
        r = ctx.run([q])[0]
        hist.append("%s %s %s -> exit %d sig %d" % (q["prog"], " ".join(q["args"]), " ".join(map(str, faults[0])) if faults else "", r.exit, r.sig))
    K = work.ALLKINDS[last["kind"]]
    left = [f[2:] for f in ctx.srv.tree("w") if f[2:] not in K.files(last)]
    ctx.probes["left-over files"] += len(left)
    ctx.left = len(left)

    work.setup(last, ctx.srv)
    q = K.proc(last)
    q.update(rng=case["rng"], cpu=base_cpu, pid=case["pid"])
    r = ctx.run([q])[0]
    tag = "; after %s in a directory with %s" % (" | ".join(hist), ",".join(sorted(left))[:200])
    if K.gave_up(last, r):
        return
    if r.hung():
        raise Violation("hang", "%s %s%s" % (q["prog"], q["args"], tag))
    if r.exit != 0 or r.sig:
        if work.external_crash(r):
            return
        raise Violation("fail", "%s %s exit %d sig %d%s: %s" % (q["prog"], q["args"], r.exit, r.sig, tag, r.err[-300:]))
    try:
        K.verify(last, r, lambda n: ctx.srv.get("w/" + n))
    except Violation as v:
        raise Violation("after-" + v.klass, v.detail[:300] + tag)
    ctx.probes["restarts"] += 1


def nontrivial(case, ctx):
    return getattr(ctx, "left", 0) > 0


def shrink(case):
    S = case["steps"]
    for i in range(len(S)):
        if len(S) > 1:
            yield dict(case, steps=S[:i] + S[i + 1:])
        if S[i]["end"] != "none":
            yield dict(case, steps=S[:i] + [dict(S[i], end="none")] + S[i + 1:])
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
    for w in work.ALLKINDS[case["last"]["kind"]].shrink(case["last"]):
        yield dict(case, last=w)
    for i in range(len(S)):
        for w in work.ALLKINDS[S[i]["w"]["kind"]].shrink(S[i]["w"]):
            yield dict(case, steps=S[:i] + [dict(S[i], w=w)] + S[i + 1:])
        if S[i]["rng"] != ["uniform", 1, 0]:
            yield dict(case, steps=S[:i] + [dict(S[i], rng=["uniform", 1, 0])] + S[i + 1:])
        if S[i]["param"]:
            yield dict(case, steps=S[:i] + [dict(S[i], param=0)] + S[i + 1:])
