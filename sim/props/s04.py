"""S04: library calls in one process do not influence each other."""
import re
import lat, work
from clean import REAL, STUB
from engine import Violation
from fractions import Fraction as Fr

ID = "S04"
LEVEL = "exploration"
RULE = "2-8 calls of mainCountDriver and mainValuationDriver in one process, each with its own input, options and directory, some of them certain to fail, in half of the runs with one failing operation somewhere; non-trivial: at least two calls returned"
ASSUME = ["a call that ends the whole process (an infeasible system, an error the library answers with exit) ends the history, as it would in a fresh process"]

GOOD = ["count", "count", "ehrpoly", "taylor", "series", "genfun", "integrate", "integrate"]
BAD = ["option", "nofile", "nothing", "garbage", "cut", "ehrhart-rational", "ehrhart-polynomial-substitution", "help", "integrand"]
FAULTS = {"openr": ["emfile", "eacces", "eio"], "openw": ["emfile", "eacces", "eio"], "read": ["eio", "short"], "write": ["eio", "short"], "close": ["eio"],
          "system": ["t_fail", "t_killed", "t_notfound", "t_forkfail"], "unlink": ["eio"], "mkdir": ["eio"]}


def gen_call(R, tier):
    while True:
        w = work.KINDS[R.choice(GOOD)].gen(R, tier, small=True)
        w.pop("ask", None)                 # all calls share one standard input
        if "prog" not in w:                # the older program has no library entry point
            break
    c = dict(w=w)
    if R.random() < 0.3:
        c["bad"] = R.choice(BAD)
    return c


def gen(R, tier):
    calls = [gen_call(R, tier) for _ in range(R.choice([2, 3, 3, 4, 5, 8]))]
    if R.random() < 0.3:
        calls.append(dict(R.choice(calls)))
    fault = None
    if R.random() < 0.5:
        fault = [R.randrange(100000), R.randrange(100), R.choice([1, 500, 999, R.randrange(1000)])]
    return dict(calls=calls, rng=lat.gen_rng(R, 0.3), fault=fault)


def spec(c):
    """-> kind, files, arguments"""
    w = c["w"]
    K = work.KINDS[w["kind"]]
    files = dict(K.files(w))
    args = list(K.args(w))
    name = K.inname(w)
    b = c.get("bad")
    if b == "option":
        args.insert(0, "--no-such-option")
    elif b == "nofile":
        del files[name]
    elif b == "nothing":
        args = []
    elif b == "garbage":
        files[name] = "this is not a polyhedron\n"
    elif b == "cut":
        files[name] = files[name][:len(files[name]) // 2]
    elif b == "help":
        args = ["--help"]
    elif b == "ehrhart-rational":
        files["r.latte"] = "4 3\n1 -2 0\n0 1 0\n0 0 1\n1 0 -3\n"
        return "count", files, ["--ehrhart-polynomial", "r.latte"]
    elif b == "ehrhart-polynomial-substitution":
        args = ["--ehrhart-polynomial", "--polynomial"] + [a for a in args if a[:2] != "--" or a in ("--cdd", "--vrep")]
        return "count", files, args
    elif b == "integrand":
        files["f.txt"] = "[[1,[1,"
        return "integrate", files, ["--valuation=integrate", "--monomials=f.txt", name] if w["form"].startswith("hrep") else ["--valuation=nonsense", name]
    return K.prog, files, args


class Seg:
    def __init__(self, out):
        self.out, self.exit, self.sig, self.err = out, 0, 0, ""


def split(out):
    """-> [(text, end)] for each call that began; end is 'returned', 'threw' or None."""
    res = []
    for part in re.split(r"\n=== call \d+ begins\n", out)[1:]:
        m = re.search(r"\n=== call \d+ (returned|threw)\n", part)
        res.append((part[:m.start()] if m else part, m.group(1) if m else None))
    return res


def container(w, text):
    """What the call returned to its caller."""
    k = w["kind"]
    if k == "count":
        m = re.search(r"^=== number (-?\d+)$", text, re.M)
        want = work.KINDS[k].want(w)
        if not m or int(m.group(1)) != want:
            raise Violation("wrong-return", "returned number %s, exact %d" % (m and m.group(1), want))
    elif k == "ehrpoly":
        m = re.search(r"^=== ehrhart(.*)$", text, re.M)
        got = [Fr(x) for x in m.group(1).split()] if m else None
        want = [Fr(x) for x in lat.unpack(w["poly"]).ehrhart_poly()]
        strip = lambda v: v if not v or v[-1] else strip(v[:-1])
        if got is None or strip(got) != strip(want):
            raise Violation("wrong-return", "returned coefficients %s, exact %s" % (got, want))
    elif k == "integrate":
        got = re.findall(r"^=== value (\S+)$", text, re.M)
        want = work.KINDS[k].want(w)
        if not got or any(Fr(g) != want for g in got):
            raise Violation("wrong-return", "returned %s, exact %s" % (got, want))
    elif k == "genfun" and w["opts"][:1] not in (["file"], ["rem"]):  # in Maple form it has a file name of its own, which is not returned
        m = re.search(r"^=== file (.*)$", text, re.M)
        if not m or m.group(1) != work.KINDS[k].inname(w) + ".rat":
            raise Violation("wrong-return", "returned file name %r" % (m and m.group(1)))


def execute(case, ctx):
    ctx.returned = 0
    calls = case["calls"]

    def put():
        L = []
        for i, c in enumerate(calls):
            prog, files, args = spec(c)
            ctx.srv.mkdir("w/c%d" % i)
            for n, t in files.items():
                ctx.srv.put("w/c%d/%s" % (i, n), t)
            L.append("\t".join([prog, "c%d" % i] + args))
        ctx.srv.put("w/calls.txt", "\n".join(L) + "\n")
    put()
    q = dict(prog="libseq", args=["calls.txt"], cwd="w", rng=case["rng"], cpu=12)
    r = ctx.run([dict(q)])[0]
    judge(case, ctx, r, None)
    if case["fault"]:
        sel, which, param = case["fault"]
        ops = [o for o in r.oplist() if o[1] in FAULTS and "calls.txt" not in o[2]]
        faults = []
        if which % 10 == 0 and r.allocs:
            faults = [[sel % r.allocs, "alloc", 0]]
        elif ops:
            o = ops[sel % len(ops)]
            k = FAULTS[o[1]]
            faults = [[o[0], k[which % len(k)], param]]
        if faults:
            ctx.srv.reset()
            put()
            r = ctx.run([dict(q, faults=faults)])[0]
            judge(case, ctx, r, " | ".join(l for l in r.log.split("\n") if "!" in l or "alloc-fail" in l)[:200] or str(faults))


def judge(case, ctx, r, fault):
    calls = case["calls"]
    segs = split(r.out)
    story = lambda i: " ; ".join(" ".join([spec(c)[0]] + spec(c)[2]) + ("" if j == i else " [%s]" % segs[j][1]) for j, c in enumerate(calls[:i + 1])) + ("; fault: " + fault if fault else "")
    if r.hung():
        raise Violation("hang", story(len(segs) - 1))
    if r.sig in (11, 8, 7, 4):
        raise Violation("memory-fault", "signal %d; %s" % (r.sig, story(len(segs) - 1)))
    suspect = bool(fault)          # the failing operation may still lie ahead
    for i, (text, end) in enumerate(segs):
        c = calls[i]
        w = c["w"]
        K = work.KINDS[w["kind"]]
        bad = c.get("bad")
        if end == "returned" or (end is None and r.exit == 0 and r.sig == 0 and not bad):
            if bad:
                ctx.probes["bad call returned: " + bad] += 1
                continue
            try:
                K.verify(w, Seg(text), lambda n: ctx.srv.get("w/c%d/%s" % (i, n)))
                if end:
                    container(w, text)
            except Violation as v:
                raise Violation("influenced-" + v.klass, "call %d: %s; %s" % (i, v.detail[:250], story(i)))
            ctx.returned += 1
            ctx.probes[w["kind"]] += 1
            if end is None:
                ctx.probes["call ended the process with an answer"] += 1
            continue
        if bad:
            ctx.probes["bad call failed"] += 1
            if end is None and not (r.exit or r.sig):
                ctx.probes["bad call ended the process"] += 1
            continue
        if suspect:
            suspect = False
            ctx.probes["call hit by the fault"] += 1
            continue
        if work.external_crash(r):
            ctx.probes["external tool crashed (reported)"] += 1
            continue
        raise Violation("fail", "call %d %s (exit %d sig %d): %s: %s" % (i, end or "ended the process", r.exit, r.sig, story(i), r.err[-300:]))
    if len(segs) < len(calls) and not r.exit and not r.sig and segs and segs[-1][1] is not None:
        raise Violation("lost-calls", story(len(segs) - 1))


def nontrivial(case, ctx):
    return getattr(ctx, "returned", 0) > 1


def shrink(case):
    C = case["calls"]
    for i in range(len(C)):
        if len(C) > 1:
            yield dict(case, calls=C[:i] + C[i + 1:])
    if case["fault"]:
        yield dict(case, fault=None)
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
    for i, c in enumerate(C):
        for w in work.KINDS[c["w"]["kind"]].shrink(c["w"]):
            yield dict(case, calls=C[:i] + [dict(c, w=w)] + C[i + 1:])
