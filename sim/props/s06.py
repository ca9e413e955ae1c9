"""S06: exact volumes and integrals; damaged integrands are refused."""
import re
import clean, work
from engine import Violation

ID = "S06"
clean.make(globals(), ["integrate"],
           "random full-dimensional polytope x integrand (monomials, powers of linear forms, products of such, with repeated, zero and cancelling terms) x method x engines x adversarial draws; compared with exact rational integration over a triangulation; one run in eight with an integrand that was cut off, damaged or is in the wrong number of variables; non-trivial: at least one random draw or one child process")
_gen, _execute, _shrink = gen, execute, shrink


def damage(R, t):
    """A text that is certainly no integrand (t is one)."""
    k = R.choice(["cut", "cut", "entry", "letter", "bracket", "negative", "zero", "lines"])
    if k == "cut":
        return t[:R.randrange(len(t))]
    if k == "entry":              # one vector longer or shorter
        m = R.choice(list(re.finditer(r"\[(-?\d+(,-?\d+)*)\]", t)))
        v = m.group(1).split(",")
        v = v[1:] if len(v) > 1 and R.random() < 0.5 else v + [R.choice(["0", "1", "-2"])]
        return t[:m.start()] + "[" + ",".join(v) + "]" + t[m.end():]
    if k == "letter":
        m = R.choice(list(re.finditer(r"\d", t)))
        return t[:m.start()] + R.choice(["x", ".", "1.5", "*", ",", "1e3"]) + t[m.end():]
    if k == "bracket":
        m = R.choice(list(re.finditer(r"[][]", t)))
        return t[:m.start()] + R.choice(["", "[[", "]]", "("]) + t[m.end():]
    if k == "zero":
        m = R.choice(list(re.finditer(r"\[(-?\d+)(/\d+)?,\[", t)))
        return t[:m.start()] + "[%s/0,[" % m.group(1) + t[m.end():]
    if k == "negative":
        return t + R.choice(["]", ",", "x", "[", ",[1"])
    return ""


def spaced(R, t):
    return "".join((R.choice([" ", "  ", "\t"]) if R.random() < 0.2 and (c in "[],/" or i and t[i - 1] in "[],/") else "") + c for i, c in enumerate(t)) + R.choice(["", "", " "])


def gen(R, tier):
    c = _gen(R, tier)
    if "f" in c["w"] and not c["w"].get("ask"):
        K = work.KINDS["integrate"]
        t = K.ftext(c["w"])
        x = R.random()
        if x < 0.2:
            c["bad"] = damage(R, t)
        elif x < 0.3:
            c["spaced"] = spaced(R, t)
    return c


def execute(case, ctx):
    K = work.KINDS["integrate"]
    w = case["w"]
    if "spaced" in case:
        files = K.files(w)
        files["f.txt"] = case["spaced"] + "\n"
        work.run_clean(w, ctx, case["rng"], cpu=6, files=files)
        return
    if "bad" not in case:
        return _execute(case, ctx)
    files = K.files(w)
    files["f.txt"] = case["bad"] + "\n"
    for n, t in files.items():
        ctx.srv.put("w/" + n, t)
    r = ctx.run([dict(K.proc(w), rng=case["rng"], cpu=6)])[0]
    ctx.probes["damaged integrand"] += 1
    if r.hung():
        raise Violation("hang", "integrand %r; %s" % (case["bad"], K.args(w)))
    if r.sig in (11, 8, 7, 4):
        raise Violation("memory-fault", "signal %d; integrand %r; %s" % (r.sig, case["bad"], K.args(w)))
    if r.exit == 0 and r.sig == 0:
        raise Violation("bad-integrand-taken", "integrand %r in dimension %d taken, printed %s; %s" % (
            case["bad"], w["poly"]["d"], re.findall(r"^     Answer: (\S+)$", r.out, re.M), K.args(w)))


def shrink(case):
    if "bad" in case or "spaced" in case:
        for k in ("bad", "spaced"):
            if k in case:
                if case["rng"] != ["uniform", 1, 0]:
                    yield dict(case, rng=["uniform", 1, 0])
                if work.KINDS["integrate"].args(case["w"]) and case["w"]["opts"][2:]:
                    for i in range(2, len(case["w"]["opts"])):
                        o = case["w"]["opts"]
                        yield dict(case, w=dict(case["w"], opts=o[:i] + o[i + 1:]))
        return
    yield from _shrink(case)
