"""Workloads: one program run on one input, with an exact oracle for whatever it claims on success.

Every kind has gen(R, tier) -> w (JSON), files(w) -> {path: text}, proc(w) -> run description,
verify(w, r, get) -> raises Violation unless the outputs are right (called only when the program claims success),
probe(w) -> short label, shrink(w)."""
import re
from fractions import Fraction as Fr
import hilb
import lat
from engine import Violation
from formula import Bad, Fp, P61, Q, evaluate
from poly import Poly, gen_big, affine_lattice_nonempty, dot, gen_poly, interpolate

TRI = ["cdd", "cddlib", "delone", "topcom", "4ti2"]


def rng_field(R, n):
    return [R.randrange(2, P61 - 1) for _ in range(n)]


def common_opts(R, p, dual_ok=True, primal_ok=True, maxdet=True):
    """Options that every Barvinok-type computation shares."""
    o = []
    hard = p.hardness()
    if R.random() < 0.75:
        c = (["--dual"] if dual_ok else []) + (["--irrational-primal", "--irrational-all-primal"] if primal_ok else [])
        o.append(R.choice(c))
    if maxdet:
        r = R.random()
        if r < 0.5:
            o.append("--maxdet=%d" % R.choice([1, 2, 3, 5, 10, 100] + ([1000] if hard <= 30 else [])))
        elif r < 0.65 and hard <= (30 if p.d < 4 else 12):
            o.append("--no-decomposition")
    o += plumbing_opts(R)
    return o


def plumbing_opts(R):
    o = []
    if R.random() < 0.6:
        o.append("--triangulation=" + R.choice(TRI))
    if R.random() < 0.15:
        o.append("--triangulation-max-height=%d" % R.choice([2, 3, 10, 1000, 100000]))
    elif R.random() < 0.1:
        o.append("--triangulation-bias=%d" % R.choice([5, 50, 95]))
    if R.random() < 0.5:
        o.append("--dualization=" + R.choice(["cdd", "4ti2"]))
    if R.random() < 0.5:
        o.append("--compute-vertex-cones=" + R.choice(["cdd", "lrs", "4ti2"]))
    if R.random() < 0.3:
        o.append("--redundancy-check=" + R.choice(["cddlib", "full-cddlib", "none"]))
    if R.random() < 0.1:
        o.append("--smith-form=ilio")
    return o


FORMS = ["hrep", "hrep", "hrep-nn", "cddine", "hrep-nonl", "cddext", "vrep", "plus"]


def pick_form(R, p, forms=FORMS):
    form = R.choice(forms)
    if not lat.form_ok(p, form):
        form = "hrep"
    return form


class Base:
    name = None
    prog = "count"

    @staticmethod
    def stdin(w):
        return None

    @classmethod
    def files(cls, w):
        p = lat.unpack(w["poly"])
        return {cls.inname(w): lat.input_file(p, w["form"])[1]}

    @classmethod
    def args(cls, w):
        p = lat.unpack(w["poly"])
        if w.get("prog") == "ehrhart":
            return ["cdd"] * (w["form"] == "cddine") + list(w["opts"]) + [cls.inname(w)]
        return list(w["opts"]) + lat.file_args(p, w["form"], cls.inname(w))

    @classmethod
    def proc(cls, w):
        return dict(prog=w.get("prog", cls.prog), args=cls.args(w), cwd="w")

    @classmethod
    def inname(cls, w):
        return w.get("path") or lat.input_file(lat.unpack(w["poly"]), w["form"])[0]

    @classmethod
    def shrink(cls, w):
        for i in range(len(w.get("opts", []))):
            yield dict(w, opts=w["opts"][:i] + w["opts"][i + 1:])
        if w.get("form", "hrep") != "hrep":
            yield dict(w, form="hrep")
        if "path" in w:
            yield {k: v for k, v in w.items() if k != "path"}
        for q in lat.shrink_poly(w["poly"]):
            if lat.poly_ok(lat.unpack(q)) and lat.form_ok(lat.unpack(q), w.get("form", "hrep")) and cls.valid(dict(w, poly=q)):
                yield dict(w, poly=q)

    @staticmethod
    def valid(w):
        return True

    @staticmethod
    def may_refuse(w):
        """Input that the program may decline (loudly)."""
        return False

    @staticmethod
    def gave_up(w, r):
        """A run that used up its memory or time in the way its documentation warns of."""
        return False

    @staticmethod
    def outputs(w):
        """Files the program delivers as results (relative to its working directory)."""
        return []


class Count(Base):
    name = "count"

    @classmethod
    def gen(cls, R, tier, small=False):
        p = gen_big(R, gen_poly(R, dmax=3 if small else 4), 0.1)
        o = common_opts(R, p)
        if R.random() < 0.7:
            o.append(R.choice(["--polynomial", "--exponential", "--exponential"]))
        return dict(kind=cls.name, poly=lat.pack(p), form=pick_form(R, p), opts=o)

    @staticmethod
    def want(w):
        return lat.unpack(w["poly"]).count()

    @classmethod
    def verify(cls, w, r, get):
        want = cls.want(w)
        got = lat.last_int(r.out)
        if got != want and not (want == 0 and got is None):
            raise Violation("wrong-count", "printed %s, exact count is %d; %s" % (got, want, cls.args(w)))
        f = get("numOfLatticePoints")
        if f is None or f.strip() != str(want):
            raise Violation("wrong-file", "numOfLatticePoints says %r, exact count is %d; %s" % (f, want, cls.args(w)))

    @staticmethod
    def outputs(w):
        return ["numOfLatticePoints"]


class EhrPoly(Base):
    name = "ehrpoly"

    @classmethod
    def gen(cls, R, tier, small=False):
        def ok(p):
            return p.integral() and p.boxsize(p.dim()) <= 60000
        p = gen_poly(R, dmax=3 if small else 4, maxpts=300, want=ok)
        p = gen_big(R, p, mult=True)
        o = ["--ehrhart-polynomial"] + common_opts(R, p)
        return dict(kind=cls.name, poly=lat.pack(p), form=pick_form(R, p), opts=o)

    @staticmethod
    def valid(w):
        p = lat.unpack(w["poly"])
        return p.integral() and p.boxsize(p.dim()) <= 60000 and "--ehrhart-polynomial" in w["opts"]

    @classmethod
    def shrink(cls, w):
        for x in Base.shrink.__func__(cls, w):
            if cls.valid(x):
                yield x

    @classmethod
    def verify(cls, w, r, get):
        c = [Fr(x) for x in lat.unpack(w["poly"]).ehrhart_poly()]
        while c and c[-1] == 0:
            c.pop()
        got = None
        for line in r.out.split("\n"):
            if re.match(r"^ [+-] ", line):
                got = line
        if got is None:
            raise Violation("no-polynomial", "success, but no Ehrhart polynomial printed; %s" % (cls.args(w),))
        poly = {}
        for s, num, e in re.findall(r" ([+-]) (\d+(?:/\d+)?) \* t\^(\d+)", got):
            poly[int(e)] = Fr(num) * (1 if s == "+" else -1)
        want = {i: v for i, v in enumerate(c) if v}
        if poly != want:
            raise Violation("wrong-polynomial", "printed %r, exact %r; %s" % (got, {k: str(v) for k, v in want.items()}, cls.args(w)))


def old_ehrhart(R, p, w, number):
    """The same question for the older program `ehrhart'."""
    if R.random() < 0.2:
        w.update(prog="ehrhart", form=R.choice(["hrep", "hrep", "hrep-nn"]), opts=(["lrs"] if R.random() < 0.3 else []) + number)
        if R.random() < 0.3 and number and not p.eqs:
            w["form"] = "cddine"
    return w


class Taylor(Base):
    name = "taylor"

    @classmethod
    def gen(cls, R, tier, small=False):
        n = R.choice([1, 2, 3, 4, 5, 7])

        def ok(p):
            return p.boxsize(n) <= 60000 and affine_lattice_nonempty(p)
        p = gen_poly(R, dmax=3, maxpts=200, want=ok)
        p = gen_big(R, p)
        o = ["--ehrhart-taylor=%d" % n] + common_opts(R, p, primal_ok=False, maxdet=False)
        w = dict(kind=cls.name, poly=lat.pack(p), form=pick_form(R, p, ["hrep", "hrep-nn", "cddine", "vrep", "cddext", "plus", "phc", "dhc"]), opts=o, n=n)
        return old_ehrhart(R, p, w, [str(n)])

    @staticmethod
    def valid(w):
        p = lat.unpack(w["poly"])
        return p.boxsize(w["n"]) <= 60000 and affine_lattice_nonempty(p) and (w["opts"][-1:] == [str(w["n"])] if w.get("prog") else w["opts"] and w["opts"][0].startswith("--ehrhart-taylor"))

    @classmethod
    def shrink(cls, w):
        for x in Base.shrink.__func__(cls, w):
            if cls.valid(x):
                yield x

    @classmethod
    def verify(cls, w, r, get):
        p = lat.unpack(w["poly"])
        want = [1] + [p.count(t) for t in range(1, w["n"] + 1)]
        lines = [l for l in r.out.split("\n") if re.fullmatch(r"-?\d+(t\^-?\d+)?", l)]
        got = {}
        for l in lines:
            a, _, b = l.partition("t^")
            got[int(b or 0)] = int(a)
        if w["n"] == 1 and len(lines) == 1:
            got = {0: 1, 1: int(lines[0])} if "t^" not in lines[0] else got
        exp = {i: v for i, v in enumerate(want)}
        if {k: v for k, v in got.items() if v} != {k: v for k, v in exp.items() if v}:
            raise Violation("wrong-series", "printed %s, exact counts of the dilates %s; %s" % (lines, want, cls.args(w)))


def mod_series(p, t):
    """Ehr(t) mod P61: sum over all dilates, as h(t)/(1-t^D)^(d+1)."""
    D, d = p.denominator(), p.dim()
    n = D * (d + 1)
    c = [1] + [p.count(k) for k in range(1, n)]
    # h(t) = (1-t^D)^(d+1) * sum c_k t^k, of degree < n
    from math import comb
    h = [0] * n
    for k in range(n):
        for j in range(0, k // D + 1):
            h[k] += (-1) ** j * comb(d + 1, j) * c[k - j * D]
    num = 0
    for k in range(n - 1, -1, -1):
        num = (num * t + h[k]) % P61
    den = pow((1 - pow(t, D, P61)) % P61, d + 1, P61)
    return num * pow(den, P61 - 2, P61) % P61


class Series(Base):
    name = "series"

    @classmethod
    def gen(cls, R, tier, small=False):
        def ok(p):
            n = p.denominator() * (p.dim() + 1)
            return n <= 12 and p.boxsize(n) <= 60000 and affine_lattice_nonempty(p)
        p = gen_poly(R, dmax=3, maxpts=100, want=ok)
        o = ["--ehrhart-series"] + common_opts(R, p, primal_ok=False, maxdet=False)
        w = dict(kind=cls.name, poly=lat.pack(p), form=pick_form(R, p, ["hrep", "hrep-nn", "cddine", "vrep", "cddext"]), opts=o)
        return old_ehrhart(R, p, w, [])

    @staticmethod
    def valid(w):
        p = lat.unpack(w["poly"])
        n = p.denominator() * (p.dim() + 1)
        return n <= 12 and p.boxsize(n) <= 60000 and affine_lattice_nonempty(p) and ("--ehrhart-series" in w["opts"] or w.get("prog"))

    @classmethod
    def shrink(cls, w):
        for x in Base.shrink.__func__(cls, w):
            if cls.valid(x):
                yield x

    @classmethod
    def verify(cls, w, r, get):
        p = lat.unpack(w["poly"])
        f = get(cls.inname(w) + ".rat")
        if f is None:
            raise Violation("no-series", "success, but no %s.rat; %s" % (cls.inname(w), cls.args(w)))
        m = re.match(r"\s*x\s*:=(.*?)[:;]", f, re.S)
        for t in (987654321987654321, 31337):
            try:
                if not m:
                    raise Bad("no terminated assignment")
                got = evaluate(m.group(1), {"t": t}, Fp)
            except Bad as e:
                raise Violation("garbled-series", "%s; %s" % (e, cls.args(w)))
            if got != mod_series(p, t):
                raise Violation("wrong-series", "the rational function differs from the Ehrhart series at t=%d (mod 2^61-1); %s" % (t, cls.args(w)))

    @classmethod
    def outputs(cls, w):
        return [cls.inname(w) + ".rat"]


def mod_points(p, xs, t=1):
    tot = 0
    for q in p.points(t):
        v = 1
        for x, e in zip(xs, q):
            v = v * Fp.pw(x, e) % P61
        tot = (tot + v) % P61
    return tot


def cone_ok(p):
    return len(p.eqs) == 0 and p.dim() == p.d and sum(den(v) for v in p.vertices()) <= 14 and p.boxsize(sum(den(v) for v in p.vertices())) <= 30000


def den(v):
    l = 1
    for c in v:
        l = l * c.denominator // hilb.gcd(l, c.denominator)
    return l


def mod_cone(p, xs):
    """The generating function of the cone over the polytope: N / prod(1 - t^k x^(k v)) over the vertices v with denominators k,
    where the degree of N in t is less than that of the denominator."""
    t, xs = xs[-1], xs[:-1]
    V = [(den(v), v) for v in p.vertices()]
    n = sum(k for k, _ in V)
    D = [1] + [0] * n              # the denominator, by powers of t
    for k, v in V:
        m = 1
        for x, c in zip(xs, v):
            m = m * Fp.pw(x, int(c * k)) % P61
        for i in range(n, k - 1, -1):
            D[i] = (D[i] - m * D[i - k]) % P61
    c = [1] + [mod_points(p, xs, k) for k in range(1, n)]
    num = 0
    for i in range(n):
        num = (num + sum(c[j] * D[i - j] for j in range(i + 1)) % P61 * pow(t, i, P61)) % P61
    d = sum(D[i] * pow(t, i, P61) for i in range(n + 1)) % P61
    return num * pow(d, P61 - 2, P61) % P61


class GenFun(Base):
    name = "genfun"

    @classmethod
    def gen(cls, R, tier, small=False):
        p = gen_poly(R, dmax=3 if small else 4, maxpts=400)
        r = R.random()
        way = "maple" if r < 0.15 else "homog" if r < 0.3 else ""
        if way == "maple":
            p = gen_poly(R, dmax=3, maxpts=400, want=lambda p: not p.eqs)
            o = [R.choice(["file", "rem"])] + common_opts(R, p, maxdet=False)
        elif way == "homog":
            p = gen_poly(R, dmax=3, maxpts=100, want=cone_ok)
            o = ["--multivariate-generating-function", "--homog"] + common_opts(R, p, primal_ok=False)
        else:
            o = ["--multivariate-generating-function"] + common_opts(R, p)
        return dict(kind=cls.name, poly=lat.pack(p), form=pick_form(R, p, ["hrep", "hrep-nn", "cddine", "cddext", "vrep"]), opts=o)

    @staticmethod
    def valid(w):
        p = lat.unpack(w["poly"])
        if w["opts"][:1] in (["file"], ["rem"]):
            return not p.eqs
        if "--homog" in w["opts"] and not cone_ok(p):
            return False
        return "--multivariate-generating-function" in w["opts"]

    @classmethod
    def shrink(cls, w):
        for x in Base.shrink.__func__(cls, w):
            if cls.valid(x):
                yield x

    @classmethod
    def verify(cls, w, r, get):
        p = lat.unpack(w["poly"])
        file, = cls.outputs(w)
        f = get(file)
        if file.endswith(".maple"):
            Count.verify(w, r, get)
            if f is None and p.count() == 0:
                return
            if f is not None:
                m = re.fullmatch(r"gF:=(.*);\s*", f, re.S)
                if not m:
                    raise Violation("garbled-genfun", "no complete assignment in %r; %s" % (f[-80:], cls.args(w)))
                f = m.group(1)
        if f is None:
            if p.count() == 0:
                return
            raise Violation("no-genfun", "success, but no %s; %s" % (file, cls.args(w)))
        xs = [(1000003 * (i + 2) ** 7 + 12345) % P61 for i in range(p.d + ("--homog" in w["opts"]))]
        want = mod_cone(p, xs) if "--homog" in w["opts"] else mod_points(p, xs)
        if not f.strip() and want == 0:
            return
        try:
            got = evaluate(f, {"x[%d]" % i: x for i, x in enumerate(xs)}, Fp)
        except Bad as e:
            raise Violation("garbled-genfun", "%s in %r; %s" % (e, f[-80:], cls.args(w)))
        if got != want:
            raise Violation("wrong-genfun", "the generating function does not represent the %d lattice points; %s" % (p.count(), cls.args(w)))

    @classmethod
    def outputs(cls, w):
        return [cls.inname(w) + (".maple" if w["opts"][:1] in (["file"], ["rem"]) else ".rat")]


def frs(v):
    v = Fr(v)
    return str(v.numerator) if v.denominator == 1 else "%d/%d" % (v.numerator, v.denominator)


class Integrate(Base):
    name = "integrate"
    prog = "integrate"

    @classmethod
    def gen(cls, R, tier, small=False):
        p = gen_poly(R, dmax=3, maxpts=1500, want=lambda p: not p.eqs and p.dim() == p.d and p.d <= 4)
        p = gen_big(R, p)
        d = p.d
        what = R.choice(["volume", "monomials", "monomials", "linear-forms", "linear-forms", "product-linear-forms"])
        w = dict(kind=cls.name, poly=lat.pack(p), form=pick_form(R, p, ["hrep", "hrep-nn", "cddine", "vrep", "cddext", "hrep-nonl"]), what=what)
        o = ["--valuation=volume"] if what == "volume" else ["--valuation=integrate", "--%s=f.txt" % what]
        m = R.choice(["", "--triangulate", "--cone-decompose", "--triangulate", "--cone-decompose", "--all"])
        if m:
            o.append(m)
        if what == "monomials" and R.random() < 0.5:
            o.append("--polynomial-as-plf")
        coef = lambda: [R.choice([1, -1, 1, 2, -3, 5, 10 ** 12 + 39, 10 ** 25 + 13]), R.choice([1, 1, 1, 2, 3, 7, 2 ** 70 + 1])]
        if what == "monomials":
            w["f"] = [[coef(), [R.choice([0, 0, 1, 1, 2, 3]) for _ in range(d)]] for _ in range(R.randint(1, 3))]
        elif what == "linear-forms":
            w["f"] = [[coef(), R.choice([0, 1, 2, 3, 5]), [R.randint(-3, 3) for _ in range(d)]] for _ in range(R.randint(1, 3))]
        elif what == "product-linear-forms":
            w["f"] = [[coef(), [[R.choice([0, 1, 1, 2]), [R.randint(-2, 3) for _ in range(d)]] for _ in range(R.randint(1, 3))]] for _ in range(R.randint(1, 2))]
        if "f" in w and R.random() < 0.1:
            t = R.choice(w["f"])
            w["f"].insert(R.randint(0, len(w["f"])), [[-t[0][0] * R.choice([0, 1, 1, 2]), t[0][1]]] + t[1:])
        w["opts"] = o + plumbing_opts(R)
        if "f" in w and R.random() < 0.08:
            w["ask"] = True                    # the integrand is asked for
        return w

    @classmethod
    def files(cls, w):
        f = Base.files.__func__(cls, w)
        if "f" in w:
            f["f.txt"] = cls.ftext(w) + "\n"
        return f

    @classmethod
    def args(cls, w):
        return [a for a in Base.args.__func__(cls, w) if not (w.get("ask") and a.endswith("=f.txt"))]

    @classmethod
    def proc(cls, w):
        q = Base.proc.__func__(cls, w)
        if w.get("ask"):
            q["stdin"] = {"monomials": "p", "linear-forms": "l", "product-linear-forms": "d"}[w["what"]] + "\n" + cls.ftext(w) + "\n"
        return q

    @staticmethod
    def ftext(w):
        L = lambda v: "[" + ",".join(map(str, v)) + "]"
        T = []
        for t in w["f"]:
            c = frs(Fr(*t[0]))
            if w["what"] == "monomials":
                T.append("[%s,%s]" % (c, L(t[1])))
            elif w["what"] == "linear-forms":
                T.append("[%s,[%d,%s]]" % (c, t[1], L(t[2])))
            else:
                T.append("[%s,[%s]]" % (c, ",".join("[%d,%s]" % (m, L(l)) for m, l in t[1])))
        return "[" + ",".join(T) + "]"

    @staticmethod
    def want(w):
        p = lat.unpack(w["poly"])
        if w["what"] == "volume":
            return p.volume()
        tot = Fr(0)
        for t in w["f"]:
            c = Fr(*t[0])
            if w["what"] == "monomials":
                tot += c * p.int_poly({tuple(t[1]): 1})
            elif w["what"] == "linear-forms":
                tot += c * p.int_linpow(t[2], t[1])
            else:
                tot += c * p.int_prodlin([(tuple(l), m) for m, l in t[1]])
        return tot

    @classmethod
    def verify(cls, w, r, get):
        want = cls.want(w)
        got = re.findall(r"^     Answer: (\S+)$", r.out, re.M)
        if not got:
            raise Violation("no-answer", "success, but no answer printed; %s" % (cls.args(w),))
        for g in got:
            if Fr(g) != want:
                raise Violation("wrong-integral", "printed %s, exact %s; %s %s" % (got, want, cls.args(w), w.get("f") and cls.ftext(w)))
        dec = re.findall(r"^     Decimal: (\S+)$", r.out, re.M)
        for g in dec:
            x = Fr(g) if re.fullmatch(r"-?[\d.]+(e[+-]?\d+)?", g) else None
            if x is None or abs(x - want) > Fr(1, 10 ** 5) * max(1, abs(want)):
                raise Violation("wrong-decimal", "printed decimal %s, exact %s; %s" % (g, want, cls.args(w)))

    @classmethod
    def shrink(cls, w):
        if "ask" in w:
            yield {k: v for k, v in w.items() if k != "ask"}
        if "f" in w:
            for i in range(len(w["f"])):
                if len(w["f"]) > 1:
                    yield dict(w, f=w["f"][:i] + w["f"][i + 1:])
                if w["f"][i][0] != [1, 1]:
                    yield dict(w, f=w["f"][:i] + [[[1, 1]] + w["f"][i][1:]] + w["f"][i + 1:])
        for x in Base.shrink.__func__(cls, w):
            p = lat.unpack(x["poly"])
            if not any(o.startswith("--valuation") for o in x["opts"]) or ("f" in w and not any("f.txt" in o for o in x["opts"])):
                continue
            if p.eqs or p.d != w["poly"]["d"] or p.dim() < p.d:
                continue
            yield x


class Optimize(Base):
    name = "optimize"

    @classmethod
    def gen(cls, R, tier, small=False):
        deep = R.random() < 0.3  # many terms cancel before the optimum is reached
        p = gen_poly(R, dmax=3, maxpts=300, kinds=["knap"] if deep else None, want=lambda p: p.d <= 4)
        if p.integral():  # the optimum of a large dilate is that of its vertices
            p = gen_big(R, p)
        w = dict(kind=cls.name, poly=lat.pack(p), form="hrep", opts=[], sense=R.choice(["max", "min"]),
                 cost=[R.choice([-1, 1]) * R.randint(1, 99) if deep else R.choice([0, 1, -1, 2, 3, -5, 17, -47, 61]) for _ in range(p.d)])
        face = R.random() < 0.3
        if face:  # the optimum is attained on a whole face, or everywhere
            k = R.choice([1, 1, -1, 3])
            w["cost"] = [k * v for v in R.choice(p.ineqs + p.eqs * 2)[1:]]
        if R.random() < (0.6 if face else 0.25):
            w["opts"] = ["bbs"]
        if R.random() < 0.4:
            w["form"] = R.choice(["hrep-nn"] + ["cddine"] * (0 if p.eqs else 3))
        elif R.random() < 0.3:
            w["opts"] = w["opts"] + [R.choice(["lrs", "memsave"])]
        if "bbs" not in w["opts"] and R.random() < 0.25:
            w["opts"] = w["opts"] + ["single"]
        if not p.eqs and "k" not in w["poly"] and p.boxsize(3) <= 20000 and R.random() < 0.25:
            w["dil"] = R.choice([2, 2, 3])
        return w

    @staticmethod
    def may_refuse(w):
        return "single" in w["opts"]            # zero products

    @staticmethod
    def gave_up(w, r):
        n = re.findall(r"Digging \[(\d+)\]", r.out[-4000:] + r.err[-4000:])
        if "single" in w["opts"] and "make em dig" in r.out[-4000:] + r.err[-4000:] and (r.hung() or r.sig == 25 or "bad_alloc" in r.err):
            return True                         # there may be no lattice point at all
        return "bbs" not in w["opts"] and bool(n) and int(n[-1]) > 1000 and (r.hung() or "bad_alloc" in r.err)

    @classmethod
    def args(cls, w):
        return list(w["opts"]) + (["cdd"] if w["form"] == "cddine" else []) + (["dil", str(w["dil"])] if "dil" in w else []) + [cls.inname(w)]

    @classmethod
    def proc(cls, w):
        return dict(prog="latte-maximize" if w["sense"] == "max" else "latte-minimize", args=cls.args(w), cwd="w")

    @classmethod
    def files(cls, w):
        f = Base.files.__func__(cls, w)
        f[cls.inname(w) + ".cost"] = "1 %d\n%s\n" % (len(w["cost"]), " ".join(map(str, w["cost"])))
        return f

    @classmethod
    def shrink(cls, w):
        if "dil" in w:
            yield {k: v for k, v in w.items() if k != "dil"}
        for j, c in enumerate(w["cost"]):
            if c not in (0, 1):
                yield dict(w, cost=w["cost"][:j] + [1] + w["cost"][j + 1:])
        for x in Base.shrink.__func__(cls, w):
            if x["poly"]["d"] == len(w["cost"]):
                yield x

    @classmethod
    def check_lp(cls, w, p, pick, text):
        """The optimum of the relaxation, printed as decimals, and the vertex that attains it."""
        lp = pick(dot(w["cost"], v) for v in p.vertices())
        sign = -1 if "bbs" in w["opts"] and w["sense"] == "min" else 1        # binary search maximizes the negated costs
        near = lambda x, y, scale: abs(x - y) <= Fr(1, 10 ** 6) * (1 + abs(y)) + scale * Fr(1, 10 ** 9)
        big = sum(abs(c * x) for v in p.vertices() for c, x in zip(w["cost"], v))
        for t in re.findall(r"The (?:LP optimal value is|optimal value for LP relax\.): *(\S+)", text):
            if not near(Fr(t) * sign, lp, big):
                raise Violation("wrong-relaxation", "%s printed %s as the optimum of the relaxation, exact %s; cost %s %s" % (w["sense"], t, lp, w["cost"], w["opts"]))
        for t in re.findall(r"The gap is: *(\S+)", text):
            m = re.findall(r"The optimal value is: *(-?\d+)", text)
            if m and not near(Fr(t), abs(lp - int(m[-1])), big):
                raise Violation("wrong-gap", "%s printed the gap %s, exact %s; cost %s %s" % (w["sense"], t, abs(lp - int(m[-1])), w["cost"], w["opts"]))
        for t in re.findall(r"A vertex which we found via LP is: *\[(.*?)\]", text):
            x = [Fr(v) for v in t.split()]
            if not any(len(x) == len(v) and all(near(a, b, max(map(abs, v))) for a, b in zip(x, v)) and dot(w["cost"], v) == lp for v in p.vertices()):
                raise Violation("wrong-vertex", "%s: [%s] is not an optimal vertex; cost %s %s" % (w["sense"], t, w["cost"], w["opts"]))

    @classmethod
    def verify(cls, w, r, get):
        p = lat.unpack(w["poly"])
        if "dil" in w:
            p = Poly(p.d, [(r[0] * w["dil"],) + r[1:] for r in p.ineqs], [(r[0] * w["dil"],) + r[1:] for r in p.eqs])
        pick = max if w["sense"] == "max" else min
        if "k" in w["poly"]:
            best = pick(dot(w["cost"], v) for v in p.base.vertices())
            mult = lambda: Poly(p.d, p.base.ineqs, p.base.eqs + ([(-best.numerator,) + tuple(w["cost"])] if any(w["cost"]) else [])).quasi(p.k)
            vals, top = True, best * p.k
            attains = lambda x: dot(w["cost"], x) == top and all(q[0] + dot(q[1:], x) >= 0 for q in p.ineqs) and all(q[0] + dot(q[1:], x) == 0 for q in p.eqs)
        else:
            vals = [(dot(w["cost"], q), q) for q in p.points()]
            top = pick(v for v, _ in vals) if vals else None
            mult = lambda: sum(1 for v, _ in vals if v == top)
            attains = lambda x: (top, x) in vals
        text = r.err + r.out
        m = re.findall(r"The optimal value(?: is)?: *(-?\d+)", text)
        n = re.findall(r"^(?:The number of optimal solutions: *)?(-?\d+)\nTime:", text, re.M)
        if not vals:
            if m and n[-1:] != ["0"]:
                raise Violation("phantom-optimum", "no lattice point, but optimal value %s; %s" % (m, w["opts"]))
            return
        if not m:
            raise Violation("no-optimum", "success, but no optimal value; %s %s" % (w["sense"], w["opts"]))
        cls.check_lp(w, p, pick, text)
        if int(m[-1]) != top:
            raise Violation("wrong-optimum", "%s printed %s, exact %d; cost %s %s" % (w["sense"], m[-1], top, w["cost"], w["opts"]))
        if "bbs" in w["opts"]:
            k = mult()
            if not n or int(n[-1]) != k:
                raise Violation("wrong-multiplicity", "%s printed %s optimal solutions, exact %d; cost %s" % (w["sense"], n, k, w["cost"]))
        s = re.findall(r"optimal solution for *\[.*?\] is: *\[(.*?)\]", text)
        for t in s:
            x = tuple(int(v) for v in t.split())
            if not attains(x):
                raise Violation("wrong-solution", "%s: %s is not an optimal lattice point; cost %s %s" % (w["sense"], x, w["cost"], w["opts"]))


class Interp(Base):
    """ehrhart3: the polynomial through given values."""
    name = "interp"

    @classmethod
    def gen(cls, R, tier, small=False):
        n = R.randint(0, 7)
        c = [1] + [R.choice([0, 1, -1, 2, R.randint(-99, 99), R.randint(-10 ** 20, 10 ** 20)]) for _ in range(n)]
        den = [1] + [R.choice([1, 1, 2, 3, 24, 5040]) for _ in range(n)]
        for _ in range(R.choice([0, 0, 0, 1])):  # the given degree may be too large
            c.append(0)
            den.append(1)
        return dict(kind=cls.name, c=c, den=den, opts=[], sep=R.choice([" ", "\n"]))

    @staticmethod
    def coef(w):
        return [Fr(a, b) for a, b in zip(w["c"], w["den"])]

    @classmethod
    def files(cls, w):
        return {"in.values": cls.stdin(w)}

    @classmethod
    def stdin(cls, w):
        c = cls.coef(w)
        vals = [sum(a * t ** i for i, a in enumerate(c)) for t in range(len(c))]
        return w["sep"].join([str(len(c) - 1)] + [frs(v) for v in vals]) + "\n"

    @classmethod
    def proc(cls, w):
        return dict(prog="ehrhart3", args=[], cwd="w", stdin=cls.stdin(w))

    @staticmethod
    def read(text, what):
        poly = {}
        for num, e in re.findall(r"([+-]? *-?\d+(?:/\d+)?) *\* *t\^(\d+)", text):
            poly[int(e)] = Fr(num.replace(" ", "").replace("+", ""))
        return poly

    @classmethod
    def verify(cls, w, r, get):
        want = dict(enumerate(cls.coef(w)))
        neg = sum(1 for i, v in want.items() if v < 0)
        line = [l for l in r.out.split("\n") if l.startswith(" + ")]
        got = cls.read(line[0], "") if line and line[0].endswith(" + 1") else None
        if got is None or dict(got) != {i: v for i, v in want.items() if i}:
            raise Violation("wrong-polynomial", "ehrhart3 printed %r, exact %s" % (line, [str(v) for v in want.values()]))
        m = re.findall(r"negative coefficients: (\d+)", r.out)
        if m != [str(neg)]:
            raise Violation("wrong-number", "ehrhart3 printed %s negative coefficients, exact %d" % (m, neg))
        t = get("ehrhart3.mapleCommands.txt")
        m = re.search(r"p := (.*):\n", t or "")
        if not m or cls.read(m.group(1), "") != want or "fsolve" not in t or not t.endswith("od:\n"):
            raise Violation("wrong-file", "ehrhart3.mapleCommands.txt says %r" % t)
        t = get("ehrhart3.matlabCommands.txt")
        m = re.search(r"p = sym\('(\S+)'\)", t or "")
        if not m or Fr(m.group(1)) != want[0] or cls.read(t, "") != {i: v for i, v in want.items() if i} or not t.endswith("exit\n"):
            raise Violation("wrong-file", "ehrhart3.matlabCommands.txt says %r" % t)

    @classmethod
    def outputs(cls, w):
        return ["ehrhart3.mapleCommands.txt", "ehrhart3.matlabCommands.txt"]

    @classmethod
    def shrink(cls, w):
        for i in range(1, len(w["c"])):
            yield dict(w, c=w["c"][:i] + w["c"][i + 1:], den=w["den"][:i] + w["den"][i + 1:])
            if w["den"][i] != 1:
                yield dict(w, den=w["den"][:i] + [1] + w["den"][i + 1:])
            for x in {0, 1, w["c"][i] // 10}:
                if abs(x) < abs(w["c"][i]):
                    yield dict(w, c=w["c"][:i] + [x] + w["c"][i + 1:])


class Ways:
    """Number of ways to pay t with two or three coins."""

    def __init__(self, a):
        self.a = sorted(a)

    def __getitem__(self, t):
        return self.two(*self.a[:2], t) if len(self.a) == 2 else sum(self.two(*self.a[:2], s) for s in range(t, -1, -self.a[2]))

    @staticmethod
    def two(a, b, t):
        from math import gcd
        g = gcd(a, b)
        if t < 0 or t % g:
            return 0
        a, b, t = a // g, b // g, t // g
        y = t * pow(b, -1, a) % a if a > 1 else 0  # smallest number of b's
        return (t // b - y) // a + 1 if t >= b * y else 0


class TopKnap(Base):
    name = "topknap"

    @staticmethod
    def may_refuse(w):
        from math import gcd
        return gcd(*w["a"]) != 1

    @classmethod
    def gen(cls, R, tier, small=False):
        n = R.choice([2, 3, 3, 3, 4, 4, 5])
        hi = {2: 20, 3: 14, 4: 9, 5: 6}[n]
        a = [R.randint(1, hi) for _ in range(n)]
        if R.random() < 0.2:  # few large numbers
            n = R.choice([2, 3])
            a = [R.randint(1, R.choice([100, 10 ** 4, 10 ** 6])) for _ in range(2)] if n == 2 else [R.randint(10, 60) for _ in range(3)]
        k = R.randint(1, n)
        o = R.choice([["-k", str(k)], ["--all-k", str(k)]])
        if R.random() < 0.4:
            o += ["--gcd-polynomial", R.choice("01")]
        if R.random() < 0.3:
            o += ["--random", str(R.choice([-1, 1, 7, 99999]))]
        save = R.random() < 0.4
        return dict(kind=cls.name, a=a, k=k, opts=o, out=save)

    @classmethod
    def files(cls, w):
        return {"in.knap": "%d\n%s\n" % (len(w["a"]), " ".join(map(str, w["a"])))}

    @classmethod
    def proc(cls, w):
        return dict(prog="top-ehrhart-knapsack", args=list(w["opts"]) + (["-o", "out.mpl"] if w["out"] else []) + ["-f", "in.knap"], cwd="w")

    @staticmethod
    def reference(a):
        """coefficient functions E_i on every residue class mod L: {r: [coefficients of 1, t, ..]}"""
        from math import gcd, lcm
        L = 1
        for x in a:
            L = lcm(L, x)
        N = len(a) - 1
        if L > 3000:
            return L, N, Ways(a)
        top = L * (N + 1)
        c = [0] * (top + 1)
        c[0] = 1
        for x in a:
            for t in range(x, top + 1):
                c[t] += c[t - x]
        return L, N, c

    @classmethod
    def verify(cls, w, r, get):
        text = get("out.mpl") if w["out"] else r.out
        if text is None:
            raise Violation("no-answer", "success, but no answer file")
        N = len(w["a"]) - 1
        L, N, c = cls.reference(w["a"])
        allk = "--all-k" in w["opts"]
        wanted = range(0, w["k"]) if allk else [w["k"] - 1]
        import random
        rs = sorted({0, 1, L - 1} | {random.Random(L + i).randrange(L) for i in range(10)})
        ref = {}
        for res in rs:
            ref[res] = interpolate([(res + L * j, Fr(c[res + L * j])) for j in range(N + 1)])
        for i in wanted:
            m = re.search(r"coeff%dminus%d:= (.*?);" % (N, i), text)
            if not m:
                raise Violation("no-coefficient", "success, but coefficient T^%d is missing; a=%s %s" % (N - i, w["a"], w["opts"]))
            for res in rs:
                if res >= L:
                    continue
                try:
                    got = evaluate(m.group(1), {"t": Fr(res)}, Q)
                except Bad as e:
                    raise Violation("garbled-coefficient", "%s; a=%s" % (e, w["a"]))
                want = (list(ref[res]) + [Fr(0)] * (N + 1))[N - i]
                if got != want:
                    raise Violation("wrong-coefficient", "a=%s: coefficient of T^%d at t=%d is %s, exact %s; %s" % (w["a"], N - i, res, got, want, w["opts"]))
        if allk and not re.search(r"topKPolynomial:=.*;", text):
            raise Violation("no-polynomial", "success, but the polynomial line is missing; a=%s" % w["a"])

    @classmethod
    def outputs(cls, w):
        return ["out.mpl"] if w["out"] else []

    @classmethod
    def shrink(cls, w):
        for i in range(len(w["a"])):
            if len(w["a"]) > 2 and w["k"] <= len(w["a"]) - 1:
                yield dict(w, a=w["a"][:i] + w["a"][i + 1:])
            if w["a"][i] > 1:
                yield dict(w, a=w["a"][:i] + [w["a"][i] - 1] + w["a"][i + 1:])
        if len(w["opts"]) > 2:
            yield dict(w, opts=w["opts"][:2])


class Hilbert(Base):
    """hilbert-from-rays on one cone."""
    name = "hilbert"
    prog = "hilbert-from-rays"
    TRI = ["4ti2", "4ti2", "cddlib", "cdd", "topcom", "delone"]

    @staticmethod
    def lower(w):
        return len(w["cone"]["emb"]) > w["cone"]["k"]

    @classmethod
    def may_refuse(cls, w):
        """Some engines decline cones that are not full-dimensional."""
        return cls.lower(w) and (any(o in ("--triangulation=" + t for t in ("cdd", "cddlib", "delone")) for o in w["opts"]) or len(w["cone"]["core"]) >= len(w["cone"]["emb"]))

    @classmethod
    def gen_opts(cls, R, c):
        o = []
        if R.random() < 0.6:
            # cdd's retries never end on cones that are not full-dimensional
            o.append("--triangulation=" + R.choice([t for t in cls.TRI if t != "cdd" or len(c["emb"]) == c["k"]]))
        if R.random() < 0.5:
            o.append("--dualization=" + R.choice(["cdd", "4ti2"]))
        if R.random() < 0.3:
            o.append("--max-facets=%d" % R.choice([2, 3, 4, 5, 6, 8]))
        if R.random() < 0.35:
            o.append("--max-determinant-for-enumeration=%d" % R.choice([0, 1, 2, 3, 5, 10, 1000]))
        if R.random() < 0.4:
            o.append("--zsolve-time-limit=%d" % R.choice([1, 1, 2, 10]))
        if R.random() < 0.2:
            o.append("--no-triang-file")
        if R.random() < 0.2:
            o.append("--no-initial-triangulation")
        if R.random() < 0.2:
            o.append("--quiet")
        if R.random() < 0.1:
            o.append("--triangulation-max-height=%d" % R.choice([2, 3, 10, 1000]))
        if R.random() < 0.1:
            o.append("--triangulation-pull-rays=" + ",".join(map(str, R.sample(range(1, len(c["core"]) + 1), R.choice([1, 1, 2])))))
        elif R.random() < 0.1:
            o.append("--triangulation-height-vector=h.mat")
        if R.random() < 0.1:
            o.append("--output-subcones=out.subcones")
        return o

    @classmethod
    def gen(cls, R, tier, small=False):
        c = hilb.gen_cone(R, dmax=3 if small and R.random() < 0.6 else 4)
        return dict(kind=cls.name, cone=c, opts=cls.gen_opts(R, c), form=R.choice(["rays", "tra", "ext"]), heights=[R.choice([0, 1, 2, 3, 5, 8, 100]) for _ in c["core"]])

    @staticmethod
    def inname(w):
        return "in." + w["form"]

    @classmethod
    def files(cls, w):
        rays = hilb.rays_of(w["cone"])
        d = len(rays[0])
        f = {}
        if w["form"] == "ext":
            f["in.ext"] = "V-representation\nbegin\n%d %d integer\n" % (len(rays), d + 1) + "".join("0 " + " ".join(map(str, r)) + "\n" for r in rays) + "end\n"
        else:
            f["in." + w["form"]] = "%d %d\n" % (len(rays), d) + "".join(" ".join(map(str, r)) + "\n" for r in rays)
        f["h.mat"] = "1 %d\n%s\n" % (len(rays), " ".join(map(str, w["heights"])))
        return f

    @classmethod
    def args(cls, w):
        return list(w["opts"]) + [cls.inname(w)]

    @classmethod
    def outputs(cls, w):
        return [cls.inname(w) + ".hil"]

    @classmethod
    def verify(cls, w, r, get):
        cls.check_hil(w["cone"], [get(cls.inname(w) + ".hil")], [cls.inname(w) + ".hil"])

    @staticmethod
    def parse_matrix(text, name):
        if text is None:
            raise Violation("no-basis", "%s was not written" % name)
        rows = [l.split() for l in text.split("\n") if l.strip()]
        try:
            n, d = map(int, rows[0])
            m = [tuple(map(int, x)) for x in rows[1:]]
        except (ValueError, IndexError):
            raise Violation("bad-file", "%s is not a matrix: %r" % (name, text[:200]))
        if n != len(m) or any(len(x) != d for x in m):
            raise Violation("bad-file", "%s announces %d x %d and holds %d rows" % (name, n, d, len(m)))
        return d, m

    @classmethod
    def check_hil(cls, c, texts, names, sub=None):
        """rays + all vectors: contains the Hilbert basis, and nothing outside the cone."""
        have = set(hilb.rays_of(c))
        test = hilb.member(c)
        for t, n in zip(texts, names):
            d, m = cls.parse_matrix(t, n)
            if d != len(c["emb"]):
                raise Violation("bad-file", "%s has dimension %d instead of %d" % (n, d, len(c["emb"])))
            if len(set(m)) != len(m):
                raise Violation("duplicate-vector", "%s repeats a vector" % n)
            for v in m:
                if not test(v):
                    raise Violation("outside-cone", "%s in %s is not in the cone %s" % (v, n, hilb.rays_of(c)))
            have |= set(m)
        want = hilb.basis_of(c)
        for v in want:
            if v not in have:
                raise Violation("basis-incomplete", "%s is missing; cone %s" % (v, hilb.rays_of(c)))

    @classmethod
    def shrink(cls, w):
        for i in range(len(w["opts"])):
            yield dict(w, opts=w["opts"][:i] + w["opts"][i + 1:])
        if w["form"] != "rays":
            yield dict(w, form="rays")
        for c in shrink_cone(w["cone"]):
            if len(c["core"]) == len(w["cone"]["core"]) or not any("pull" in o for o in w["opts"]):
                yield dict(w, cone=c, heights=w["heights"][:len(c["core"])])


def shrink_cone(c):
    if len(c["emb"]) != c["k"] or c["emb"] != [[1 if i == j else 0 for j in range(c["k"])] for i in range(c["k"])]:
        yield dict(c, emb=[[1 if i == j else 0 for j in range(c["k"])] for i in range(c["k"])])

    def ok(core):
        core = [hilb.prim(r) for r in core]
        if len(set(core)) != len(core) or any(not any(r) for r in core) or len(core) < c["k"] or hilb.rank(core) < c["k"] or not hilb.pointed(core):
            return None
        if not c.get("redundant") and len(hilb.extreme(core)) != len(core):
            return None
        return dict(c, core=[list(r) for r in core])
    core = c["core"]
    for i in range(len(core)):
        q = ok(core[:i] + core[i + 1:])
        if q:
            yield q
    for i in range(len(core)):
        for j in range(c["k"]):
            for x in {0, core[i][j] // 2, core[i][j] - (1 if core[i][j] > 0 else -1)}:
                if x != core[i][j] and abs(x) < abs(core[i][j]):
                    q = ok(core[:i] + [core[i][:j] + [x] + core[i][j + 1:]] + core[i + 1:])
                    if q:
                        yield q


KINDS = {c.name: c for c in (Count, EhrPoly, Taylor, Series, GenFun, Integrate, Optimize, TopKnap, Interp)}
EXTRA_KINDS = {Hilbert.name: Hilbert}
ALLKINDS = dict(KINDS, **EXTRA_KINDS)
ALL = sorted(ALLKINDS)


def name_inputs(K):
    """Some input files lie in another directory, or have names that a shell would not leave alone."""
    plain = K.gen.__func__

    def gen(cls, R, tier, small=False):
        w = plain(cls, R, tier, small)
        if "poly" in w and R.random() < 0.15:
            w["path"] = R.choice(lat.PATHS)
        return w
    K.gen = classmethod(gen)


for _k in ALLKINDS.values():
    if issubclass(_k, Base) and "inname" not in vars(_k):
        name_inputs(_k)


def similar(R, last, tier):
    """Another workload of the kind of last, often with its options: what it leaves behind looks plausible."""
    K = ALLKINDS[last["kind"]]
    w = K.gen(R, tier, small=True)
    if R.random() < 0.5 and "poly" in w and "poly" in last and last["poly"]["d"] == w["poly"]["d"] and last["kind"] in ("count", "genfun", "taylor", "series") \
            and K.valid(dict(last, poly=w["poly"])) and lat.form_ok(lat.unpack(w["poly"]), last["form"]):
        v = dict(w, opts=list(last["opts"]), form=last["form"])
        for k in ("n", "prog"):
            v.pop(k, None)
            if k in last:
                v[k] = last[k]
        return v
    if R.random() < 0.5 and last["kind"] == "hilbert" and len(w["cone"]["core"]) == len(last["cone"]["core"]) and len(w["cone"]["emb"]) == len(last["cone"]["emb"]):
        return dict(w, opts=list(last["opts"]), form=last["form"])
    return w



def setup(w, srv, d="w"):
    for n, t in kind(w).files(w).items():
        srv.put(d + "/" + n, t)


def external_crash(r):
    """TOPCOM itself dies on some two-ray configurations; LattE reports that and stops."""
    return "topcom-points2" in r.err and "returned with exit status" in r.err


def run_clean(w, ctx, rng, files={}, **kw):
    """One fault-free run: it must succeed and be right."""
    K = kind(w)
    setup(w, ctx.srv)
    for n, t in files.items():
        ctx.srv.put("w/" + n, t)
    q = K.proc(w)
    q.update(rng=rng, **kw)
    r = ctx.run([q])[0]
    if K.gave_up(w, r):
        ctx.probes["digging gave up"] += 1
        return r
    if r.sig in (24, 9) or r.ops_exceeded:
        raise Violation("hang", "%s %s" % (q["prog"], q["args"]))
    if r.exit != 0 or r.sig:
        if external_crash(r):
            ctx.probes["external tool crashed (reported)"] += 1
            return r
        if K.may_refuse(w) and r.sig in (0, 6):
            ctx.probes["refused"] += 1
            return r
        raise Violation("fail", "%s exit %d sig %d args %s: %s" % (q["prog"], r.exit, r.sig, q["args"], r.err[-300:]))
    K.verify(w, r, lambda n: ctx.srv.get("w/" + n))
    ctx.probes[w["kind"]] += 1
    return r


def kind(w):
    return KINDS.get(w["kind"]) or EXTRA_KINDS[w["kind"]]
