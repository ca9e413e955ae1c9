"""Shared workload pieces: input files, option families, reading LattE's answers."""
import re
from fractions import Fraction as Fr
from math import gcd
from poly import Dilated, Poly, gen_poly, _gen, dot, rank

RNG_MODES = ["uniform", "uniform", "uniform", "zero", "one", "max", "small2", "small3", "small5", "hundreds", "const", "alt", "lowbits", "count"]


def gen_rng(R, biased=0.6, maxprefix=60):
    if R.random() > biased:
        return ["uniform", R.getrandbits(31), 0]
    return [R.choice(RNG_MODES), R.getrandbits(31), R.choice([1, 2, 3, 5, 8, 13, 20, 30, maxprefix])]


def pack(p):
    if isinstance(p, Dilated):
        return dict(pack(p.base), k=p.k)
    return dict(d=p.d, ineqs=[list(r) for r in p.ineqs], eqs=[list(r) for r in p.eqs], name=p.name)


def unpack(c):
    p = Poly(c["d"], [tuple(r) for r in c["ineqs"]], [tuple(r) for r in c["eqs"]], c.get("name", ""))
    return p.dilate(c["k"]) if c.get("k") else p


def input_file(p, form):
    """-> (file name, contents, options)"""
    if form == "hrep":
        return "in.latte", p.latte(nonneg=False), []
    if form == "hrep-nn":
        return "in.latte", p.latte(nonneg=True), []
    if form == "hrep-nonl":
        return "in.latte", p.latte(nonneg=False, newline=False), []
    if form == "vrep":
        return "in.vrep", p.latte_vrep(), ["--vrep"]
    if form == "cddine":
        return "in.ine", p.cdd_ine(), ["--cdd"]
    if form == "cddext":
        return "in.ext", p.cdd_ext(), ["--cdd"]
    if form == "plus":
        return "in.latte", plus_file(p), ["+"]
    if form == "phc":  # the cone over the polytope, by its rays
        rows = []
        for v in p.vertices():
            k = 1
            for c in v:
                k = k * c.denominator // gcd(k, c.denominator)
            rows.append([int(c * k) for c in v] + [k])
        return "in.ext", cone_file(rows), []
    if form == "dhc":  # the rays of its dual cone, one for each facet
        return "in.ext", cone_file([[-x for x in r[1:]] + [-r[0]] for r in facets(p)]), []
    raise ValueError(form)


def cone_file(rows):
    return "V-representation\nbegin\n%d %d integer\n" % (len(rows), len(rows[0]) + 1) + "".join("0 " + " ".join(map(str, r)) + "\n" for r in rows) + "end\n"


def facets(p):
    """The inequalities that define facets of a full-dimensional polytope, each once and primitive."""
    out = []
    for r in p.ineqs:
        tight = [v for v in p.vertices() if r[0] + dot(r[1:], v) == 0]
        g = 0
        for x in r:
            g = gcd(g, abs(x))
        q = tuple(x // (g or 1) for x in r)
        if q not in out and rank([[1] + list(v) for v in tight]) == p.d:
            out.append(q)
    return out


def cone_form_ok(p):
    return not p.eqs and p.dim() == p.d


def unit_rows(p):
    """Positions of rows x_i >= 0, when there is one for each coordinate."""
    pos = {}
    for k, r in enumerate(p.ineqs):
        if r[0] == 0 and sorted(r[1:]) == [0] * (p.d - 1) + [1]:
            pos.setdefault(r.index(1, 1), k)
    return sorted(pos.values()) if len(pos) == p.d else None


def plus_file(p):
    """Without the nonnegativity constraints, which the keyword `+' stands for."""
    u = unit_rows(p)
    return Poly(p.d, [r for k, r in enumerate(p.ineqs) if k not in u], p.eqs, p.name).latte(nonneg=False)


def form_ok(p, form):
    if form in ("vrep", "cddext", "phc") and any(abs(c.numerator) > 10 ** 15 for v in p.vertices() for c in v):
        return False  # the LP solver of cddlib starts in floating point and can destroy its heap when it gets lost in such columns
    if form in ("phc", "dhc"):
        return cone_form_ok(p)
    if form == "plus":
        return unit_rows(p) is not None and len(p.ineqs) + len(p.eqs) > p.d
    return form not in ("vrep", "cddext") or not p.eqs


PATHS = ["sub/in.latte", "in put.latte", "it's;in.latte", "$HOME&in.latte", "in", "*.latte", "./sub/in.2.latte", "in.ine.ext.latte", "x" * 100, "sub/" + "y" * 240]


def file_args(p, form, name=None):
    n, _, fo = input_file(p, form)
    n = name or n
    if form in ("phc", "dhc"):
        return ["--input-%s-homog-cone=%s" % ("primal" if form == "phc" else "dual", n)]
    return fo + [n]


OLD = {"--vrep": ["vrep"], "--cdd": ["cdd"], "--homog": ["homog"], "--no-decomposition": ["nodecom"], "--compute-vertex-cones=lrs": ["lrs"],
       "--irrational-all-primal": ["--all-primal"]}


def old_style(args):
    """The same command line with the keywords of the first versions."""
    out = []
    for a in args:
        if a.startswith("--dilation="):
            out += ["dil", a[11:]]
        else:
            out += OLD.get(a, [a])
    return out


def last_int(out):
    """The number of lattice points as printed on standard output (its last line that is a number)."""
    for line in reversed(out.strip().split("\n")):
        line = line.strip()
        if re.fullmatch(r"-?\d+", line):
            return int(line)
    return None


def shrink_poly(pc):
    """Simpler polytopes: fewer rows, smaller numbers."""
    if pc.get("k"):
        yield {x: v for x, v in pc.items() if x != "k"}
        yield dict(pc, k=1 + pc["k"] // 1000)
    for i in range(len(pc["ineqs"])):
        q = dict(pc, ineqs=pc["ineqs"][:i] + pc["ineqs"][i + 1:])
        yield q
    for i in range(len(pc["eqs"])):
        yield dict(pc, eqs=pc["eqs"][:i] + pc["eqs"][i + 1:])
    if pc["d"] > 1:
        for j in range(pc["d"]):  # section at 0
            cut = lambda r: r[:1 + j] + r[2 + j:]
            q = dict(pc, d=pc["d"] - 1, ineqs=[cut(r) for r in pc["ineqs"] if any(cut(r)[1:])], eqs=[cut(r) for r in pc["eqs"] if any(cut(r)[1:])])
            yield q
    for kind in ("ineqs", "eqs"):
        for i, r in enumerate(pc[kind]):
            for j, v in enumerate(r):
                for w in {v // 2 if v > 0 else -(-v // 2), 0 if abs(v) == 1 else v}:
                    if w != v:
                        r2 = list(r)
                        r2[j] = w
                        if any(r2[1:]):
                            yield dict(pc, **{kind: pc[kind][:i] + [r2] + pc[kind][i + 1:]})


def poly_ok(p, maxbox=40000):
    """Is this (shrunk) polytope still a bounded, explicit-equation input?"""
    try:
        if not p.ineqs or not p.vertices() or p.boxsize() > maxbox:
            return False
        if p.dim() != p.d - rank([e[1:] for e in p.eqs] or [[0] * p.d]):
            return False
        return bounded(p)
    except Exception:
        return False


def bounded(p):
    """No recession direction: decided exactly by looking for an extreme ray of the recession cone."""
    from itertools import combinations
    from poly import nullvec
    rows = [r[1:] for r in p.ineqs] + [r[1:] for r in p.eqs] + [tuple(-x for x in r[1:]) for r in p.eqs]
    d = p.d
    if rank(rows) < d:
        return False
    er = []
    for e in p.eqs:
        if rank([x[1:] for x in er + [e]]) == len(er) + 1:
            er.append(e)
    k = d - 1 - len(er)
    if k < 0:
        return True
    for sub in combinations(p.ineqs, k):
        n = nullvec([r[1:] for r in er] + [r[1:] for r in sub], d) if d > 1 else (1,)
        if n is None:
            continue
        for s in (1, -1):
            w = [s * x for x in n]
            if all(dot(r, w) >= 0 for r in rows):
                return False
    return True
