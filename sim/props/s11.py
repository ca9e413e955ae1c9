"""S11: lists of cones survive being saved and read back, and damaged ones are refused."""
import random, re
from fractions import Fraction as Fr
import hilb, lat, work
from clean import REAL, STUB
from engine import Violation
from poly import dot, gen_poly

ID = "S11"
LEVEL = "exploration"
RULE = "a program writes a list of cones (or of subcones, or a converted polyhedron) and another one reads it and answers: vertex cones, homogenized cones, subdivided dual cones, triangulations and lists of our own; then 2-8 damaging events, each a disk fault or crash in the writer, a disk fault in the reader, or a cut of the file at any byte; non-trivial: at least one damaging event happened"
ASSUME = ["a list cut between two cones cannot be told from a shorter list: only complete answers are then not demanded",
          "failures of writes to the terminal are not injected"]

STORIES = ["vertex", "vertex", "homog", "homog", "identity", "identity", "dual", "triang", "tri", "hil", "ine", "latte", "trisave", "trisave"]
W = "w/"


# ---------------------------------------------------------------- lists of cones
def show_vec(v):
    return "[%s]" % " ".join(str(x) for x in v)


def show(cones):
    t = "" if cones else "No cones in list.\n"
    for c in cones:
        t += "==========\nCone.\nCoefficient: %d\nVertex: %s\nExtreme rays:\n%s\nDeterminant:0\nFacets:\n%s\nDual determinant:0\nLattice points in parallelepiped:\n[]\n==========\n\n" % (
            c["coef"], show_vec(c["vertex"]), "\n".join(map(show_vec, c["rays"])) or "[]", "\n".join(map(show_vec, c["facets"])) or "[]")
    return t + "\n"


CONE = re.compile(r"==========\s+Cone\.\s+Coefficient:\s*(-?\d+)\s+Vertex:\s*\[([^\]]*)\]\s+Extreme rays:((?:\s*\[[^\]]*\])+)\s+Determinant:\s*-?\d+\s+Facets:((?:\s*\[[^\]]*\])+)\s+Dual determinant:\s*-?\d+\s+Lattice points in parallelepiped:((?:\s*\[[^\]]*\])+)\s+==========\s*")


def vecs(t):
    r = [tuple(int(x) for x in v.split()) for v in re.findall(r"\[([^\]]*)\]", t)]
    return [] if r == [()] else r


def parse(text):
    """-> list of cones, or None if the text is not a whole number of cones."""
    if text is None:
        return None
    t = text.strip()
    out = []
    if not t:
        return None
    if t == "No cones in list.":
        return out
    i = 0
    while i < len(t):
        m = CONE.match(t, i)
        if not m:
            return None
        out.append(dict(coef=int(m.group(1)), vertex=[str(Fr(x)) for x in m.group(2).split()], rays=vecs(m.group(3)), facets=vecs(m.group(4))))
        i = m.end()
    return out


def key(c):
    return (c["coef"], tuple(Fr(x) for x in c["vertex"]), tuple(tuple(r) for r in c["rays"]), tuple(tuple(r) for r in c["facets"]))


# ---------------------------------------------------------------- generation
def big(R, n):
    m = R.choice([2, 9, 9, 1000, 10 ** 12, 10 ** 30])
    return [R.randint(-m, m) for _ in range(n)]


def gen_list(R):
    d = R.randint(1, 5)
    out = []
    for i in range(R.choice([0, 1, 1, 2, 3, 5])):
        nr, nf = R.choice([(R.randint(1, 5), 0), (0, R.randint(1, 5)), (R.randint(1, 4), R.randint(1, 4))])
        fr = R.choice([[1], [1, 2, 3], [1, 7, 10 ** 20]])
        out.append(dict(coef=R.choice([1, 1, -1, R.randint(-99, 99)]), vertex=[str(Fr(x, R.choice(fr))) for x in big(R, d)],
                        rays=[big(R, d) for _ in range(nr)], facets=[big(R, d) for _ in range(nf)]))
    return out


def gen_event(R):
    k = R.choice(["write", "write", "crash", "read", "read", "cut", "cut"])
    return [k, R.randrange(10000), R.randrange(100), R.choice([0, 1, 250, 500, 750, 900, 990, 999, R.randrange(1000)])]


def gen(R, tier):
    story = R.choice(STORIES)
    case = dict(story=story, rng=lat.gen_rng(R, 0.3), events=[gen_event(R) for _ in range(R.choice([2, 4, 8]))])
    if story in ("vertex", "homog"):
        def ok(p):
            return work.affine_lattice_nonempty(p) and (story == "vertex" or p.boxsize(3) <= 60000)
        p = gen_poly(R, dmax=3, want=ok)
        o1 = []
        if R.random() < 0.6 and story == "vertex":
            o1.append("--compute-vertex-cones=" + R.choice(["cdd", "lrs", "4ti2"]))
        if R.random() < 0.4:
            o1.append("--redundancy-check=" + R.choice(["cddlib", "full-cddlib", "none"]))
        case.update(poly=lat.pack(p), form=work.pick_form(R, p, work.FORMS if story == "vertex" else ["hrep", "hrep-nn", "cddine"]), o1=o1,
                    o2=work.common_opts(R, p, primal_ok=story == "vertex", maxdet=story == "vertex"), taylor=R.choice([0, 2, 3]))
        case["o2"] = [x for x in case["o2"] if not x.startswith(("--compute-vertex", "--redundancy"))]
        if story == "vertex" and R.random() < 0.7:
            case["o2"].append(R.choice(["--polynomial", "--exponential"]))
    elif story in ("dual", "triang"):
        p = gen_poly(R, dmax=3, want=lambda p: not p.eqs and p.dim() == p.d and p.boxsize(3) <= 60000)
        case.update(poly=lat.pack(p), o1=hil_opts(R), o2=[x for x in work.plumbing_opts(R) if not x.startswith(("--compute-vertex", "--redundancy"))], taylor=R.choice([0, 2, 3]),
                    n=R.choice([1, 1, 2, 3]), split=R.getrandbits(31))
    elif story == "trisave":
        p = gen_poly(R, dmax=4, want=lambda p: p.dim() >= 3)
        case.update(poly=lat.pack(p), form=work.pick_form(R, p, ["hrep", "hrep-nn", "cddine"]), n=R.choice([1, 2, 2]), what=R.choice(["count", "count", "exp", "genfun"]), o2=work.common_opts(R, p))
        if R.random() < 0.3:
            w = work.Integrate.gen(R, tier)
            if "--triangulate" not in w["opts"] and "--cone-decompose" not in w["opts"]:
                # both methods would use the same file, and say so
                w["opts"].append(R.choice(["--triangulate", "--cone-decompose"]))
            case.update(poly=w["poly"], form=w["form"], what="integrate", w={k: w[k] for k in ("what", "f") if k in w}, o2=w["opts"])
        case["o2"] = [x for x in case["o2"] if not x.startswith("--triangulation")]
    elif story == "identity":
        case["list"] = gen_list(R)
    elif story == "tri":
        for _ in range(100):
            c = hilb.gen_cone(R, dmax=4)
            if len(c["emb"]) == c["k"] and not c["redundant"]:
                break
        case.update(cone=c, o2=hil_opts(R), form=R.choice(["cone", "cone", "ext"]))
    elif story == "hil":
        cones = []
        while not cones or len(cones[0]["emb"]) != cones[0]["k"]:
            cones = [hilb.gen_cone(R, dmax=3)]
        for _ in range(R.choice([0, 1, 2])):
            c = hilb.gen_cone(R, dmax=3)
            if len(c["emb"]) == c["k"] == cones[0]["k"]:
                cones.append(c)
        case.update(cones=cones, o2=[])
    else:
        p = gen_poly(R, dmax=4)
        case.update(poly=lat.pack(p), scale=[R.choice([1, 1, 2, 3, 7]) for _ in range(len(p.ineqs) + len(p.eqs))], nn=R.randrange(2), what=R.choice(["ine", "ext"]))
    return case


def hil_opts(R):
    o = []
    if R.random() < 0.7:
        o.append("--triangulation=" + R.choice(["4ti2", "cddlib", "topcom", "delone"]))
    if R.random() < 0.2:
        o.append("--triangulation-max-height=%d" % R.choice([3, 10, 1000]))
    return o


# ---------------------------------------------------------------- the two programs of a story
class Plan:
    writer = None      # run description of the program that writes the file
    file = None        # the list
    files = ()         # what is there from the start
    reader = None
    cuts = True


def dual_rows(p):
    """Rays of the dual of the homogenized polytope, as LattE orders them: (-A | -b)... one per facet."""
    return [tuple([-x for x in r[1:]] + [-r[0]]) for r in p.ineqs]


def taylor_opt(case):
    return ["--ehrhart-taylor=%d" % case["taylor"]] if case["taylor"] else []


def plan(case):
    P = Plan()
    s = case["story"]
    P.files = {}
    if s in ("vertex", "homog"):
        n, text, fo = lat.input_file(lat.unpack(case["poly"]), case["form"])
        P.files = {n: text}
        P.file = "saved.cones"
        P.writer = dict(prog="polyhedron-to-cones", args=case["o1"] + (["--homog"] if s == "homog" else []) + ["--output-cones=saved.cones"] + fo + [n])
        P.reader = dict(prog="count", args=case["o2"] + (["--input-vertex-cones=saved.cones"] if s == "vertex" else taylor_opt(case) + ["--input-dual-homog-cones=saved.cones"]))
        P.check = check_count
    elif s in ("dual", "triang"):
        rows = dual_rows(lat.unpack(case["poly"]))
        d = len(rows[0])
        P.files = {"dual.rays": "%d %d\n" % (len(rows), d) + "".join(" ".join(map(str, r)) + "\n" for r in rows),
                   "dual.ext": "V-representation\nbegin\n%d %d integer\n" % (len(rows), d + 1) + "".join("0 " + " ".join(map(str, r)) + "\n" for r in rows) + "end\n"}
        if s == "dual":
            P.file = "all.subcones"
            P.writer = dict(prog="hilbert-from-rays", args=case["o1"] + ["--only-triangulate", "--output-subcones=all.subcones", "dual.rays"])
            P.reader = dict(prog="count", args=case["o2"] + taylor_opt(case) + ["--input-dual-homog-cone=dual.ext", "--subcones=all.subcones"])
        else:
            P.file = "dual.rays.triang"
            P.writer = dict(prog="hilbert-from-rays", args=case["o1"] + ["--only-triangulate", "dual.rays"])
            P.reader = dict(prog="count", args=case["o2"] + taylor_opt(case) + ["--input-dual-homog-cones=dual.rays.triang"])
        P.check = check_count
    elif s == "trisave":
        # one run saves its triangulations, a later one loads them (and saves those that are missing)
        p = lat.unpack(case["poly"])
        n, text, fo = lat.input_file(p, case["form"])
        P.files = {n: text, "triangulations/.keep": ""}
        P.file = None
        P.saved = ["triangulations/%s%d.tar.gz" % (n, i) for i in range(40)]
        o = ["--triangulation=cdd"] + case["o2"]
        prog = "count"
        if case["what"] == "integrate":
            prog = "integrate"
            P.files.update(work.Integrate.files(loaded(case)))
        w = {"integrate": [], "count": [], "exp": ["--exponential"], "genfun": ["--multivariate-generating-function"]}[case["what"]]
        P.writer = dict(prog=prog, args=["trisave"] + o + fo + [n])
        P.reader = dict(prog=prog, args=["triload"] + (["trisave"] if case["n"] > 1 else []) + w + o + fo + [n])
        P.check = check_loaded
    elif s == "identity":
        P.file = "saved.cones"
        P.files = {"saved.cones": show(case["list"])}
        P.reader = dict(prog="polyhedron-to-cones", args=["--input-vertex-cones=saved.cones", "--output-cones=copy.cones"])
        P.check = check_copy
    elif s == "tri":
        rays = hilb.rays_of(case["cone"])
        if case["form"] == "cone":
            P.file = "in.cone"
            P.files = {"in.cone": show([dict(coef=1, vertex=["0"] * len(rays[0]), rays=rays, facets=[])]).rstrip() + "\n"}
        else:
            P.file = "in.ext"
            P.cuts = False
            P.files = {"in.ext": "V-representation\nbegin\n%d %d integer\n" % (len(rays), len(rays[0]) + 1) + "".join("0 " + " ".join(map(str, r)) + "\n" for r in rays) + "end\n"}
        P.reader = dict(prog="triangulate", args=case["o2"] + [P.file])
        P.check = check_triangulation
    elif s == "hil":
        P.file = "in.triang"
        P.files = {"in.triang": show([dict(coef=1, vertex=["0"] * len(c["emb"]), rays=hilb.rays_of(c), facets=[]) for c in case["cones"]])}
        P.reader = dict(prog="hilbert-from-rays", args=case["o2"] + ["in.triang"])
        P.check = check_basis
    elif s == "ine":
        p = lat.unpack(case["poly"])
        rows = p.rows()
        lin = list(range(len(p.ineqs) + 1, len(rows) + 1))
        t = "H-representation\n" + ("linearity %d %s\n" % (len(lin), " ".join(map(str, lin))) if lin else "") + "begin\n%d %d rational\n" % (len(rows), p.d + 1)
        for r, k in zip(rows, case["scale"]):
            t += " " + " ".join(str(Fr(x, k)) for x in r) + "\n"
        P.file = "in.ine"
        P.files = {"in.ine": t + "end\n"}
        P.reader = dict(prog="ConvertCDDineToLatte", args=["in.ine", "out.latte"])
        P.check = check_latte
    elif s == "latte":
        p = lat.unpack(case["poly"])
        vrep = case["what"] == "ext" and not p.eqs
        P.file = "in.latte"
        P.files = {"in.latte": p.latte_vrep() if vrep else p.latte(nonneg=bool(case["nn"]))}
        P.reader = dict(prog="latte2ext" if vrep else "latte2ine", args=[], stdin=P.files["in.latte"])
        P.check = check_cdd
        P.cuts = False
    for q in (P.writer, P.reader):
        if q:
            q.update(cwd="w", rng=case["rng"], cpu=8)
    return P


def loaded(case):
    return dict(case["w"], kind="integrate", poly=case["poly"], form=case["form"], opts=case["o2"])


def check_loaded(case, P, r, get):
    if case["what"] == "integrate":
        return work.Integrate.verify(loaded(case), r, get)
    if case["what"] == "genfun":
        work.GenFun.verify(dict(poly=case["poly"], form=case["form"], opts=[]), r, get)
    else:
        work.Count.verify(dict(poly=case["poly"], form=case["form"], opts=[]), r, get)


def check_count(case, P, r, get):
    p = lat.unpack(case["poly"])
    if case["story"] != "vertex" and case["taylor"]:
        n = case["taylor"]
        want = {i: p.count(i) for i in range(1, n + 1)}
        got = {}
        for l in r.out.split("\n"):
            m = re.fullmatch(r"(-?\d+)(?:t\^(-?\d+))?", l)
            if m:
                got[int(m.group(2) or 0)] = int(m.group(1))
        got.pop(0, None)
        if {k: v for k, v in got.items() if v} != {k: v for k, v in want.items() if v}:
            raise Violation("wrong-series", "printed %s, exact %s" % (got, want))
        return
    want = p.count()
    got = lat.last_int(r.out)
    f = get("numOfLatticePoints")
    if got != want and not (want == 0 and got is None):
        raise Violation("wrong-count", "printed %s, exact %d" % (got, want))
    if f is None or f.strip() != str(want):
        raise Violation("wrong-file", "numOfLatticePoints says %r, exact %d" % (f, want))


def check_copy(case, P, r, get, want=None):
    got = parse(get("copy.cones"))
    want = parse(show(case["list"])) if want is None else want
    if got is None:
        raise Violation("not-a-list", "copy.cones: %r" % (get("copy.cones") or "")[:300])
    if sorted(map(key, got)) != sorted(map(key, want)):
        raise Violation("list-changed", "read %s, wrote %s" % (str(sorted(map(key, want)))[:400], str(sorted(map(key, got)))[:400]))


def solve_cone(rays, x):
    """Coordinates of x in the rays of a simplicial full-dimensional cone."""
    d = len(x)
    D = hilb.det([list(r) for r in rays])
    out = []
    for i in range(d):
        m = [list(r) for r in rays]
        m[i] = list(x)
        out.append(Fr(hilb.det(m), D))
    return out


def check_triangulation(case, P, r, get):
    got = parse(get("triangulation"))
    if got is None:
        raise Violation("not-a-list", "triangulation: %r" % (get("triangulation") or "")[:300])
    rays = [hilb.prim(x) for x in hilb.rays_of(case["cone"])]
    d = len(rays[0])
    R = random.Random(5)
    simp = []
    for c in got:
        rr = [hilb.prim(x) for x in c["rays"]]
        if any(x not in rays for x in rr) or c["coef"] != 1 or any(Fr(x) for x in c["vertex"]):
            raise Violation("bad-triangulation", "cone with rays %s, coefficient %s, vertex %s" % (rr, c["coef"], c["vertex"]))
        if len(rr) != d or hilb.det([list(x) for x in rr]) == 0:
            raise Violation("bad-triangulation", "not simplicial: %s" % rr)
        if c["facets"]:
            for x in rr:
                if any(dot(f, x) > 0 for f in c["facets"]) and any(dot(f, x) < 0 for f in c["facets"]):
                    raise Violation("bad-triangulation", "facets %s of %s" % (c["facets"], rr))
        simp.append(rr)
    for _ in range(25):
        k = [R.randint(1, 10 ** 6) if R.random() < 0.7 else 0 for _ in rays]
        x = [sum(a * v[i] for a, v in zip(k, rays)) for i in range(d)]
        n, edge = 0, False
        for rr in simp:
            co = solve_cone(rr, x)
            if all(z > 0 for z in co):
                n += 1
            elif all(z >= 0 for z in co):
                edge = True
        if n > 1 or (n == 0 and not edge) or (n and edge):
            raise Violation("bad-triangulation", "%s lies in %d of the cones %s" % (x, n, simp))


def check_basis(case, P, r, get):
    from props.s10 import check_many
    check_many(case["cones"], [get("in.triang.hil")], ["in.triang.hil"])


def canon(rows, eqs):
    s = set()
    for i, r in enumerate(rows):
        v = hilb.prim(r)
        if i in eqs:
            j = next((x for x in v if x), 0)
            s.add(("=", v if j > 0 else tuple(-x for x in v)))
        else:
            s.add((">", v))
    return s


def want_rows(p):
    return canon([tuple(r) for r in p.ineqs] + [tuple(r) for r in p.eqs], set(range(len(p.ineqs), len(p.ineqs) + len(p.eqs))))


def check_latte(case, P, r, get):
    p = lat.unpack(case["poly"])
    t = (get("out.latte") or "").split()
    try:
        m, n = int(t[0]), int(t[1])
        v = [int(x) for x in t[2:2 + m * n]]
        rows = [v[i * n:i * n + n] for i in range(m)]
        if len(v) != m * n:
            raise ValueError
        rest = t[2 + m * n:]
        eqs = set()
        if rest:
            if rest[0] != "linearity" or int(rest[1]) != len(rest) - 2:
                raise ValueError
            eqs = set(int(x) - 1 for x in rest[2:])
    except (ValueError, IndexError):
        raise Violation("not-latte", "out.latte: %r" % (get("out.latte") or "")[:300])
    if canon(rows, eqs) != want_rows(p):
        raise Violation("other-polyhedron", "in.ine %r became %r" % (P.files["in.ine"][:300], get("out.latte")[:300]))


def check_cdd(case, P, r, get):
    p = lat.unpack(case["poly"])
    lines = [l.strip() for l in r.out.strip().split("\n")]
    try:
        b, e = lines.index("begin"), lines.index("end")
        m, n = map(int, lines[b + 1].split()[:2])
        rows = [[Fr(x) for x in l.split()] for l in lines[b + 2:e]]
        if len(rows) != m or any(len(x) != n for x in rows):
            raise ValueError
        eqs = set()
        for l in lines[:b]:
            if l.startswith("linearity"):
                eqs = set(int(x) - 1 for x in l.split()[2:])
    except (ValueError, IndexError):
        raise Violation("not-cdd", "printed %r" % r.out[:300])
    if P.reader["prog"] == "latte2ext":
        if lines[0] != "V-representation" or sorted(tuple(x[1:]) if x[0] == 1 else None for x in rows) != sorted(tuple(Fr(x) for x in v) for v in p.vertices()):
            raise Violation("other-polyhedron", "printed %r" % r.out[:300])
        return
    ints = []
    for x in rows:
        D = 1
        for z in x:
            D = D * z.denominator // hilb.gcd(D, z.denominator)
        ints.append(tuple(int(z * D) for z in x))
    if lines[0] != "H-representation" or canon(ints, eqs) != want_rows(p):
        raise Violation("other-polyhedron", "%r became %r" % (P.files["in.latte"][:200], r.out[:300]))


# ---------------------------------------------------------------- execution
FOR = {"openr": ["emfile", "eacces", "eio"], "openw": ["emfile", "eacces", "eio", "enospc"], "read": ["eio", "short"], "write": ["eio", "enospc", "short", "torn"], "close": ["eio"]}


def place(ev, r, path):
    kind, sel, which, param = ev
    ops = r.oplist()
    if kind == "crash":
        return [[(sel * 7919) % max(1, r.ops), ["crash", "torn"][which % 2], param]]
    el = [o for o in ops if o[1] in FOR]
    if which % 4:
        mine = [o for o in el if path and o[2].split(" ")[0].endswith(path)]
        el = mine or el
    if kind == "write":
        el = [o for o in el if o[1] in ("openw", "write", "close")] or el
    if not el:
        return None
    o = el[sel % len(el)]
    return [[o[0], FOR[o[1]][which % len(FOR[o[1]])], param]]


def start(ctx, P):
    ctx.srv.reset()
    for n, t in P.files.items():
        ctx.srv.put(W + n, t)


def bad(r):
    if r.hung():
        return "hang"
    if r.sig in (11, 8, 7, 4):
        return "memory-fault"
    return None


def judge_reader(case, ctx, P, r, what, shorter=False):
    """A reader that met damage: exit 0 needs the whole answer."""
    if bad(r):
        raise Violation(bad(r), "sig %d; %s" % (r.sig, what))
    if r.exit == 0 and r.sig == 0:
        if shorter:
            return "shorter list"
        try:
            P.check(case, P, r, lambda n: ctx.srv.get(W + n))
        except Violation as v:
            raise Violation("taken-" + v.klass, v.detail[:300] + "; " + what)
        return "still right"
    return "refused"


def raw(P, text):
    return text.encode("latin-1") if P.file.endswith(".gz") else text


def is_cone_list(P):
    return P.file.endswith((".cones", ".triang", ".cone"))


def execute(case, ctx):
    ctx.damage = 0
    P = plan(case)
    start(ctx, P)
    say = lambda q: q["prog"] + " " + " ".join(q["args"])
    pilot1 = None
    tolerate = case["story"] in ("dual", "triang") or (case["story"] == "tri")
    if P.writer:
        pilot1 = ctx.run([dict(P.writer)])[0]
        if pilot1.exit or pilot1.sig:
            if work.external_crash(pilot1):
                ctx.probes["external tool crashed (reported)"] += 1
                return
            raise Violation("fail", "exit %d sig %d: %s: %s" % (pilot1.exit, pilot1.sig, say(P.writer), pilot1.err[-300:]))
    if P.file is None:
        there = [n for n in P.saved if ctx.srv.get(W + n) is not None]
        if there:
            P.file = there[case["events"][0][1] % len(there)] if case["events"] else there[0]
            ctx.probes["triangulations loaded"] += len(there)
    whole = P.file and ctx.srv.get(W + P.file)
    pilot2 = ctx.run([dict(P.reader)])[0]
    if pilot2.hung():
        raise Violation("hang", say(P.reader))
    if pilot2.exit or pilot2.sig:
        if work.external_crash(pilot2):
            ctx.probes["external tool crashed (reported)"] += 1
            return
        raise Violation("fail", "exit %d sig %d: %s: %s" % (pilot2.exit, pilot2.sig, say(P.reader), pilot2.err[-300:]))
    try:
        P.check(case, P, pilot2, lambda n: ctx.srv.get(W + n))
    except Violation as v:
        raise Violation(v.klass, "%s; %s" % (v.detail[:500], " then ".join(say(q) for q in (P.writer, P.reader) if q)))
    ctx.probes["story " + case["story"]] += 1
    if P.file is None:
        return
    cones = parse(whole) if is_cone_list(P) else None
    if is_cone_list(P) and cones is None:
        raise Violation("not-a-list", "%s: %r" % (P.file, whole[:400]))
    for ev in case["events"]:
        kind = ev[0]
        if kind in ("write", "crash"):
            q, pilot = (P.writer, pilot1) if P.writer else (P.reader, pilot2)
            target = P.file if P.writer else {"identity": "copy.cones", "tri": "triangulation", "hil": ".hil", "ine": "out.latte"}.get(case["story"], "")
            f = place(ev, pilot, target)
            if not f:
                continue
            start(ctx, P)
            r = ctx.run([dict(q, faults=f)])[0]
            what = "%s; %s" % (say(q), " | ".join(l for l in r.log.split("\n") if "!" in l)[:200])
            ctx.damage += 1
            if not P.writer:
                ctx.probes["writer: " + judge_reader(case, ctx, P, r, what)] += 1
                continue
            if bad(r):
                raise Violation(bad(r), what)
            if r.exit == 0 and r.sig == 0:
                r2 = ctx.run([dict(P.reader)])[0]
                if r2.exit or r2.sig:
                    raise Violation("incomplete-reported-whole", "%s reported success, and then %s: exit %d sig %d %s" % (what, say(P.reader), r2.exit, r2.sig, r2.err[-200:]))
                try:
                    P.check(case, P, r2, lambda n: ctx.srv.get(W + n))
                except Violation as v:
                    raise Violation("incomplete-reported-whole", "%s; %s" % (v.detail[:300], what))
                ctx.probes["writer: still right"] += 1
                continue
            # the writer failed: what it left must not pass for a whole list
            left = ctx.srv.get(W + P.file)
            part = parse(left) if is_cone_list(P) else None
            shorter = part is not None and left is not None and len(part) < len(cones)
            r2 = ctx.run([dict(P.reader)])[0]
            ctx.probes["after a failed writer: " + judge_reader(case, ctx, P, r2, "after " + what, shorter)] += 1
        elif kind == "read":
            f = place(ev, pilot2, P.file)
            if not f:
                continue
            start(ctx, P)
            ctx.srv.put(W + P.file, raw(P, whole))
            r = ctx.run([dict(P.reader, faults=f)])[0]
            ctx.damage += 1
            ctx.probes["reader: " + judge_reader(case, ctx, P, r, "%s; %s" % (say(P.reader), " | ".join(l for l in r.log.split("\n") if "!" in l)[:200]))] += 1
        elif P.cuts:
            if is_cone_list(P) and ev[2] % 3 == 0:
                # aim at the ends of lines and of cones
                spots = [m.start() for m in re.finditer(r"\n|=|\]", whole)]
                at = spots[(ev[1] * 7919) % len(spots)] + ev[2] % 2
            else:
                at = (ev[1] * 7919) % max(1, len(whole.rstrip()))
            start(ctx, P)
            piece = whole[:at]
            ctx.srv.put(W + P.file, raw(P, piece))
            ctx.damage += 1
            part = parse(piece) if is_cone_list(P) else None
            r = ctx.run([dict(P.reader)])[0]
            what = "%s with %s cut after %d of %d bytes" % (say(P.reader), P.file, at, len(whole))
            if bad(r):
                raise Violation(bad(r), "sig %d; %s" % (r.sig, what))
            if r.exit == 0 and r.sig == 0:
                if part is not None:
                    if case["story"] == "identity":
                        check_copy(case, P, r, lambda n: ctx.srv.get(W + n), part)
                    elif len(part) == len(cones):
                        judge_reader(case, ctx, P, r, what)
                    ctx.probes["cut: whole cones"] += 1
                else:
                    try:
                        P.check(case, P, r, lambda n: ctx.srv.get(W + n))
                        same = not is_cone_list(P) and piece.split() == whole.split()
                        same = same or (is_cone_list(P) and complete_but_for_padding(piece, whole))
                        if not same and P.file != "in.ine":
                            raise Violation("cut-taken", "the answer happens to be right")
                    except Violation as v:
                        raise Violation("cut-taken", "%s; %s" % (v.detail[:300], what))
                    ctx.probes["cut: nothing lost"] += 1
            else:
                ctx.probes["cut: refused"] += 1


def complete_but_for_padding(piece, whole):
    return parse(piece) is not None


def nontrivial(case, ctx):
    return getattr(ctx, "damage", 0) > 0


def shrink(case):
    E = case["events"]
    if len(E) > 1:
        for e in E:
            yield dict(case, events=[e])
    elif E:
        yield dict(case, events=[])
        k, sel, which, param = E[0]
        for s in {0, sel // 2, sel - 1}:
            if 0 <= s < sel:
                yield dict(case, events=[[k, s, which, param]])
        if param not in (0, 500):
            yield dict(case, events=[[k, sel, which, 0]])
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
    for o in ("o1", "o2"):
        for i in range(len(case.get(o, []))):
            if not case[o][i].startswith(("--valuation", "--triangulate", "--cone-dec")) and "f.txt" not in case[o][i]:
                yield dict(case, **{o: case[o][:i] + case[o][i + 1:]})
    if case.get("form") in work.FORMS and case["form"] != "hrep":
        yield dict(case, form="hrep")
    if case.get("taylor"):
        yield dict(case, taylor=0)
    if "poly" in case:
        for q in lat.shrink_poly(case["poly"]):
            p = lat.unpack(q)
            if not lat.poly_ok(p):
                continue
            if (case["story"] in ("dual", "triang") or case.get("what") == "integrate") and (p.eqs or p.dim() != p.d):
                continue
            if case.get("what") == "integrate" and p.d != case["poly"]["d"]:
                continue
            if case["story"] in ("vertex", "homog") and not (p.boxsize(3) <= 60000 and work.affine_lattice_nonempty(p)):
                continue
            c = dict(case, poly=q)
            if "scale" in c:
                c["scale"] = [1] * (len(p.ineqs) + len(p.eqs))
            yield c
    if "list" in case:
        L = case["list"]
        for i in range(len(L)):
            yield dict(case, list=L[:i] + L[i + 1:])
            for k in ("rays", "facets"):
                for j in range(len(L[i][k])):
                    if len(L[i]["rays"]) + len(L[i]["facets"]) > 1:
                        yield dict(case, list=L[:i] + [dict(L[i], **{k: L[i][k][:j] + L[i][k][j + 1:]})] + L[i + 1:])
    if "cones" in case and len(case["cones"]) > 1:
        for i in range(len(case["cones"])):
            yield dict(case, cones=case["cones"][:i] + case["cones"][i + 1:])
    if "cone" in case:
        for c in work.shrink_cone(case["cone"]):
            if len(c["emb"]) == c["k"] and not c.get("redundant"):
                yield dict(case, cone=c)
