"""S01: the number of lattice points is exact, whatever the random draws and the chosen methods."""
import lat
from engine import Violation
from poly import gen_big, gen_point, gen_poly

ID = "S01"
LEVEL = "exploration"
TRI = ["cdd", "cddlib", "delone", "topcom", "4ti2"]


def gen_opts(R, p):
    o = []
    hard = p.hardness()
    if R.random() < 0.75:
        o.append(R.choice(["--dual", "--irrational-primal", "--irrational-all-primal"]))
    if R.random() < 0.7:
        o.append(R.choice(["--polynomial", "--exponential", "--exponential"]))
    r = R.random()
    if r < 0.6:
        o.append("--maxdet=%d" % R.choice([1, 2, 3, 5, 10, 100] + ([1000, 10000] if hard <= 30 else [])))
    elif r < 0.75 and hard <= (30 if p.d < 4 else 12):
        o.append("--no-decomposition")
    if R.random() < 0.75:
        o.append("--triangulation=" + R.choice(TRI))
    if R.random() < 0.2:
        o.append("--triangulation-max-height=%d" % R.choice([2, 3, 10, 1000, 100000]))
    elif R.random() < 0.15:
        o.append("--triangulation-bias=%d" % R.choice([5, 50, 95]))
    if R.random() < 0.5:
        o.append("--dualization=" + R.choice(["cdd", "4ti2"]))
    if R.random() < 0.6:
        o.append("--compute-vertex-cones=" + R.choice(["cdd", "lrs", "4ti2"]))
    if R.random() < 0.3:
        o.append("--redundancy-check=" + R.choice(["cddlib", "full-cddlib", "none"]))
    if R.random() < 0.1:
        o.append("--smith-form=ilio")
    if R.random() < 0.1:
        o.append(R.choice(["memsave", "printcones"]))
    if R.random() < 0.05:
        o.append("--random-seed=%d" % R.choice([0, 1, 4711, 2 ** 31 - 1, R.getrandbits(31)]))
    if R.random() < 0.15:
        # the older way of working: all unimodular cones are kept, and written to files
        o = [x for x in o if not x.startswith(("--exp", "--maxdet", "--no-dec")) and x != "memsave"]
        if not p.eqs and R.random() < 0.6:
            o.insert(0, R.choice(["file", "file", "rem"]))
        elif p.d < 4 or hard <= 10 ** 5:
            o = [x for x in o if not x.startswith("--irrational")]
            o.append("--homog")
    return o


def gen(R, tier):
    point = R.random() < 0.04
    p = gen_point(R) if point else gen_poly(R, dmax=4 if R.random() < 0.8 else 3)
    big = p if point else gen_big(R, p)
    form = R.choice(["hrep", "hrep", "hrep-nn", "hrep-nn", "vrep", "cddine", "cddext", "hrep-nonl", "plus"])
    opts = gen_opts(R, p)
    if R.random() < 0.08 and not point and (p.d < 4 or p.hardness() <= 10 ** 5):
        form = R.choice(["phc", "dhc"])
        opts = [o for o in opts if not o.startswith(("--exp", "--maxdet", "--no-dec", "--irr")) and o not in ("memsave", "--homog", "file", "rem")]
    dil = 1
    if R.random() < 0.15 and form not in ("vrep", "cddext", "phc", "dhc"):
        dil = R.choice([2, 3])
        if not point and p.boxsize(dil) > 40000 or p.count(dil) > 3000:
            dil = 1
    p = big
    if not lat.form_ok(p, form):
        form = "hrep"
    case = dict(poly=lat.pack(p), form=form, opts=opts, dil=dil, interior=False, rng=lat.gen_rng(R))
    if R.random() < 0.12:
        case["old"] = True
    if R.random() < 0.1:
        case["path"] = R.choice(lat.PATHS)
    red = [o for o in opts if o.startswith("--redundancy")]
    if form in ("hrep", "cddine", "hrep-nonl") and R.random() < 0.3 and (not red or red[0].endswith("=full-cddlib")):
        case["extra"] = [] if not p.ineqs else [[R.randrange(99), R.randrange(99), R.choice([0, 0, 1, 5])] for _ in range(R.randint(1, 3))]
    if form in ("hrep", "cddine", "hrep-nonl") and p.eqs and R.random() < 0.3 and not (red and red[0].endswith("=none")):
        case["hide"] = True
    return case


def messy(p, case):
    """The same set, given with redundant inequalities or with an equation hidden as two inequalities."""
    from poly import Poly
    ineqs, eqs = list(p.ineqs), list(p.eqs)
    if case.get("hide") and eqs:
        e = eqs.pop()
        ineqs += [e, tuple(-x for x in e)]
    for i, j, slack in case.get("extra", []):
        a, b = ineqs[i % len(ineqs)], ineqs[j % len(ineqs)]
        r = tuple(x + y for x, y in zip(a, b))
        if any(r[1:]):
            ineqs.append((r[0] + slack,) + r[1:])
    return Poly(p.d, ineqs, eqs, p.name)


def expect(case):
    p = lat.unpack(case["poly"])
    return p.count(case["dil"], case["interior"])


def execute(case, ctx):
    p = lat.unpack(case["poly"])
    name, text, fo = lat.input_file(messy(p, case), case["form"])
    name = case.get("path") or name
    ctx.srv.put("w/" + name, text)
    args = list(case["opts"])
    if case["dil"] != 1:
        args.append("--dilation=%d" % case["dil"])
    if case["interior"]:
        args.append("--interior")
    args += lat.file_args(p, case["form"], name)
    if case.get("old"):
        args = lat.old_style(args)
    r = ctx.run1("count", args, cwd="w", rng=case["rng"])
    want = expect(case)
    got = lat.last_int(r.out)
    f = ctx.srv.get("w/numOfLatticePoints")
    if r.exit == 0 and not r.sig:
        if got != want and not (want == 0 and got is None) and not (got is None and "\nThe number of lattice points is %d.\n" % want in r.err) and not ("printcones" in args and str(want) in r.out.split("\n")):
            raise Violation("wrong-count", "printed %s, exact count is %d; args %s" % (got, want, args))
        if f is None or f.strip() != str(want):
            raise Violation("wrong-file", "numOfLatticePoints says %r, exact count is %d; %s" % (f, want, args))
        ctx.probes["ok"] += 1
    else:
        if "topcom-points2" in r.err and "returned with exit status" in r.err:
            ctx.probes["external tool crashed (reported)"] += 1  # TOPCOM itself dies on some two-ray cones; LattE says so
            return
        if r.sig in (24, 9):
            raise Violation("hang", "%s" % args)
        raise Violation("fail", "exit %d sig %d args %s: %s" % (r.exit, r.sig, args, r.err[-200:]))


RULE = "random bounded rational polytope (12 families, dimension 1-4, up to 1500 points) x input format x option set x adversarial answers to random(); non-trivial: at least one random draw or one child process"
REAL = ["LattE object code built from /repo (count and its library)", "NTL, GMP, cddlib, 4ti2", "scdd_gmp, lrs, redcheck_gmp, topcom as real child processes", "files on a real tmpfs directory"]
STUB = ["rand()/random() (answered by the plan)", "clock, getpid, gethostname (simulated)", "scheduler and shell (child processes started by the simulator)"]
ASSUME = ["the reference count enumerates the polytope by exact integer arithmetic in Python",
          "option combinations that LattE documents as unsupported are not generated (see DESIGN.md)"]


def nontrivial(case, ctx):
    return ctx.draws > 0 or ctx.ops > 8


def shrink(case):
    for k in ("extra", "hide", "old", "path"):
        if case.get(k):
            c = dict(case)
            del c[k]
            yield c
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
    if case["rng"][2] > 1:
        yield dict(case, rng=case["rng"][:2] + [case["rng"][2] // 2])
        yield dict(case, rng=case["rng"][:2] + [case["rng"][2] - 1])
    for i in range(len(case["opts"])):
        yield dict(case, opts=case["opts"][:i] + case["opts"][i + 1:])
    if case["dil"] != 1:
        yield dict(case, dil=1)
    if case["form"] != "hrep":
        yield dict(case, form="hrep")
    for q in lat.shrink_poly(case["poly"]):
        if lat.poly_ok(lat.unpack(q)) and lat.form_ok(lat.unpack(q), case["form"]):
            yield dict(case, poly=q)
