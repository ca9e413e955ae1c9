"""Common module body for the fault-free exactness properties."""
import lat, work


def make(g, kinds, rule):
    def gen(R, tier):
        k = R.choice(kinds)
        return dict(w=work.KINDS[k].gen(R, tier), rng=lat.gen_rng(R))

    def execute(case, ctx):
        work.run_clean(case["w"], ctx, case["rng"], cpu=6)

    def nontrivial(case, ctx):
        return ctx.draws > 0 or ctx.ops > 8

    def shrink(case):
        if case["rng"] != ["uniform", 1, 0]:
            yield dict(case, rng=["uniform", 1, 0])
        if case["rng"][2] > 1:
            yield dict(case, rng=case["rng"][:2] + [case["rng"][2] // 2])
            yield dict(case, rng=case["rng"][:2] + [case["rng"][2] - 1])
        for w in work.KINDS[case["w"]["kind"]].shrink(case["w"]):
            yield dict(case, w=w)
    g.update(gen=gen, execute=execute, nontrivial=nontrivial, shrink=shrink, LEVEL="exploration", RULE=rule, REAL=REAL, STUB=STUB,
             ASSUME=["reference values come from exact integer and rational arithmetic in Python, independent of LattE"])


REAL = ["LattE object code built from /repo", "NTL, GMP, cddlib, 4ti2, sqlite3", "scdd_gmp, lrs, redcheck_gmp, topcom as real child processes", "files on a real tmpfs directory"]
STUB = ["rand()/random() (answered by the plan)", "clocks, getpid, gethostname (simulated)", "process scheduling and the shell (child processes started by the simulator)"]
