#!/usr/bin/env python3
"""Builds the simulator binary from /repo's working tree (never from /repo/_build).

LattE's library and each program are compiled as they are; every program's `main' is renamed
at object level and its other symbols are made local, so that all programs live in one binary
that the simulator can fork into.  Nothing is written under /repo."""
import fcntl, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LATTESIM_REPO", "/repo")
OUT = os.environ.get("LATTESIM_BUILD", os.path.join(VERIF, ".build"))
COV = os.environ.get("LATTESIM_COV")  # development: see sim/rt/cov.c
BIN = os.path.join(OUT, "lattesim")

PROGRAMS = {  # program name -> sources relative to code/latte (first one has main)
    "count": ["countDriver.cpp"],
    "integrate": ["valuation/Driver.cpp"],
    "ehrhart": ["ehrhart.cpp"],
    "ehrhart3": ["ehrhart3.cpp", "interpolation/PolynomialInterpolation.cpp"],
    "latte-maximize": ["maximize.cpp"],
    "latte-minimize": ["minimize.cpp"],
    "latte2ine": ["latte2ine.cpp"],
    "latte2ext": ["latte2ext.cpp"],
    "polyhedron-to-cones": ["polyhedron-to-cones.cpp"],
    "triangulate": ["triangulation/test-triangulation.cpp"],
    "top-ehrhart-knapsack": ["top-knapsack/Driver.cpp"],
    "ConvertCDDineToLatte": ["convertCDD_ine_to_latte.cpp"],
    "ConvertCDDextToLatte": ["convertCDD_ext_to_latte.cpp"],
    "hilbert-from-rays": ["normalize/normalize_main.cpp", "normalize/normalize.cpp", "normalize/ReductionTest.cpp"],
    "hilbert-from-rays-symm": ["normalize/normaliz_wrapper.cpp", "normalize/normalize.cpp", "normalize/ReductionTest.cpp"],
    "count-linear-forms-from-polynomial": ["valuation/countLinearFormsFromPolynomialDriver.cpp"],
    "integrate-database-polytopes": ["valuation/test/runIntegrationTestFromDatabaseDriver.cpp", "sqlite/IntegrationDB.cpp", "sqlite/SqliteDB.cpp"],
    "build-database-polytopes": ["valuation/test/buildDatabaseRandomPolytopesDriver.cpp", "sqlite/IntegrationDB.cpp", "sqlite/SqliteDB.cpp"],
    "find-volume-database-polytopes": ["valuation/test/runVolumeTestFromDatabaseDriver.cpp", "sqlite/VolumeDB.cpp", "sqlite/SqliteDB.cpp"],
    "print-database-time-table": ["valuation/test/printDatabaseTimeTablesDriver.cpp", "sqlite/IntegrationDB.cpp", "sqlite/VolumeDB.cpp", "sqlite/SqliteDB.cpp"],
}
# Drivers of ours that call LattE's library interfaces in sequences of our choosing.
OWN_PROGRAMS = {
    "libseq": ["drv/libseq.cpp"],
    "conefile": ["drv/conefile.cpp"],
    "dbseq": ["drv/dbseq.cpp", "@sqlite/IntegrationDB.cpp", "@sqlite/VolumeDB.cpp", "@sqlite/SqliteDB.cpp"],
}

LATTE = os.path.join(REPO, "code", "latte")


def lib_sources():
    """The library's source list, read from LattE's own Makefile.am."""
    text = open(os.path.join(LATTE, "Makefile.am")).read().replace("\\\n", " ")
    src = []
    for m in re.finditer(r"^(?:nodist_)?liblatte_la_SOURCES\s*\+?=(.*)$", text, re.M):
        src += m.group(1).split("#")[0].split()
    res = []
    for s in src:
        if s.endswith(".cpp") and s not in res and "LiDIA" not in s and "SpecialSimplex" not in s:
            if os.path.exists(os.path.join(LATTE, s)):
                res.append(s)
    return res


def write_ninja():
    os.makedirs(OUT, exist_ok=True)
    sim = os.path.join(VERIF, "sim")
    inc = " ".join("-I" + d for d in [
        os.path.join(sim, "include"), os.path.join(sim, "include", "sub"), os.path.join(REPO, "code"), LATTE,
        "/usr/include/4ti2", "/usr/include/x86_64-linux-gnu/4ti2"])
    flags = "-O1 -w -fno-strict-aliasing -fno-gnu-unique -DHAVE_CONFIG_H -D__STDC_LIMIT_MACROS -D_4ti2_GMP_ -DLATTESIM " \
            "'-DINSTALLDIR=\"/usr/local/bin\"' " + inc
    n = ["ninja_required_version = 1.5", "cxxflags = " + flags,
         "rule cxx", "  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ccov", "  command = gcc -O1 -w -c $in -o $out",
         "rule prog", "  command = ld -r --force-group-allocation $in -o $out && objcopy --redefine-sym main=$sym $out && objcopy --keep-global-symbol=$sym $out",
         "rule so", "  command = gcc -O1 -w -shared -fPIC $in -o $out",
         "build toolclock.so: so " + os.path.join(sim, "rt", "toolclock.c"),
         "rule link", "  command = g++ -rdynamic $in -o $out.tmp -lntl -lcddgmp -l4ti2gmp -lzsolve -l4ti2util -lgmpxx -lgmp -lsqlite3 -ldl && mv $out.tmp $out"]
    objs = {}

    def obj(path, extra=""):
        if path in objs:
            return objs[path]
        o = "o/" + re.sub(r"[^A-Za-z0-9_.]", "_", path) + ".o"
        n.append("build %s: cxx %s" % (o, path))
        if COV and path.startswith(LATTE):
            n.append("  cxxflags = -g -fsanitize-coverage=trace-pc $cxxflags")
        objs[path] = o
        return o
    libs = [obj(os.path.join(LATTE, s)) for s in lib_sources()]
    progs = []
    table = []
    for name, srcs in list(PROGRAMS.items()) + list(OWN_PROGRAMS.items()):
        own = name in OWN_PROGRAMS
        paths = []
        for s in srcs:
            if s.startswith("@"):
                paths.append(os.path.join(LATTE, s[1:]))
            else:
                paths.append(os.path.join(sim if own else LATTE, s))
        if not all(os.path.exists(p) for p in paths):
            if own:
                continue
            raise SystemExit("missing source for %s: %s" % (name, paths))
        sym = "lattesim_main_" + re.sub(r"[^A-Za-z0-9]", "_", name)
        o = "p/%s.o" % name
        # PolynomialInterpolation may or may not be part of the library
        uniq = [p for p in paths if p == paths[0] or p not in [os.path.join(LATTE, s) for s in lib_sources()]]
        n.append("build %s: prog %s\n  sym = %s" % (o, " ".join(obj(p) for p in uniq), sym))
        progs.append(o)
        table.append((name, sym))
    tab = os.path.join(OUT, "progtable.cpp")
    text = "struct ProgEntry { const char *name; int (*fn)(int, char **); };\nextern \"C\" {\n" + \
        "".join("int %s(int, char **);\n" % s for _, s in table) + "}\nextern ProgEntry prog_table[];\nProgEntry prog_table[] = {\n" + \
        "".join('  { "%s", %s },\n' % t for t in table) + "  { 0, 0 } };\n"
    if not os.path.exists(tab) or open(tab).read() != text:
        open(tab, "w").write(text)
    rt = [obj(os.path.join(sim, "rt", f)) for f in ("simrt.cpp", "server.cpp")] + [obj(tab)]
    if COV:
        n.append("build o/cov.o: ccov " + os.path.join(sim, "rt", "cov.c"))
        rt.append("o/cov.o")
    n.append("build lattesim: link " + " ".join(rt + progs + libs))
    n.append("default lattesim toolclock.so")
    text = "\n".join(n) + "\n"
    p = os.path.join(OUT, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def build(quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_ninja()
        r = subprocess.run(["ninja", "-C", OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            i = r.stdout.find("FAILED")
            sys.stderr.write(r.stdout[max(i, 0):][:2500] + "\n")
            raise SystemExit(2)
        if not quiet:
            print(r.stdout.strip().splitlines()[-1])
    return BIN


if __name__ == "__main__":
    print(build(quiet=False))
