"""S13: the database of integrals and volumes: histories of building, computing, crashing, resuming and printing."""
import json, os, re, shutil, sqlite3
from fractions import Fraction as Fr
import lat
from clean import REAL, STUB
from engine import Violation
from poly import gen_poly

ID = "S13"
LEVEL = "exploration"
RULE = "a database of polytopes, duals and polynomials, then 2-8 runs of the programs that build tests, integrate, find volumes and print tables; some runs hit disk faults or crash (biased to the database file and its journal) and are then repeated, some run two or three at a time on the same database with every operation interleaved; non-trivial: a fault fired or two programs shared the database"
ASSUME = ["a crash is the crash of the program, not of the machine: what was written to a file stays there",
          "polymake, which makes the polytope rows, is replaced by rows and files of our own",
          "only one program at a time builds tests"]

SCHEMA = """
create table polynomial(dim integer not null, degree integer not null, filePath text unique);
create table polytope(dim integer not null, vertexCount integer not null, simple integer, latteFilePath text, polymakeFilePath text, dual integer);
create table integrate(polynomialID integer not null, polytopeID integer not null, timeLawrence real not null, timeTriangulate real not null, integral text, flagValue text, flagType text);
create table volume(polytopeID integer not null, timeLawrence real not null, timeTriangulate real not null, theVolume text, flagValue text, flagType text);
"""
TABLES = {"polynomial": "rowid,dim,degree,filePath", "polytope": "rowid,dim,vertexCount,simple,latteFilePath,polymakeFilePath,dual",
          "integrate": "rowid,polynomialID,polytopeID,timeLawrence,timeTriangulate,integral", "volume": "rowid,polytopeID,timeLawrence,timeTriangulate,theVolume"}
COL = {1: "timeLawrence", 2: "timeTriangulate"}
DB = "../db/t.db"
FAULT_FOR = {
    "openr": ["emfile", "eacces", "eio"], "openw": ["emfile", "eacces", "enospc"], "read": ["eio"], "write": ["eio", "enospc", "torn"],
    "close": ["eio"], "rename": ["eio"], "unlink": ["eio", "torn"], "mkdir": ["eio", "enospc"], "fsync": ["eio", "torn"], "fdatasync": ["eio", "torn"],
    "ftruncate": ["eio"], "system": ["t_fail", "t_killed", "t_notfound", "t_trunc_fail"],
}


# ---------------------------------------------------------------- generation
KINDS = {1: ["boxcut", "simplex", "ratsimplex"], 2: ["boxcut", "simplex", "hull", "ratsimplex", "shear"], 3: ["boxcut", "simplex", "hull", "ratsimplex", "prism", "pyramid", "cross"]}
def gen_event(R):
    return [R.choice(["db", "db", "db", "own", "any"]), R.choice(["crash", "crash", "any", "write", "write", "openw", "read", "unlink"]), R.randrange(10000), R.randrange(100), R.choice([0, 1, 250, 500, 900, 999])]


def gen(R, tier):
    d = R.choice([1, 2, 2, 2, 3])
    want = lambda p: p.d == d and not p.eqs and p.dim() == d and p.name != "shift" and len(p.vertices()) <= 8
    labels = R.choice([[d + 1], [d + 1, d + 5], [d + 4]])
    tops = []
    for i in range(R.choice([1, 2, 2, 3, 4])):
        t = dict(label=R.choice(labels), p=lat.pack(gen_poly(R, dmax=max(d, 3), maxpts=500, kinds=KINDS[d], want=want)), dual=None)
        if R.random() < 0.85:
            t["dual"] = lat.pack(gen_poly(R, dmax=max(d, 3), maxpts=500, kinds=KINDS[d], want=want))
            t["dlabel"] = R.choice(labels + [d + 2])
        tops.append(t)
    degs = R.choice([[1], [2], [0, 2], [1, 3], [2, 5]])
    polys = []
    if R.random() < 0.7:
        for k in degs:
            for i in range(R.choice([1, 2, 3])):
                e = [0] * d
                for _ in range(k):
                    e[R.randrange(d)] += 1
                polys.append([k, [[R.choice([[1, 1], [1, 1], [-3, 1], [2, 7]]), e]]])
                if R.random() < 0.3 and d > 1:
                    polys[-1][1].append([[R.choice([1, -1, 5]), R.choice([1, 3])], e[1:] + e[:1]])
    rows = []
    if polys and R.random() < 0.6:
        for i in range(len(tops)):
            for j in range(len(polys)):
                for dual in (0, 1):
                    if R.random() < 0.5 and (not dual or tops[i]["dual"]):
                        st = R.choice(["new"] * 8 + ["law", "tri", "skip", "bad"])
                        rows.append([i, dual, j, st, R.choice([0, 0.25, 12, 599, 601])])
    vols = []
    for i in range(len(tops)):
        for dual in (0, 1):
            if R.random() < 0.8 and (not dual or tops[i]["dual"]):
                vols.append([i, dual, R.choice(["new"] * 8 + ["law", "tri", "skip", "bad"]), R.choice([0, 0.25, 12, 599, 601])])
    npoly = {g: sum(1 for p in polys if p[0] == g) for g in degs}
    C = dict(labels=labels, degs=degs, tops=tops, polys=polys, rows=rows, vols=vols, built=[], npoly=npoly)
    acts = []
    builds = [x for x in ("poly", "poly", "test", "test") if R.random() < 0.5]
    for _ in range(R.choice([2, 3, 4, 6, 8])):
        if builds:
            k = builds.pop(0)
        else:
            k = R.choice(["int", "int", "int", "vol", "vol", "intf", "volf", "print", "pair", "pair", "test"])
        if k == "pair":
            acts.append(dict(do="pair", a=[gen_act(R, R.choice(["int", "int", "vol", "vol", "intf", "volf", "print"]), C) for _ in range(R.choice([2, 2, 2, 3]))],
                             sched=R.getrandbits(31), sticky=R.choice([0, 0, 20, 60, 90]), at=R.choice([None, None, None, R.randrange(1001)]), who=R.randrange(3)))
        else:
            a = gen_act(R, k, C)
            if R.random() < 0.6 and k != "print":
                a["ev"] = [gen_event(R) for _ in range(R.choice([1, 1, 1, 2]))]
            acts.append(a)
    return dict(d=d, tops=tops, degs=degs, labels=labels, polys=polys, rows=rows, vols=vols, acts=acts, rng=lat.gen_rng(R, 0.3),
                step=R.choice([0, 1, 1000, 1000, 20000, 3000000]))


def gen_act(R, k, C):
    """C: what there is. Most commands name a class that exists."""
    labels, degs, tops = C["labels"], C["degs"], C["tops"]
    a = dict(do=k)
    have = []
    if k in ("int", "intf"):
        have = [(i, dual, C["polys"][j][0]) for i, dual, j, st, t in C["rows"]] + C["built"]
    elif k in ("vol", "volf"):
        have = [(i, dual, None) for i, dual, st, t in C["vols"]]
    if have and R.random() < 0.9:
        i, dual, deg = R.choice(have)
        a.update(dual=dual, alg=R.choice([1, 2]))
        if deg is not None:
            a["deg"] = deg
        a.update(dict(top=i) if k[-1] == "f" else dict(label=tops[i]["label"]))
        if deg is None:
            a["alg"] = 2
        return a
    if k == "test" and R.random() < 0.85:
        best = [(l, g, min(sum(1 for t in tops if t["label"] == l and t["dual"]), C["npoly"].get(g, 0))) for l in labels for g in degs]
        best = [b for b in best if b[2]]
        if best:
            l, g, n = R.choice(best)
            C["built"] += [(i, dual, g) for i, t in enumerate(tops) if t["label"] == l for dual in (0, 1) if not dual or t["dual"]]
            return dict(do=k, count=R.randint(1, n), label=l, deg=g)
    if k == "poly":
        a.update(count=R.choice([1, 2, 3]), deg=R.choice(degs))
        C["npoly"][a["deg"]] += a["count"]
    elif k == "test":
        a.update(count=R.choice([1, 1, 2, 2, 3]), label=R.choice(labels), deg=R.choice(degs))
    elif k == "int":
        a.update(label=R.choice(labels), deg=R.choice(degs), dual=R.randrange(2), alg=R.choice([1, 2]))
    elif k == "intf":
        a.update(top=R.randrange(len(tops)), deg=R.choice(degs), dual=R.randrange(2), alg=R.choice([1, 2]))
    elif k == "vol":
        a.update(label=R.choice(labels), dual=R.randrange(2), alg=2)
    elif k == "volf":
        a.update(top=R.randrange(len(tops)), dual=R.randrange(2), alg=2)
    else:
        a.update(what=R.choice(["dim", "file", "volume", "dim-latex", "file-latex", "volume-latex"]))
    return a


# ---------------------------------------------------------------- the world
def top_file(i, dual):
    return "./q%d.dual.hrep.latte" % i if dual else "./q%d.vrep.latte" % i


def poly_text(terms):
    return "[" + ",".join("[%s,[%s]]" % (Fr(*c), ",".join(map(str, e))) for c, e in terms) + "]"


def parse_poly(text, d):
    """{exponents: coefficient} of a polynomial file, or None."""
    t = re.sub(r"\s", "", text or "")
    if not re.fullmatch(r"\[(\[-?\d+(/\d+)?,\[\d+(,\d+)*\]\],?)+\]", t) or ",]" in t:
        return None
    r = {}
    for c, e in re.findall(r"\[(-?\d+(?:/\d+)?),\[([\d,]+)\]\]", t):
        e = tuple(int(x) for x in e.split(","))
        if len(e) != d:
            return None
        r[e] = r.get(e, 0) + Fr(c)
    return r


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx, self.srv = case, ctx, ctx.srv
        self.d = case["d"]
        self.tops = [(lat.unpack(t["p"]), t["dual"] and lat.unpack(t["dual"])) for t in case["tops"]]
        self.cache = {}
        s = self.srv
        self.base = {}
        for i, (p, q) in enumerate(self.tops):
            self.base["q%d.vrep.latte" % i] = p.latte_vrep()
            if q:
                self.base["q%d.dual.hrep.latte" % i] = q.latte(nonneg=False)
        self.chk = s.root + ".chk"
        path = self.chk + "/t.db"
        self.clear()
        c = sqlite3.connect(path)
        c.executescript(SCHEMA)
        self.ids = {}
        for i, t in enumerate(case["tops"]):
            cur = c.execute("insert into polytope values(?,?,1,?,?,NULL)", (self.d, t["label"], top_file(i, 0), "./q%d.polymake" % i))
            self.ids[i, 0] = cur.lastrowid
            if t["dual"]:
                cur = c.execute("insert into polytope values(?,?,1,?,?,?)", (self.d, t["dlabel"], top_file(i, 1), "./q%d.dual.polymake" % i, self.ids[i, 0]))
                self.ids[i, 1] = cur.lastrowid
        self.who = {v: k for k, v in self.ids.items()}
        for j, (deg, terms) in enumerate(case["polys"]):
            f = "old/f%d.polynomial" % j
            self.base[f] = poly_text(terms) + "\n"
            c.execute("insert into polynomial values(?,?,?)", (self.d, deg, f))
        state = {"new": (-1, -1), "skip": (-2, -2), "law": (1, -1), "tri": (-1, 1), "bad": (-1, 1)}

        def put(table, key, st, t, value):
            l, r = state[st]
            l, r = (t if l > 0 else l), (t if r > 0 else r)
            c.execute("insert into %s values(%s,?,?,?,NULL,NULL)" % (table, ",".join("?" * len(key))),
                      tuple(key) + (l, r, "NA" if st in ("new", "skip") else " %s" % (value + (1 if st == "bad" else 0))))
        self.bad = {"integrate": set(), "volume": set()}
        for i, dual, j, st, t in case["rows"]:
            if (i, dual) in self.ids and j < len(case["polys"]):
                put("integrate", (j + 1, self.ids[i, dual]), st, t, self.exact(i, dual, self.base["old/f%d.polynomial" % j]))
        for i, dual, st, t in case["vols"]:
            if (i, dual) in self.ids:
                put("volume", (self.ids[i, dual],), st, t, self.exact(i, dual, None))
        c.commit()
        c.close()
        s.put("db/t.db", open(path, "rb").read())
        for n in range(3):
            for f, t in self.base.items():
                s.put("a%d/%s" % (n, f), t)
            s.mkdir("a%d/sub" % n)
            for k in case["degs"]:
                s.mkdir("a%d/polynomials/dim%d/deg%d" % (n, self.d, k))

        self.state = self.read()
        self.foreign = {t: {r[0] for r in self.state[t] if self.known(t, r) and Fr(self.known(t, r)) != self.truth(t, r)} for t in ("integrate", "volume")}

    def clear(self):
        shutil.rmtree(self.chk, ignore_errors=True)
        os.mkdir(self.chk)

    def read(self):
        """The tables as any later program will see them; the files are left alone."""
        self.clear()
        for n in os.listdir(self.srv.path("db")):
            shutil.copy(self.srv.path("db/" + n), self.chk)
        c = sqlite3.connect(self.chk + "/t.db")
        try:
            if c.execute("pragma integrity_check").fetchone()[0] != "ok":
                raise Violation("database-damaged", "integrity check fails")
            r = {t: c.execute("select %s from %s order by rowid" % (cols, t)).fetchall() for t, cols in TABLES.items()}
        except sqlite3.DatabaseError as e:
            raise Violation("database-damaged", str(e))
        finally:
            c.close()
            shutil.rmtree(self.chk, ignore_errors=True)
        return r

    def mirror(self):
        """Every working directory sees the same polynomials."""
        for k in self.case["degs"]:
            d = "polynomials/dim%d/deg%d" % (self.d, k)
            for f in os.listdir(self.srv.path("a0/" + d)):
                for n in (1, 2):
                    self.srv.put("a%d/%s/%s" % (n, d, f), open(self.srv.path("a0/%s/%s" % (d, f)), "rb").read())

    def save(self):
        r = {}
        for f, t in self.srv.tree().items():
            r[f] = t.encode("latin-1")
        return r

    def restore(self, saved):
        for f in self.srv.tree():
            if f not in saved:
                self.srv.rm(f)
        for f, t in saved.items():
            self.srv.put(f, t)
        for d in self.srv.dirs("tmp"):
            self.srv.rm(d)

    # -- what is true
    def exact(self, i, dual, ftext):
        key = (i, dual, ftext)
        if key not in self.cache:
            p = self.tops[i][dual]
            if ftext is None:
                self.cache[key] = p.volume()
            else:
                f = parse_poly(ftext, self.d)
                if f is None:
                    raise Violation("no-polynomial", "a row of the polynomial table has no valid file: %r" % ftext)
                self.cache[key] = p.int_poly(f)
        return self.cache[key]

    def file_of(self, pid):
        for r in self.state["polynomial"]:
            if r[0] == pid:
                return self.srv.get("a0/" + r[3])
        raise Violation("orphan-test", "a test refers to polynomial %d, which does not exist" % pid)

    def truth(self, table, row):
        if table == "volume":
            i, dual = self.who[row[1]]
            return self.exact(i, dual, None)
        if row[2] not in self.who:
            raise Violation("orphan-test", "test %r refers to a polytope that does not exist" % (row,))
        i, dual = self.who[row[2]]
        return self.exact(i, dual, self.file_of(row[1]) or "")

    @staticmethod
    def known(table, row):
        v = row[-1]
        return None if v == "NA" else v.strip()

    def poly(self, pid):
        for r in self.state["polynomial"]:
            if r[0] == pid:
                return r

    def in_class(self, table, row, a):
        pid = row[2] if table == "integrate" else row[1]
        i, dual = self.who[pid]
        if dual != a["dual"]:
            return False
        if table == "integrate" and self.poly(row[1])[2] != a["deg"]:
            return False
        if "top" in a:
            return i == a["top"]
        return self.case["tops"][i]["label"] == a["label"]

    def no_table(self, what):
        """Printing a table without any class crashes (a listed finding)."""
        return what in ("dim", "dim-latex", "file") and not self.state["polynomial"]

    # -- running
    def proc(self, a, n):
        prog = {"poly": "build-database-polytopes", "test": "build-database-polytopes", "int": "integrate-database-polytopes", "intf": "integrate-database-polytopes",
                "vol": "find-volume-database-polytopes", "volf": "find-volume-database-polytopes", "print": "print-database-time-table"}[a["do"]]
        d, b = str(self.d), lambda x: "true" if x else "false"
        k = a["do"]
        if k == "poly":
            args = ["polynomial", str(a["count"]), d, str(a["deg"])]
        elif k == "test":
            args = ["test", str(a["count"]), d, str(a["label"]), str(a["deg"])]
        elif k == "int":
            args = [d, str(a["label"]), str(a["deg"]), b(a["dual"]), str(a["alg"])]
        elif k == "intf":
            args = ["specficFile", "./q%d.polymake" % a["top"], str(a["deg"]), b(a["dual"]), str(a["alg"])]
        elif k == "vol":
            args = [d, str(a["label"]), b(a["dual"]), str(a["alg"])]
        elif k == "volf":
            args = ["specficFile", "./q%d.polymake" % a["top"], b(a["dual"]), str(a["alg"])]
        else:
            w = a["what"].split("-")
            args = {"dim": ["integration", "", d], "file": ["integration", ""], "volume": ["volume", ""]}[w[0]]
            args[1] = "latex" if len(w) > 1 else "html"
        sub = k in ("vol", "volf")
        return dict(prog=prog, args=[("../" if sub else "") + DB] + args, cwd="a%d" % n + ("/sub" if sub else ""), rng=self.case["rng"], cpu=12,
                    clock=[1000000000, self.case["step"]], pid=500 + n)

    def tag(self, qs):
        return " || ".join("%s %s%s" % (q["prog"], " ".join(q["args"]), " (faults %s)" % q["faults"] if q.get("faults") else "") for q in qs)


TIMED = {"int": "integrate", "intf": "integrate", "vol": "volume", "volf": "volume"}


# ---------------------------------------------------------------- what may happen to the tables
def compare(W, old, new, acts, tag):
    """Whatever happened to the programs: rows are only added or completed, and what they say is true."""
    if new["polytope"] != old["polytope"]:
        raise Violation("rows-changed", "polytope table changed by %s" % tag)
    W.state = new
    for t in ("polynomial", "integrate", "volume"):
        n = len(old[t])
        if [r[:len(r) if t == "polynomial" else -3] for r in new[t][:n]] != [r[:len(r) if t == "polynomial" else -3] for r in old[t]]:
            raise Violation("rows-changed", "%s rows lost or changed by %s: %r -> %r" % (t, tag, old[t], new[t]))
        if len(new[t]) > n and t not in {"polynomial": [a["do"] == "poly" and "polynomial" for a in acts], "integrate": [a["do"] == "test" and "integrate" for a in acts]}.get(t, []):
            raise Violation("rows-changed", "new %s rows from %s" % (t, tag))
    for r in new["polynomial"]:
        f = W.srv.get("a0/" + r[3])
        q = parse_poly(f, W.d)
        if q is None or any(sum(e) != r[2] for e in q) or r[1] != W.d:
            raise Violation("no-polynomial", "polynomial row %r has the file %r; after %s" % (r, f, tag))
    if len({r[3] for r in new["polynomial"]}) != len(new["polynomial"]):
        raise Violation("duplicate", "polynomial listed twice; after %s" % tag)
    for t in ("integrate", "volume"):
        for k, r in enumerate(new[t]):
            o = old[t][k] if k < len(old[t]) else r[:-3] + (-1.0, -1.0, "NA")
            if r == o:
                continue
            doers = [a for a in acts if TIMED.get(a["do"]) == t and W.in_class(t, r, a)]
            for c, alg in ((-3, 1), (-2, 2)):
                if r[c] != o[c] and (o[c] != -1 or r[c] < 0 or not any(a["alg"] == alg for a in doers)):
                    raise Violation("time-changed", "%s row %r became %r after %s" % (t, o, r, tag))
            if r[-1] != o[-1] and (o[-1] != "NA" or not doers):
                raise Violation("value-changed", "%s row %r became %r after %s" % (t, o, r, tag))
            if r[-1] == "NA" or Fr(W.known(t, r)) != W.truth(t, r):
                if r[0] in W.foreign[t]:
                    raise Violation("disagreement-recorded", "%s row %r holds a wrong value, and %s recorded a time for it: %r" % (t, o, tag, r))
                raise Violation("wrong-value", "%s row %r: exact value %s; after %s" % (t, r, W.truth(t, r), tag))


def check_new_tests(W, old, new, a, tag):
    add = new["integrate"][len(old["integrate"]):]
    for r in add:
        i, dual = W.who[r[2]]
        if W.case["tops"][i]["label"] != a["label"] or W.poly(r[1])[2] != a["deg"] or r[-3:] != (-1.0, -1.0, "NA"):
            raise Violation("wrong-test", "%s added the row %r" % (tag, r))
    for dual in (0, 1):
        cl = [r for r in new["integrate"] if W.in_class("integrate", r, dict(a, dual=dual))]
        mine = [r for r in cl if r in add]
        for col in (1, 2):
            for r in mine:
                if sum(1 for q in cl if q[col] == r[col]) > 1:
                    raise Violation("duplicate", "%s used a %s twice in one class: %r" % (tag, ("polynomial", "polytope")[col - 1], cl))


# ---------------------------------------------------------------- what a program that was left alone must do
def expect_done(W, a, r, new, tag, strict=True):
    """Exit status 0: all rows of the class are done, unless it says it stops early."""
    t = TIMED[a["do"]]
    if "of the test case" in r.out:
        return
    if a["do"] == "volf" and "cannot finish" in r.out:
        return
    if a["do"] == "intf" and "might not finish" in r.out:
        return
    for row in new[t]:
        if W.in_class(t, row, a) and (row[-1] == "NA" or row[-3 if a["alg"] == 1 else -2] < 0):
            raise Violation("not-recorded", "%s reported success; %s row %r" % (tag, t, row))


def judge_print(W, a, r, tag):
    if r.exit == 0 and not r.sig:
        return
    if r.sig not in (0, 6) or a["what"] != "volume-latex":
        raise Violation("fail", "exit %d sig %d: %s: %s" % (r.exit, r.sig, tag, (r.out + r.err)[-300:]))
    W.ctx.probes["no grid"] += 1


def judge_clean(W, a, r, old, new, tag):
    k = a["do"]
    if r.hung():
        raise Violation("hang", tag)
    if r.sig in (11, 8, 7, 4):
        raise Violation("memory-fault", "signal %d; %s" % (r.sig, tag))
    ok = r.exit == 0 and not r.sig
    fail = lambda: Violation("fail", "exit %d sig %d: %s: %s" % (r.exit, r.sig, tag, (r.out + r.err)[-300:]))
    if k == "poly":
        if not ok:
            raise fail()
        have = {(x[2], x[3]) for x in new["polynomial"]}
        for n in range(1, a["count"] + 1):
            if (a["deg"], "polynomials/dim%d/deg%d/poly%d_deg%d_num%d.polynomial" % (W.d, a["deg"], W.d, a["deg"], n)) not in have:
                raise Violation("not-recorded", "polynomial %d of %s is missing" % (n, tag))
        return
    if k == "test":
        n = {dual: sum(1 for x in old["integrate"] if W.in_class("integrate", x, dict(a, dual=dual))) for dual in (0, 1)}
        m = {dual: sum(1 for x in new["integrate"] if W.in_class("integrate", x, dict(a, dual=dual))) for dual in (0, 1)}
        enough = True
        npoly = [x[0] for x in old["polynomial"] if x[2] == a["deg"]]
        for dual in (0, 1):
            cl = [x for x in old["integrate"] if W.in_class("integrate", x, dict(a, dual=dual))]
            tops = [v for (i, dd), v in W.ids.items() if dd == dual and W.case["tops"][i]["label"] == a["label"]]
            if len(npoly) < a["count"] or len(tops) < a["count"]:
                enough = False
            need = a["count"] - len(cl)
            if need > 0 and (len([x for x in npoly if x not in {c[1] for c in cl}]) < need or len([x for x in tops if x not in {c[2] for c in cl}]) < need):
                enough = False
        if not enough:
            if ok and not all(m[x] >= a["count"] for x in m):
                raise Violation("not-recorded", "%s reported success with %r tests" % (tag, m))
            W.ctx.probes["test class cannot be built"] += 1
            return
        if not ok:
            raise fail()
        if any(m[x] != max(n[x], a["count"]) for x in m):
            raise Violation("not-recorded", "%s: %r tests became %r" % (tag, n, m))
        return
    if k == "print":
        judge_print(W, a, r, tag)
        if r.exit == 0 and not r.sig:
            check_print(W, a, r, new, tag)
        return
    t = TIMED[k]
    col = -3 if a["alg"] == 1 else -2
    cl = [x for x in old[t] if W.in_class(t, x, a)]
    skip = any(x[col] == -2 for x in old[t])
    slow = any(x[col] >= 600 for x in old[t]) or any(x[col] >= 600 for x in new[t])
    if any(x[col] == -2 for x in cl):
        done = [x for x in new[t] if W.in_class(t, x, a)]
        if done != cl:
            raise Violation("skip-ignored", "%s: the class is marked to be skipped; %r became %r" % (tag, cl, done))
        return
    foreign = [x for x in cl if x[0] in W.foreign[t] and x[col] < 0]
    if ok:
        if foreign and not slow and not skip:
            raise Violation("disagreement-unreported", "%s reported success although row %r holds another value than it computes" % (tag, foreign[0]))
        if not (slow or skip) and any(s in r.out for s in ("cannot finish", "might not finish")) or (W.case["step"] <= 1000 and "of the test case" in r.out):
            raise Violation("not-recorded", "%s gave up without a reason: %s" % (tag, r.out[-200:]))
        expect_done(W, a, r, new, tag)
        times = [float(x) for x in re.findall(r"Total time: (\S+) sec", r.out)]
        for x, o in zip(new[t], old[t]):
            if x[col] != o[col] and not any(abs(x[col] - v) <= 1e-3 * max(1, v) for v in times):
                raise Violation("wrong-time", "%s recorded %r, it printed %r" % (tag, x, times))
        W.ctx.probes[k] += 1
        return
    if not cl or (k == "volf" and len(cl) != 1) or foreign:
        if r.sig and r.sig != 6:
            raise fail()
        W.ctx.probes["disagreement reported" if foreign else "empty class"] += 1
        return
    if (skip or slow) and ("not finish" in r.out or "cannot finish" in r.out):
        W.ctx.probes["class refused"] += 1
        return
    raise fail()


def agree(tag, what, shown, model):
    a, b = sorted(x for x in shown if x > 1e-4), sorted(x for x in model if x > 1e-4)
    if len(a) != len(b) or any(abs(x - y) > 1e-4 * (y + 1) for x, y in zip(a, b)):
        raise Violation("table", "%s: %s %r shown, in the database %r" % (tag, what, a, b))


def check_print(W, a, r, new, tag):
    if a["what"].endswith("latex"):
        return
    w = a["what"]
    t = "volume" if w == "volume" else "integrate"
    out = re.sub(r"<!--.*?-->", "", r.out)
    cells = re.findall(r'<td class="(countNum|dualCountNum)">\[?(\d+)/(\d+)</td><td class="(?:countNum|dualCountNum)">\[?(\d+)/(\d+)</td>', out)
    means = re.findall(r'<td class="(time|dualTime) \w+">(\S+?)</td><td class="(?:time|dualTime) \w+">(\S+?)</td>', out)
    if len(cells) != len(means):
        raise Violation("table", "%s: the table is not complete" % tag)
    tot = {}
    for dual, name in ((0, "countNum"), (1, "dualCountNum")):
        rows = [x for x in new[t] if W.who[x[1] if t == "volume" else x[2]][1] == dual]
        fin = [sum(1 for x in rows if x[c] >= 0) for c in (-3, -2)]
        got = [c for c in cells if c[0] == name]
        g = [sum(int(c[1]) for c in got), sum(int(c[3]) for c in got)]
        n = [sum(int(c[2]) for c in got), sum(int(c[4]) for c in got)]
        if w == "file":
            # rows of the table without any time are not printed: of those only unfinished tests may be missing
            if g != fin and not any(0 < x[c] for x in rows for c in (-3, -2)):
                continue
            if any(int(c[1]) > int(c[2]) or int(c[3]) > int(c[4]) for c in got):
                raise Violation("table", "%s: more finished than there are: %r" % (tag, got))
            continue
        if g != fin or n != [len(rows)] * 2:
            raise Violation("table", "%s: %s finished %r of %r, in the database %r of %d" % (tag, name, g, n, fin, len(rows)))
    if w != "file":
        k = 1 if w == "volume" else 2
        for dual, cls in ((0, "time"), (1, "dualTime")):
            want = {}
            for x in new[t]:
                i, dd = W.who[x[k]]
                if dd == dual:
                    key = W.case["tops"][i]["label"], W.poly(x[1])[2] if k == 2 else 0
                    for c in (-3, -2):
                        if x[c] >= 0:
                            want.setdefault((c,) + key, []).append(x[c])
            for c, name in ((-3, 1), (-2, 2)):
                mine = [v for q, v in want.items() if q[0] == c]
                shown = [float(m[name]) for m in means if m[0] == cls]
                agree(tag, cls + " averages", shown, [sum(v) / len(v) for v in mine])
                r2 = [m for m in re.findall(r'<td class="(range|dualRange)">\[(\S+?), (\S+?)\](MS)?(?:<br>SD:(\S+?))?</td>', out) if m[0] == ("range", "dualRange")[dual]][name - 1::2]
                if len(r2) != len(shown):
                    raise Violation("table", "%s: the table is not complete" % tag)
                agree(tag, cls + " minima", [float(m[1]) for m in r2], [min(v) for v in mine])
                agree(tag, cls + " maxima", [float(m[2]) for m in r2], [max(v) for v in mine])
                if k == 2:
                    agree(tag, cls + " deviations", [float(m[4]) for m in r2], [(sum((y - sum(v) / len(v)) ** 2 for y in v) / len(v)) ** .5 for v in mine])
                marks = len({(W.case["tops"][W.who[x[k]][0]]["label"], W.poly(x[1])[2] if k == 2 else 0) for x in new[t] if x[c] == -2 and W.who[x[k]][1] == dual})
                if marks != sum(1 for m in r2 if m[3]):
                    raise Violation("table", "%s: %d %s classes are skipped, not as shown: %r" % (tag, marks, cls, r2))
    W.ctx.probes["table " + w] += 1


# ---------------------------------------------------------------- one episode
def place(ev, r, avoid):
    """avoid: leave out the moments between adding a polynomial's row and completing its file (a listed finding)."""
    out = []
    ops = r.oplist()
    for scope, kind, sel, which, param in ev[:1] if avoid else ev:  # an earlier fault would move the later ones
        el = [o for o in ops if scope == "any" or (scope == "db" and "/db" in o[2]) or (scope == "own" and "/db" not in o[2] and o[1] != "stat")]
        if kind == "crash":
            if el and not (avoid and el[sel % len(el)][2].startswith("polynomials/")):
                out.append([el[sel % len(el)][0], "crash", 0])
            continue
        el = [o for o in el if o[1] in FAULT_FOR and (kind == "any" or o[1] == kind)]
        if not el:
            continue
        o = el[sel % len(el)]
        kinds = FAULT_FOR[o[1]]
        k = kinds[which % len(kinds)]
        if avoid and (o[1] == "unlink" and k == "torn" or o[2].startswith("polynomials/") and (o[1] != "openw" or k == "enospc")):
            continue
        out.append([o[0], k, (1 + param % 120) if k == "t_fail" else param])
    return out


def leave_tidy(W):
    for d in W.srv.dirs("tmp"):
        W.srv.rm(d)


def execute(case, ctx):
    W = World(case, ctx)
    ctx.switches = 0
    for a in case["acts"]:
        if a["do"] == "pair":
            run_pair(W, a, ctx)
            continue
        if a["do"] == "print" and W.no_table(a["what"]) and not case.get("known"):
            ctx.probes["empty table"] += 1
            continue
        old = W.state
        saved = W.save() if a.get("ev") else None
        q = W.proc(a, 0)
        tag = W.tag([q])
        r = ctx.run([q])[0]
        step_done(W, a, r, old, tag)
        if not a.get("ev"):
            continue
        W.restore(saved)
        W.state = old
        q = W.proc(a, 0)
        q["faults"] = place(a["ev"], r, a["do"] == "poly" and not case.get("known"))
        if q["faults"]:
            tag = W.tag([q])
            r = ctx.run([q])[0]
            tag += " %s" % " | ".join(l for l in r.log.split("\n") if "!" in l)[:200]
            if r.hung():
                raise Violation("hang", tag)
            if r.sig in (11, 8, 7, 4):
                raise Violation("memory-fault", "signal %d; %s" % (r.sig, tag))
            new = W.read()
            compare(W, old, new, [a], tag)
            if a["do"] == "test":
                check_new_tests(W, old, new, a, tag)
            if r.exit == 0 and not r.sig:
                if a["do"] in TIMED and not any(x[-3 if a["alg"] == 1 else -2] == -2 for x in old[TIMED[a["do"]]] if W.in_class(TIMED[a["do"]], x, a)):
                    expect_done(W, a, r, new, tag)
                elif a["do"] == "test":
                    if any(sum(1 for x in new["integrate"] if W.in_class("integrate", x, dict(a, dual=dual))) < a["count"] for dual in (0, 1)):
                        raise Violation("not-recorded", "%s reported success" % tag)
                elif a["do"] == "poly" and len(new["polynomial"]) == len(old["polynomial"]) and "cannot be" not in r.out and "already" not in r.out and "ERROR" not in r.out:
                    raise Violation("not-recorded", "%s reported success" % tag)
                ctx.probes["still right"] += 1
            else:
                ctx.probes["failed loudly"] += 1
            leave_tidy(W)
            old = W.state
        # once the faults stop, the same command completes the work
        q = W.proc(a, 0)
        r = ctx.run([q])[0]
        step_done(W, a, r, old, "again: " + W.tag([q]))


def step_done(W, a, r, old, tag):
    new = W.read()
    compare(W, old, new, [a], tag)
    if a["do"] == "test":
        check_new_tests(W, old, new, a, tag)
    judge_clean(W, a, r, old, new, tag)
    if r.exit:
        leave_tidy(W)


def run_pair(W, a, ctx):
    acts = [x for x in a["a"] if x["do"] != "print" or not W.no_table(x["what"])]
    if not acts:
        return
    a = dict(a, a=acts)
    W.mirror()
    old = W.state
    qs = [W.proc(x, n) for n, x in enumerate(a["a"])]
    if a["at"] is not None:
        k = a["who"] % len(qs)
        qs[k]["faults"] = [[a["at"], "crash", 0]]
    tag = W.tag(qs)
    rs = ctx.run(qs, sched=a["sched"], sticky=a["sticky"])
    ctx.switches += sum(1 for x, y in zip(ctx.trace, ctx.trace[1:]) if x != y)
    new = W.read()
    compare(W, old, new, a["a"], tag)
    for x, q, r in zip(a["a"], qs, rs):
        if r.hung():
            raise Violation("hang", tag)
        if r.fired:
            continue
        if x["do"] == "print":
            judge_clean(W, x, r, old, old, tag) if not any(y["do"] in TIMED for y in a["a"]) else judge_print(W, x, r, tag)
            continue
        judge_clean(W, x, r, old, new, tag) if len([1 for y in a["a"] if TIMED.get(y["do"]) == TIMED[x["do"]]]) == 1 else judge_company(W, x, r, old, new, tag)
        ctx.probes["in company"] += 1
        if "busy" in r.out:
            ctx.probes["met a busy database"] += 1
    leave_tidy(W)


def judge_company(W, x, r, old, new, tag):
    """Another program may complete rows of the same table meanwhile; what this one claims must hold all the same."""
    t = TIMED[x["do"]]
    col = -3 if x["alg"] == 1 else -2
    cl = [y for y in old[t] if W.in_class(t, y, x)]
    if any(y[c] == -2 for y in old[t] for c in (-3, -2)) or any(y[c] >= 600 for y in new[t] for c in (-3, -2)) or any(y[0] in W.foreign[t] for y in old[t]):
        return
    if r.exit or r.sig:
        if cl and not (x["do"] == "volf" and len(cl) != 1):
            raise Violation("fail", "exit %d sig %d: %s: %s" % (r.exit, r.sig, tag, (r.out + r.err)[-300:]))
        return
    expect_done(W, x, r, new, tag)


def nontrivial(case, ctx):
    return sum(ctx.fired.values()) > 0 or getattr(ctx, "switches", 0) > 1


def shrink(case):
    A = case["acts"]
    for i in range(len(A)):
        if len(A) > 1:
            yield dict(case, acts=A[:i] + A[i + 1:])
    for i, a in enumerate(A):
        def w(b):
            return dict(case, acts=A[:i] + [b] + A[i + 1:])
        if a.get("ev"):
            yield w({k: v for k, v in a.items() if k != "ev"})
            if len(a["ev"]) > 1:
                for e in a["ev"]:
                    yield w(dict(a, ev=[e]))
        if a["do"] == "pair":
            if a["at"] is not None:
                yield w(dict(a, at=None))
            if len(a["a"]) > 2:
                for j in range(len(a["a"])):
                    yield w(dict(a, a=a["a"][:j] + a["a"][j + 1:]))
            for b in a["a"]:
                yield w(b)
            for s in (0, 1, 2):
                if a["sched"] > s:
                    yield w(dict(a, sched=s))
            if a["sticky"] != 90:
                yield w(dict(a, sticky=90))
        if a.get("count", 1) > 1:
            yield w(dict(a, count=a["count"] - 1))
    for k in ("rows", "vols"):
        for i in range(len(case[k])):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    T = case["tops"]
    last = len(T) - 1
    if last and not any(x.get("top") == last for a in A for x in [a] + a.get("a", [])):
        yield dict(case, tops=T[:-1], rows=[r for r in case["rows"] if r[0] != last], vols=[r for r in case["vols"] if r[0] != last])
    if case["polys"] and not any(r[2] == len(case["polys"]) - 1 for r in case["rows"]):
        yield dict(case, polys=case["polys"][:-1])
    if case["step"] != 1000:
        yield dict(case, step=1000)
    if case["rng"] != ["uniform", 1, 0]:
        yield dict(case, rng=["uniform", 1, 0])
