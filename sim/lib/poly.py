"""Reference geometry: small, exact, and independent of LattE.  Everything is integers and Fractions."""
from fractions import Fraction as Fr
from functools import reduce
from itertools import combinations, product
from math import gcd, factorial, floor, ceil


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def solve(A, b):
    """Unique solution of A x = b over the rationals, or None."""
    n = len(A[0])
    M = [[Fr(v) for v in r] + [Fr(c)] for r, c in zip(A, b)]
    row = 0
    for c in range(n):
        p = next((i for i in range(row, len(M)) if M[i][c] != 0), None)
        if p is None:
            return None
        M[row], M[p] = M[p], M[row]
        iv = 1 / M[row][c]
        M[row] = [v * iv for v in M[row]]
        for i in range(len(M)):
            if i != row and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[row])]
        row += 1
    for i in range(row, len(M)):
        if M[i][n] != 0:
            return None
    return tuple(M[i][n] for i in range(n))


def rank(rows):
    M = [[Fr(v) for v in r] for r in rows]
    r = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            if M[i][c] != 0:
                f = M[i][c] / M[r][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
    return r


def det(A):
    M = [[Fr(v) for v in r] for r in A]
    n = len(M)
    d = Fr(1)
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return Fr(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for i in range(c + 1, n):
            if M[i][c] != 0:
                f = M[i][c] / M[c][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return d


def nullvec(rows, n):
    """A non-zero integer vector orthogonal to rows if the null space has dimension 1, else None."""
    M = [[Fr(v) for v in r] for r in rows]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [v * iv for v in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    if r != n - 1:
        return None
    free = next(c for c in range(n) if c not in piv)
    v = [Fr(0)] * n
    v[free] = Fr(1)
    for i, c in enumerate(piv):
        v[c] = -M[i][free]
    return primitive(v)


def primitive(v):
    v = [Fr(x) for x in v]
    l = reduce(lambda a, b: a * b // gcd(a, b), [x.denominator for x in v], 1)
    w = [int(x * l) for x in v]
    g = reduce(gcd, w, 0)
    return tuple(x // g for x in w) if g else tuple(w)


class Poly:
    """{x : b + a.x >= 0 for (b,a) in ineqs, b + a.x = 0 for (b,a) in eqs}; rows are (b, a1, .., ad)."""

    def __init__(self, d, ineqs, eqs=(), name=""):
        self.d = d
        self.ineqs = [tuple(int(v) for v in r) for r in ineqs]
        self.eqs = [tuple(int(v) for v in r) for r in eqs]
        self.name = name
        self._v = None
        self._c = {}

    def key(self):
        return (self.d, tuple(self.ineqs), tuple(self.eqs))

    def rows(self):
        return self.ineqs + self.eqs

    def vertices(self):
        if self._v is not None:
            return self._v
        d, rows = self.d, self.ineqs
        er = []
        for e in self.eqs:  # keep an independent set of equations
            if rank([x[1:] for x in er + [e]]) == len(er) + 1:
                er.append(e)
        found = {}
        for sub in combinations(range(len(rows)), d - len(er)):
            S = er + [rows[i] for i in sub]
            x = solve([r[1:] for r in S], [-r[0] for r in S]) if S else None
            if x is None or x in found:
                continue
            if all(r[0] + dot(r[1:], x) >= 0 for r in rows) and all(r[0] + dot(r[1:], x) == 0 for r in self.eqs):
                found[x] = 1
        self._v = sorted(found)
        return self._v

    def dim(self):
        v = self.vertices()
        if not v:
            return -1
        return rank([[a - b for a, b in zip(p, v[0])] for p in v[1:]]) if len(v) > 1 else 0

    def integral(self):
        return all(c.denominator == 1 for v in self.vertices() for c in v)

    def denominator(self):
        l = 1
        for v in self.vertices():
            for c in v:
                l = l * c.denominator // gcd(l, c.denominator)
        return l

    def box(self, t=1):
        v = self.vertices()
        if not v:
            return None
        return [(ceil(min(p[i] for p in v) * t), floor(max(p[i] for p in v) * t)) for i in range(self.d)]

    def boxsize(self, t=1):
        b = self.box(t)
        if b is None:
            return 0
        n = 1
        for lo, hi in b:
            n *= max(0, hi - lo + 1)
        return n

    def points(self, t=1, interior=False):
        """Lattice points of the t-th dilate."""
        b = self.box(t)
        if b is None:
            return
        I = [(r[0] * t, r[1:]) for r in self.ineqs]
        E = [(r[0] * t, r[1:]) for r in self.eqs]
        d = self.d

        def rec(k, acc_i, acc_e, x):
            if k == d:
                if all(s > 0 if interior else s >= 0 for s in acc_i) and all(s == 0 for s in acc_e):
                    yield tuple(x)
                return
            lo, hi = b[k]
            for c in range(lo, hi + 1):
                ae = [s + r[1][k] * c for s, r in zip(acc_e, E)]
                if any(s + lo_ > 0 or s + hi_ < 0 for s, (lo_, hi_) in zip(ae, reste[k])):
                    continue
                ai = [s + r[1][k] * c for s, r in zip(acc_i, I)]
                # prune: best achievable value of every row over the rest of the box
                ok = True
                for s, r, best in zip(ai, I, rest[k]):
                    if s + best < 0:
                        ok = False
                        break
                if ok:
                    yield from rec(k + 1, ai, ae, x + [c])
        rest = []
        for k in range(d):
            rest.append([sum(max(r[1][j] * b[j][0], r[1][j] * b[j][1]) for j in range(k + 1, d)) for r in I])
        reste = []
        for k in range(d):
            reste.append([(sum(min(r[1][j] * b[j][0], r[1][j] * b[j][1]) for j in range(k + 1, d)),
                           sum(max(r[1][j] * b[j][0], r[1][j] * b[j][1]) for j in range(k + 1, d))) for r in E])
        if any(lo > hi for lo, hi in b):
            return
        yield from rec(0, [r[0] for r in I], [r[0] for r in E], [])

    def count(self, t=1, interior=False):
        k = (t, interior)
        if k not in self._c:
            self._c[k] = sum(1 for _ in self.points(t, interior))
        return self._c[k]

    # ---- very large dilates: the count comes from the quasi-polynomial of the small polytope ----
    def quasi(self, t):
        """Number of lattice points of the t-th dilate, for any t >= 0."""
        D, n = self.denominator(), self.dim()
        r = t % D
        pts = [(r + j * D, Fr(self.count(r + j * D) if r + j * D else 1)) for j in range(n + 1)]
        tot = Fr(0)
        for x, y in pts:
            for x2, _ in pts:
                if x2 != x:
                    y *= Fr(t - x2, x - x2)
            tot += y
        assert tot.denominator == 1
        return int(tot)

    def dilate(self, k):
        return Dilated(self, k)

    # ---- triangulation and integrals (full-dimensional only) ----
    def simplices(self):
        """A pulling triangulation; list of (d+1)-tuples of vertices."""
        V = self.vertices()
        inc = [frozenset(i for i, v in enumerate(V) if r[0] + dot(r[1:], v) == 0) for r in self.ineqs]

        def adim(s):
            s = sorted(s)
            return rank([[a - b for a, b in zip(V[i], V[s[0]])] for i in s[1:]]) if len(s) > 1 else len(s) - 1

        def rec(face, k):
            if k == 0:
                return [(min(face),)]
            a = min(face)
            out, seen = [], set()
            for f in inc:
                g = face & f
                if a in g or g in seen or not g:
                    continue
                if adim(g) == k - 1:
                    seen.add(g)
                    out += [(a,) + s for s in rec(g, k - 1)]
            return out
        d = self.d
        return [tuple(V[i] for i in s) for s in rec(frozenset(range(len(V))), d)]

    def volume(self):
        if self.dim() < self.d:
            return Fr(0)
        return sum(abs(det([[a - b for a, b in zip(p, s[0])] for p in s[1:]])) for s in self.simplices()) / factorial(self.d)

    def int_linpow(self, l, m):
        """Integral of <l,x>^m."""
        d = self.d
        tot = Fr(0)
        for s in self.simplices():
            vol = abs(det([[a - b for a, b in zip(p, s[0])] for p in s[1:]])) / factorial(d)
            h = hom([dot(l, v) for v in s], m)
            tot += vol * h * factorial(d) * factorial(m) / factorial(d + m)
        return tot

    def int_poly(self, terms):
        """terms: {exponent tuple: coefficient}."""
        d = self.d
        tot = Fr(0)
        for s in self.simplices():
            vol = abs(det([[a - b for a, b in zip(p, s[0])] for p in s[1:]])) / factorial(d)
            # x_j = sum_i lambda_i v_i[j]; expand in lambda
            acc = Fr(0)
            for e, c in terms.items():
                P = {(0,) * (d + 1): Fr(c)}
                for j, k in enumerate(e):
                    for _ in range(k):
                        Q = {}
                        for mon, cf in P.items():
                            for i in range(d + 1):
                                if s[i][j]:
                                    m2 = mon[:i] + (mon[i] + 1,) + mon[i + 1:]
                                    Q[m2] = Q.get(m2, 0) + cf * s[i][j]
                        P = Q
                for mon, cf in P.items():
                    num = 1
                    for k in mon:
                        num *= factorial(k)
                    acc += cf * Fr(num * factorial(d), factorial(d + sum(mon)))
            tot += vol * acc
        return tot

    def int_prodlin(self, factors):
        """Integral of a product of linear forms, each (l, power)."""
        terms = {(0,) * self.d: Fr(1)}
        for l, m in factors:
            for _ in range(m):
                Q = {}
                for e, c in terms.items():
                    for j in range(self.d):
                        if l[j]:
                            f = e[:j] + (e[j] + 1,) + e[j + 1:]
                            Q[f] = Q.get(f, 0) + c * l[j]
                terms = Q
        return self.int_poly(terms)

    # ---- Ehrhart ----
    def ehrhart_poly(self):
        """Coefficients (ascending) of the Ehrhart polynomial of an integral polytope."""
        n = self.dim()
        return interpolate([(t, Fr(self.count(t) if t else 1)) for t in range(n + 1)])

    # ---- files ----
    def hardness(self):
        """Largest index of a simplicial cone on facet normals at a vertex: what enumeration without decomposition costs."""
        m = 1
        er = [e[1:] for e in self.eqs]
        for v in self.vertices():
            t = [r[1:] for r in self.ineqs if r[0] + dot(r[1:], v) == 0]
            k = self.d - rank(er or [[0] * self.d])
            if len(t) > 9:
                return 10 ** 6
            for sub in combinations(t, k):
                A = list(sub)
                for e in er:
                    if rank(A + [e]) == len(A) + 1:
                        A.append(e)
                if len(A) == self.d:
                    m = max(m, abs(int(det(A))))
        return m

    def latte(self, nonneg=True, lin=True, newline=True):
        rows = []
        linidx, nn = [], []
        for r in self.ineqs:
            rows.append(r)
        for r in self.eqs:
            rows.append(r)
            linidx.append(len(rows))
        nnidx = []
        if nonneg:
            unit = {}
            keep = []
            for k, r in enumerate(rows):
                if k < len(self.ineqs) and r[0] == 0 and sorted(r[1:]) == [0] * (self.d - 1) + [1]:
                    unit[r.index(1, 1)] = 1
                else:
                    keep.append((r, k >= len(self.ineqs)))
            rows = [r for r, _ in keep]
            linidx = [i + 1 for i, (r, e) in enumerate(keep) if e]
            nnidx = sorted(unit)
        s = "%d %d\n" % (len(rows), self.d + 1) + "".join(" ".join(map(str, r)) + "\n" for r in rows)
        if linidx:
            s += "linearity %d %s\n" % (len(linidx), " ".join(map(str, linidx)))
        if nnidx:
            s += "nonnegative %d %s\n" % (len(nnidx), " ".join(map(str, nnidx)))
        return s if newline else s[:-1]

    def latte_vrep(self):
        v = self.vertices()
        s = "%d %d\n" % (len(v), self.d + 1)
        return s + "".join("1 " + " ".join(str(c) for c in p) + "\n" for p in v)

    def cdd_ine(self):
        rows = self.ineqs + self.eqs
        s = "H-representation\n"
        if self.eqs:
            s += "linearity %d %s\n" % (len(self.eqs), " ".join(str(len(self.ineqs) + i + 1) for i in range(len(self.eqs))))
        return s + "begin\n%d %d integer\n" % (len(rows), self.d + 1) + "".join(" ".join(map(str, r)) + "\n" for r in rows) + "end\n"

    def cdd_ext(self):
        v = self.vertices()
        return "V-representation\nbegin\n%d %d rational\n" % (len(v), self.d + 1) + \
            "".join("1 " + " ".join(str(c) for c in p) + "\n" for p in v) + "end\n"


class Dilated(Poly):
    """k times a small polytope."""

    def __init__(self, base, k):
        f = lambda r: (r[0] * k,) + r[1:]
        Poly.__init__(self, base.d, [f(r) for r in base.ineqs], [f(r) for r in base.eqs], base.name)
        self.base, self.k = base, k

    def count(self, t=1, interior=False):
        assert not interior
        return self.base.quasi(self.k * t)

    def points(self, t=1, interior=False):
        raise RuntimeError("too many lattice points")

    def boxsize(self, t=1):
        return self.base.boxsize(t)


def gen_big(R, p, prob=0.15, mult=False):
    """Perhaps a very large dilate of p."""
    if R.random() < prob and p.boxsize(p.denominator() * (p.dim() + 1)) <= 60000:
        k = R.choice([10 ** 3, 10 ** 6 + R.randint(0, 9), 2 ** 31 - R.randint(-2, 2), 2 ** 32 + R.randint(-2, 2), 10 ** 10 + R.randint(0, 9), 2 ** 63 + R.randint(-2, 2), 10 ** 20 + R.randint(0, 99), 10 ** 40 + 7])
        return p.dilate(k * p.denominator() if mult else k)
    return p


def affine_lattice_nonempty(p):
    """Does the affine hull of p contain a lattice point?  (Integer solvability of its equations, by column operations.)"""
    V = p.vertices()
    rows = [list(e) for e in p.eqs] + [list(r) for r in p.ineqs if all(r[0] + dot(r[1:], v) == 0 for v in V)]
    if not rows:
        return True
    n = p.d
    A = [[-0 + x for x in r[1:]] for r in rows]
    b = [-r[0] for r in rows]
    x = [0] * n
    col = 0
    for i in range(len(A)):
        while True:
            nz = [j for j in range(col, n) if A[i][j]]
            if len(nz) <= 1:
                break
            j0 = min(nz, key=lambda j: abs(A[i][j]))
            for j in nz:
                if j != j0:
                    q = A[i][j] // A[i][j0]
                    for r in A:
                        r[j] -= q * r[j0]
        rest = b[i] - sum(A[i][j] * x[j] for j in range(col))
        if not nz:
            if rest:
                return False
            continue
        j = nz[0]
        if rest % A[i][j]:
            return False
        for r in A:
            r[col], r[j] = r[j], r[col]
        x[col] = rest // A[i][col]
        col += 1
    return True


def hom(xs, m):
    """Complete homogeneous symmetric polynomial h_m."""
    h = [Fr(1)] + [Fr(0)] * m
    for x in xs:
        for k in range(1, m + 1):
            h[k] += x * h[k - 1]
    return h[m]


def interpolate(pts):
    n = len(pts)
    A = [[Fr(t) ** k for k in range(n)] for t, _ in pts]
    return list(solve(A, [v for _, v in pts]))


def facets_of_points(pts):
    """Integer facet rows of the hull of full-dimensional points (rational allowed)."""
    d = len(pts[0])
    rows = {}
    for sub in combinations(range(len(pts)), d):
        P = [pts[i] for i in sub]
        n = nullvec([[a - b for a, b in zip(p, P[0])] for p in P[1:]], d) if d > 1 else (1,)
        if n is None:
            continue
        vals = [dot(n, p) for p in pts]
        c = dot(n, P[0])
        if all(v >= c for v in vals):
            rows[primitive((-c,) + tuple(n))] = 1
        elif all(v <= c for v in vals):
            rows[primitive((c,) + tuple(-x for x in n))] = 1
    return sorted(rows)


# ---- families -----------------------------------------------------------------------------
def full_rank_points(pts):
    return len(pts) > 1 and rank([[a - b for a, b in zip(p, pts[0])] for p in pts[1:]]) == len(pts[0])


def box_rows(d, lo, hi):
    r = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        r.append((-lo[i],) + tuple(e))
        r.append((hi[i],) + tuple(-x for x in e))
    return r


def gen_point(R, dmax=4):
    """A single point (often a lattice point), given by equations, with inequalities it satisfies strictly or not."""
    while True:
        d = R.randint(1, dmax)
        A = [[R.choice([0, 0, 1, 1, -1, 2, 3, -5]) for _ in range(d)] for _ in range(d)]
        if not det([[Fr(v) for v in r] for r in A]):
            continue
        q = R.choice([1, 1, 1, 2, 3])
        x = [Fr(R.choice([0, 1, 2, 3, -1, -4, 10, 10 ** 9]) * R.choice([1, 1, 1, q]) + R.choice([0, 0, 1]), R.choice([1, q])) for _ in range(d)]
        den = lambda v: v.denominator
        eqs = []
        for r in A:
            b = -dot(r, x)
            eqs.append((int(b * den(b)),) + tuple(int(v * den(b)) for v in r))
        rows = []
        for _ in range(R.choice([0, 1, 1, 2, 3])):
            a = [R.choice([0, 0, 1, -1, 2]) for _ in range(d)]
            if any(a):
                b = -dot(a, x)
                b = R.choice([0, 0, 1, 7]) + -((-b.numerator) // b.denominator) if isinstance(b, Fr) else b + R.choice([0, 0, 1, 7])
                rows.append((int(b),) + tuple(a))
        if R.random() < 0.4:
            rows += [tuple(1 if j == i + 1 else 0 for j in range(d + 1)) for i in range(d) if x[i] >= 0]
        return Poly(d, rows, eqs, "point")


def gen_poly(R, dmax=4, maxpts=1500, kinds=None, want=None):
    """A random polytope that LattE documents as valid input: bounded, given irredundantly enough, equations explicit."""
    for _ in range(200):
        kind = R.choice(kinds or ["boxcut", "boxcut", "simplex", "hull", "ratsimplex", "cross", "eqknap", "eqslice", "transport", "prism", "pyramid", "stack", "shift", "shear", "hisimplex", "birk", "scaled", "ratbox", "rathull"])
        p = _gen(R, kind, dmax)
        if p is None:
            continue
        if not p.vertices() or len(p.vertices()) > 14:
            continue
        if kind != "birk" and p.boxsize() > 40000 or p.count() > maxpts:
            continue
        # implicit equations are out of scope: the affine hull must be what the equations say
        if p.dim() != p.d - rank([e[1:] for e in p.eqs] or [[0] * p.d]):
            continue
        if want and not want(p):
            continue
        p.name = kind
        return p
    raise RuntimeError("generator starved")


def _gen(R, kind, dmax):
    if kind == "boxcut":
        d = R.randint(1, dmax)
        lo = [R.choice([0, 0, 0, -1, -2, -3]) for _ in range(d)]
        hi = [l + R.randint(1, 5 if d < 4 else 3) for l in lo]
        rows = box_rows(d, lo, hi)
        for _ in range(R.randint(0, 3)):
            a = [R.randint(-3, 3) for _ in range(d)]
            if not any(a):
                continue
            x = [R.randint(l, h) for l, h in zip(lo, hi)]
            rows.append((-dot(a, x) + R.choice([0, 0, 1, 2]),) + tuple(a))
        return Poly(d, irredundant(d, rows))
    if kind == "simplex":
        d = R.randint(1, dmax)
        k = R.choice([1, 2, 3, 4, 6])
        pts = [tuple(R.randint(-k, k) for _ in range(d)) for _ in range(d + 1)]
        if not full_rank_points(pts):
            return None
        return Poly(d, facets_of_points(pts))
    if kind == "hull":
        d = R.randint(2, min(dmax, 4))
        k = R.choice([1, 2, 3])
        pts = list({tuple(R.randint(0 if k == 1 else -k, k) for _ in range(d)) for _ in range(R.randint(d + 2, d + 4))})
        if len(pts) < d + 1 or not full_rank_points(pts):
            return None
        return Poly(d, facets_of_points(pts))
    if kind == "ratsimplex":
        d = R.randint(1, dmax)
        a = [R.randint(1, 7) for _ in range(d)]
        b = R.randint(3, 24)
        return Poly(d, [(b,) + tuple(-x for x in a)] + [tuple(1 if j == i + 1 else 0 for j in range(d + 1)) for i in range(d)])
    if kind == "cross":
        d = R.randint(2, min(dmax, 3))
        k = R.randint(1, 3)
        c = [R.randint(-1, 2) for _ in range(d)]
        return Poly(d, [(k - dot(s, c),) + tuple(s) for s in product([1, -1], repeat=d)])
    if kind == "eqknap":
        d = R.randint(2, min(dmax + 1, 5))
        a = [R.randint(1, 6) for _ in range(d)]
        b = R.randint(1, 18)
        return Poly(d, [tuple(1 if j == i + 1 else 0 for j in range(d + 1)) for i in range(d)], [(-b,) + tuple(a)])
    if kind == "eqslice":
        d = R.randint(2, min(dmax, 4))
        hi = [R.randint(1, 4) for _ in range(d)]
        a = [R.randint(-2, 3) for _ in range(d)]
        if sum(1 for x in a if x) < 2:
            return None
        x = [R.randint(0, h) for h in hi]
        p = Poly(d, box_rows(d, [0] * d, hi), [(-dot(a, x),) + tuple(a)])
        if p.dim() < d - 1:
            return None
        return p
    if kind == "transport":
        m, n = R.choice([(2, 2), (2, 3), (3, 2)])
        X = [[R.randint(0, 4) for _ in range(n)] for _ in range(m)]
        d = m * n
        eqs = []
        for i in range(m):
            eqs.append((-sum(X[i]),) + tuple(1 if k // n == i else 0 for k in range(d)))
        for j in range(n - 1):
            eqs.append((-sum(X[i][j] for i in range(m)),) + tuple(1 if k % n == j else 0 for k in range(d)))
        return Poly(d, [tuple(1 if j == i + 1 else 0 for j in range(d + 1)) for i in range(d)], eqs)
    if kind == "prism":
        d = R.randint(2, min(dmax, 4))
        k = R.choice([1, 2, 3])
        pts = [tuple(R.randint(-k, k) for _ in range(d - 1)) for _ in range(d)]
        if not full_rank_points(pts):
            return None
        rows = [r + (0,) for r in facets_of_points(pts)]
        h = R.randint(1, 3)
        s = [R.randint(-1, 1) for _ in range(d - 1)]  # sheared top
        rows += [(0,) + tuple(-x for x in s) + (1,), (h,) + tuple(s) + (-1,)]
        return Poly(d, rows)
    if kind == "pyramid":
        d = R.randint(2, min(dmax, 4))
        k = R.randint(1, 3)
        base = [tuple(p) + (0,) for p in product([0, k], repeat=d - 1)]
        apex = tuple(R.randint(-1, k + 1) for _ in range(d - 1)) + (R.randint(1, 4),)
        return Poly(d, facets_of_points(base + [apex]))
    if kind == "stack":
        d = R.randint(2, min(dmax, 3))
        k = R.randint(1, 2)
        base = [tuple(p) for p in product([0, k], repeat=d)]
        apex = tuple(Fr(k, 2) for _ in range(d - 1)) + (Fr(2 * k + R.randint(1, 3), R.choice([1, 2])),)
        return Poly(d, facets_of_points(base + [apex]))
    if kind in ("shift", "shear", "scaled"):
        q = _gen(R, R.choice(["boxcut", "simplex", "hull", "ratsimplex", "cross", "eqknap", "pyramid"]), min(dmax, 3))
        if q is None:
            return None
        d = q.d
        if kind == "scaled":  # the same rows, multiplied
            ks = [R.choice([1, 2, 3, 7, 10 ** 6]) for _ in q.ineqs]
            return Poly(d, [tuple(k * v for v in r) for k, r in zip(ks, q.ineqs)], [tuple(5 * v for v in r) for r in q.eqs])
        if kind == "shift":  # translated far away
            big = R.choice([10, 1000, 10 ** 6, 2 ** 31, 10 ** 10, 2 ** 63 + 5])
            v = [R.choice([0, 1, -1]) * (big + R.randint(0, 9)) for _ in range(d)]
            f = lambda r: (r[0] - dot(r[1:], v),) + r[1:]
            return Poly(d, [f(r) for r in q.ineqs], [f(r) for r in q.eqs])
        if d < 2:
            return None
        U = [[1 if i == j else 0 for j in range(d)] for i in range(d)]  # x = U y, unimodular
        for _ in range(R.randint(1, 3)):
            i, j = R.sample(range(d), 2)
            c = R.choice([-3, -2, -1, 1, 2, 3])
            for r in U:
                r[j] += c * r[i]
        f = lambda r: (r[0],) + tuple(sum(r[1 + i] * U[i][j] for i in range(d)) for j in range(d))
        return Poly(d, [f(r) for r in q.ineqs], [f(r) for r in q.eqs])
    if kind == "ratbox":  # fractional ends, perhaps with a fractional slab through it
        d = R.randint(1, min(dmax, 3))
        rows = []
        for i in range(d):
            q, s = R.choice([1, 2, 3, 4, 7, 9, 10, 14]), R.choice([1, 2, 3, 5, 7])
            lo = R.randint(-2 * q, 2 * q)
            hi = lo * s // q + R.randint(1, 3 * s)
            e = [0] * d
            e[i] = 1
            rows += [(-lo,) + tuple(q * x for x in e), (hi,) + tuple(-s * x for x in e)]
        if R.random() < 0.6 and d > 1:
            a = [R.randint(-2, 3) for _ in range(d)]
            if any(a):
                n, m = R.randint(-1, 4), R.choice([1, 2, 3])
                rows += [(-n,) + tuple(a), (m * n + R.randint(1, 2 * m),) + tuple(-m * x for x in a)]
        return Poly(d, irredundant(d, rows))
    if kind == "knap":  # few lattice points, or none, in a wide thin simplex
        d = R.choice([2, 3, 3, 3])
        a = [R.randint(5, 60) for _ in range(d)]
        b = R.randint(60, 400)
        nn = [tuple(1 if j == i + 1 else 0 for j in range(d + 1)) for i in range(d)]
        if R.random() < 0.3:
            return Poly(d, nn, [(b,) + tuple(-x for x in a)])
        return Poly(d, irredundant(d, nn + [(b + R.randint(1, 4),) + tuple(-x for x in a), (-b,) + tuple(a)]))
    if kind == "rathull":
        d = R.randint(1, min(dmax, 3))
        q = [R.choice([1, 2, 3, 4, 5, 6]) for _ in range(d + 2)]
        pts = list({tuple(Fr(R.randint(-3 * k, 3 * k), k) for _ in range(d)) for k in q[:d + R.randint(1, 2)]})
        if len(pts) < d + 1 or not full_rank_points(pts):
            return None
        rows = facets_of_points(pts)
        return Poly(d, rows) if all(abs(v) <= (99 if d < 3 else 40) for r in rows for v in r[1:]) else None
    if kind == "hisimplex":
        if dmax < 4:
            return None
        d = R.randint(4, 6)
        a = [R.choice([1, 1, 1, 2, 3]) for _ in range(d)]
        b = R.randint(1, 5)
        return Poly(d, [(b,) + tuple(-x for x in a)] + [tuple(1 if j == i + 1 else 0 for j in range(d + 1)) for i in range(d)])
    if kind == "birk":
        if dmax < 4 or R.random() < 0.8:
            return None
        k = R.randint(1, 3)
        eqs = []
        for i in range(3):
            eqs.append((-k,) + tuple(1 if c // 3 == i else 0 for c in range(9)))
        for j in range(2):
            eqs.append((-k,) + tuple(1 if c % 3 == j else 0 for c in range(9)))
        return Poly(9, [tuple(1 if j == i + 1 else 0 for j in range(10)) for i in range(9)], eqs)
    if kind == "empty":
        d = R.randint(1, min(dmax, 3))
        if R.random() < 0.5:  # rationally non-empty, no integer point
            rows = box_rows(d, [0] * d, [R.randint(1, 3) for _ in range(d)])
            return Poly(d, [r for r in rows if not r[1]] + [(-1, 3) + (0,) * (d - 1), (2, -3) + (0,) * (d - 1)] if d == 1 else
                        [r for r in rows if r[1] == 0] + [(-1, 3) + (0,) * (d - 1), (2, -3) + (0,) * (d - 1)])
        rows = box_rows(d, [0] * d, [2] * d) + [(-2 * d - 1,) + (1,) * d]
        return Poly(d, rows)
    raise ValueError(kind)


def irredundant(d, rows):
    """Drop rows that define no facet (when the polytope is full-dimensional)."""
    rows = list(dict.fromkeys(rows))
    P = Poly(d, rows)
    V = P.vertices()
    if not V or P.dim() < d:
        return rows
    out, seen = [], set()
    for r in rows:
        t = [v for v in V if r[0] + dot(r[1:], v) == 0]
        if t and rank([[a - b for a, b in zip(p, t[0])] for p in t[1:]] or [[0] * d]) == d - 1:
            k = frozenset(t)
            if k not in seen:
                seen.add(k)
                out.append(r)
    return out
