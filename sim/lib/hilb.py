"""Pointed rational cones and their Hilbert bases, computed from the definition."""
import itertools
from fractions import Fraction as Fr
from math import gcd


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def prim(v):
    g = 0
    for x in v:
        g = gcd(g, x)
    return tuple(x // g for x in v) if g else tuple(v)


def rank(rows):
    m = [[Fr(x) for x in r] for r in rows]
    r = 0
    n = len(m[0]) if m else 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        for i in range(r + 1, len(m)):
            if m[i][c]:
                f = m[i][c] / m[r][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        r += 1
    return r


def normal(rows, d):
    """A primitive vector orthogonal to d-1 independent rows, or None."""
    v = []
    for c in range(d):
        minor = [[r[j] for j in range(d) if j != c] for r in rows]
        v.append((-1) ** c * det(minor))
    if not any(v):
        return None
    return prim(v)


def det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** c * m[0][c] * det([r[:c] + r[c + 1:] for r in m[1:]]) for c in range(n) if m[0][c])


def facets(rays):
    """Facet normals of a full-dimensional cone."""
    d = len(rays[0])
    out = set()
    for s in itertools.combinations(rays, d - 1):
        v = normal([list(r) for r in s], d)
        if v is None:
            continue
        vals = [dot(v, r) for r in rays]
        if all(x >= 0 for x in vals):
            out.add(v)
        elif all(x <= 0 for x in vals):
            out.add(tuple(-x for x in v))
    return sorted(out)


def pointed(rays):
    F = facets(rays)
    return len(F) >= len(rays[0]) and rank(F) == len(rays[0])


def extreme(rays):
    F = facets(rays)
    d = len(rays[0])
    return [r for r in rays if rank([f for f in F if dot(f, r) == 0] or [[0] * d]) == d - 1]


def candidates(rays, limit):
    """Box around the sum of the rays' segments; None if it holds too many points."""
    d = len(rays[0])
    lo = [sum(min(0, r[i]) for r in rays) for i in range(d)]
    hi = [sum(max(0, r[i]) for r in rays) for i in range(d)]
    n = 1
    for a, b in zip(lo, hi):
        n *= b - a + 1
    if n > limit:
        return None
    return lo, hi


_cache = {}


def hilbert_basis(rays, limit=60000):
    """Hilbert basis of a full-dimensional pointed cone, or None if the cone is too large for us."""
    key = tuple(map(tuple, rays))
    if key in _cache:
        return _cache[key]
    rays = [tuple(r) for r in rays]
    d = len(rays[0])
    F = facets(rays)
    c = candidates(rays, limit)
    if c is None:
        return None
    h = [sum(f[i] for f in F) for i in range(d)]
    # every element lies in a simplicial subcone's half-open parallelepiped or is a ray
    tops = sorted((dot(h, r) for r in rays), reverse=True)
    top = sum(tops[:d])
    pts = []
    lo, hi = c
    for x in itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]):
        v = dot(h, x)
        if 0 < v <= top and all(dot(f, x) >= 0 for f in F):
            pts.append((v, x))
    pts.sort()
    basis = []
    for v, x in pts:
        for bv, b in basis:
            if bv * 2 > v and bv != v:
                pass
            if bv < v and all(dot(f, x) >= dot(f, b) for f in F):
                break
        else:
            basis.append((v, x))
    res = [x for _, x in basis]
    if len(_cache) > 3000:
        _cache.clear()
    _cache[key] = res
    return res


def gen_cone(R, dmax=4):
    """-> dict(k, d, rays (in Z^d), core (rays in Z^k), emb (d x k primitive integer embedding))."""
    for _ in range(500):
        k = R.choice([2, 3, 3, 4] if dmax >= 4 else [2, 3])
        n = k + R.choice([0, 0, 0, 1, 1, 2, 3])
        if k == 2:
            n = 2
        hi = {2: R.choice([12, 12, 50, 200]), 3: R.choice([5, 5, 5, 12]), 4: 3}[k]
        style = R.choice(["pos", "pos", "height", "mixed", "parallel"])
        rays = set()
        for _ in range(n):
            if style == "pos":
                v = [R.randint(0, hi) for _ in range(k)]
            elif style == "height":    # cone over a lattice polytope
                v = [R.randint(-hi + 1, hi - 1) for _ in range(k - 1)] + [1]
            elif style == "parallel":  # cone over a prism-like or degenerate configuration
                v = [R.choice([0, 1]) for _ in range(k - 1)] + [R.choice([1, 1, 1, 2])]
            else:
                v = [R.randint(-2, hi) for _ in range(k)]
            if any(v):
                rays.add(prim(v))
        rays = sorted(rays)
        R.shuffle(rays)
        if len(rays) < k or rank(rays) < k:
            continue
        if not pointed(rays):
            continue
        ex = extreme(rays)
        if R.random() < 0.9:
            rays = ex
        if candidates(rays, 40000) is None:
            continue
        if sum(abs(x) for f in facets(rays) for x in f) > 220:    # 4ti2 takes minutes for some of these
            continue
        emb = [[1 if i == j else 0 for j in range(k)] for i in range(k)]
        if R.random() < 0.2:
            for _ in range(R.choice([1, 1, 2])):
                big = R.choice([2, 2, 2, 60])
                emb.append([R.randint(1 - big, big) for _ in range(k)])
            R.shuffle(emb)
        return dict(k=k, core=[list(r) for r in rays], emb=emb, redundant=len(ex) != len(rays))
    raise RuntimeError("no cone")


def embed(c, v):
    return tuple(dot(row, v) for row in c["emb"])


def rays_of(c):
    return [embed(c, r) for r in c["core"]]


def basis_of(c):
    b = hilbert_basis(c["core"])
    return None if b is None else [embed(c, x) for x in b]


def member(c):
    """A test of membership in the cone's lattice points."""
    F = facets([tuple(r) for r in c["core"]])
    rows = c["emb"]
    k = c["k"]
    # the identity rows recover the coordinates
    idx = [next(i for i, row in enumerate(rows) if row == [1 if a == j else 0 for a in range(k)]) for j in range(k)]

    def test(x):
        y = [x[i] for i in idx]
        return tuple(x) == embed(c, y) and all(dot(f, y) >= 0 for f in F)
    return test
