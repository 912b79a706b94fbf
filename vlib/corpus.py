"""Bounded-exhaustive corpora of univariate distributions, built through the public API."""
import itertools
import math

from . import distmodel as dm
from .distmodel import INF, INC, EXC, Measure

POINTS = [0., 1., 2.]


def measures(points, aw, gw):
    """All measures with atoms at the points (weights aw) and uniform segments between them (weights gw), normalized."""
    n = len(points)
    for a in itertools.product(aw, repeat=n):
        for g in itertools.product(gw, repeat=n - 1):
            t = sum(a) + sum(g)
            if not t:
                continue
            yield Measure({p: w / t for p, w in zip(points, a) if w},
                          [(p, q, w / t / (q - p)) for p, q, w in zip(points, points[1:], g) if w])


def cdf_of(fn, iv, m):
    """The CDF of a measure as a piecewise function, in the form the library produces."""
    pts = m.points()
    f = fn.PiecewiseFunction()
    f.append(iv.ContinuousSet(-INF, pts[0], EXC, EXC), fn.ConstantFunction(0))
    acc = 0.
    for k, p in enumerate(pts):
        acc += m.atoms.get(p, 0)
        q = pts[k + 1] if k + 1 < len(pts) else INF
        if q == INF:
            g = fn.ConstantFunction(1)
        else:
            d = sum(s[2] for s in m.segs if s[0] <= p and s[1] >= q)
            g = fn.LinearFunction(d, acc - d * p) if d else fn.ConstantFunction(acc)
            acc += d * (q - p)
        f.append(iv.ContinuousSet(p, q, INC, EXC), g)
    return f


def numeric(Numeric, QD, fn, iv, m, **settings):
    return Numeric(**settings).set(QD.from_cdf(cdf_of(fn, iv, m)))


def events(grid, infinite=True):
    """All interval tuples over the grid, non-degenerate notations only (lower < upper, or a closed point)."""
    for k, a in enumerate(grid):
        yield (a, a, INC, INC)
        for b in grid[k + 1:]:
            for l in (INC, EXC):
                for r in (INC, EXC):
                    yield (a, b, l, r)
    if infinite:
        for a in grid:
            for c in (INC, EXC):
                yield (-INF, a, EXC, c)
                yield (a, INF, c, EXC)
        yield (-INF, INF, EXC, EXC)


def simplex(n, weights):
    """All probability vectors proportional to the weights."""
    seen = set()
    for w in itertools.product(weights, repeat=n):
        t = sum(w)
        if t:
            p = tuple(x / t for x in w)
            if p not in seen:
                seen.add(p)
                yield p


def subsets(xs):
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def vectors(n, weights):
    """Probability vectors over a weight alphabet, plus ones with rare events and with near ties."""
    yield from simplex(n, weights)
    if n > 1:
        seen = set(simplex(n, weights))
        for ws in ([0, 1, 1e-9], [0, 1, 1.001], [1, 1 + 1e-9, 1e-12]):
            for p in simplex(n, ws):
                if p not in seen:
                    seen.add(p)
                    yield p
