"""Reference model of piecewise functions: a list of (interval tuple, (a, m, c) | None), None = undefined there."""
import itertools
import math

INF = math.inf
INC, EXC = 1, 2

U = 'U'                       # piece present but undefined
ABSENT = None                 # not in the domain


def cells(points):
    """The canonical partition of the reals at the given points: (-inf,p0) [p0,p1) ... [pn,inf)."""
    p = sorted(points)
    out = [(-INF, p[0], EXC, EXC)]
    out += [(a, b, INC, EXC) for a, b in zip(p, p[1:])]
    out.append((p[-1], INF, INC, EXC))
    return out


def functions(points, values):
    """All assignments of values to cells (non-empty domain)."""
    cs = cells(points)
    for vs in itertools.product(values, repeat=len(cs)):
        if all(v is ABSENT for v in vs):
            continue
        yield [(c, v) for c, v in zip(cs, vs) if v is not ABSENT]


def inside(x, t):
    lo, hi, l, r = t
    return (lo < x or lo == x and l == INC) and (x < hi or x == hi and r == INC)


def value(model, x):
    """'out' outside the domain, nan where undefined."""
    for t, v in model:
        if inside(x, t):
            if v == U:
                return math.nan
            a, m, c = v
            return a * x * x + m * x + c
    return 'out'


def undefined(v):
    return v == 'out' or v != v


def impl(iv, fn, model):
    f = fn.PiecewiseFunction()
    for t, v in model:
        f.append(iv.ContinuousSet(*t), piece(fn, v))
    return f


def piece(fn, v):
    if v == U:
        return fn.Undefined()
    a, m, c = v
    if a:
        return fn.QuadraticFunction(a, m, c)
    return fn.LinearFunction(m, c) if m else fn.ConstantFunction(c)


def impl_value(fn, f, x):
    g = f.at(x)
    if g is None:
        return 'out'
    return g.eval(x)


def snapshot(f):
    return ([(i.lower, i.upper, int(i.left), int(i.right)) for i in f.intervals], [params(g) for g in f.functions])


def params(g):
    n = type(g).__name__
    if n == 'ConstantFunction':
        return (n, g.value)
    if n == 'LinearFunction':
        return (n, g.m, g.c)
    if n == 'QuadraticFunction':
        return (n, g.a, g.b, g.c)
    return (n,)


def well_formed(f, rec, case, allow_empty=False):
    """Pieces are disjoint and ordered (by representable members)."""
    last = None
    ok = len(f.intervals) == len(f.functions)
    for i in f.intervals:
        if i.isempty():
            ok = ok and allow_empty
            continue
        if last is not None and not last < i.min:
            ok = False
        last = i.max
    return rec.check(ok, 'malformed', case, lambda: str(f.intervals))


def close(a, b, tol=1e-9):
    if a == 'out' or b == 'out':
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def witnesses(points, lo=-3.0, hi=5.0, step=.25):
    out = set()
    x = lo
    while x <= hi:
        out.add(x)
        x += step
    for p in points:
        out |= {float(p), math.nextafter(p, -INF), math.nextafter(p, INF)}
    return sorted(out)
