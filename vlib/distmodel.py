"""Reference model of numeric distributions: point masses plus uniform segments, read off a CDF's pieces."""
import itertools
import math

INF = math.inf
INC, EXC = 1, 2


class Measure:
    """atoms {x: weight}; segs [(a, b, density)] disjoint and sorted."""

    def __init__(self, atoms, segs):
        self.atoms = dict(atoms)
        self.segs = list(segs)

    @staticmethod
    def of_cdf(cdf, tol=1e-9):
        """Read pieces (attributes intervals/functions, coefficients m/c) of a CDF."""
        atoms, segs = {}, []
        prev = None
        for i, f in zip(cdf.intervals, cdf.functions):
            m, c = coeffs(f)
            if prev is not None:
                pm, pc = prev
                jump = (m * i.lower + c) - (pm * i.lower + pc)
                if abs(jump) > tol + noise(f, i.lower) + noise(pf, i.lower):
                    atoms[i.lower] = atoms.get(i.lower, 0) + jump
            if m and i.upper > i.lower:
                segs.append((i.lower, i.upper, m))
            prev = (m, c)
            pf = f
        return Measure(atoms, segs)

    def total(self):
        return math.fsum(list(self.atoms.values()) + [(b - a) * d for a, b, d in self.segs])

    def density(self, x):
        return sum(d for a, b, d in self.segs if a <= x < b)

    def cdf(self, x):
        return math.fsum([w for a, w in self.atoms.items() if a <= x] +
                         [(min(b, x) - a) * d for a, b, d in self.segs if a < x])

    def left(self, x):
        return self.cdf(x) - self.atoms.get(x, 0)

    def p(self, t):
        """t: (lo, hi, left, right)"""
        lo, hi, l, r = t
        if lo > hi or lo == hi and not (l == INC and r == INC):
            return 0.0
        out = [w for a, w in self.atoms.items() if (lo < a or lo == a and l == INC) and (a < hi or a == hi and r == INC)]
        out += [(min(b, hi) - max(a, lo)) * d for a, b, d in self.segs if min(b, hi) > max(a, lo)]
        return math.fsum(out)

    def p_union(self, ts):
        return math.fsum(self.p(t) for t in disjoint(ts))

    def restrict(self, ts):
        ts = disjoint(ts)
        atoms = {a: w for a, w in self.atoms.items() if any(inside(a, t) for t in ts)}
        segs = []
        for a, b, d in self.segs:
            for lo, hi, _, _ in ts:
                if min(b, hi) > max(a, lo):
                    segs.append((max(a, lo), min(b, hi), d))
        return Measure(atoms, sorted(segs))

    def scale(self, k):
        return Measure({a: w * k for a, w in self.atoms.items()}, [(a, b, d * k) for a, b, d in self.segs])

    def moment(self, n, center, f=lambda x: x):
        """E[(f(X) - center)^n] for an affine f."""
        out = [(f(a) - center) ** n * w for a, w in self.atoms.items()]
        for a, b, d in self.segs:
            fa, fb = f(a) - center, f(b) - center
            mass = (b - a) * d
            if abs(fb - fa) <= 1e-13 * max(abs(fa), abs(fb), 1e-300):
                out.append(fa ** n * mass)
            else:
                # mean of u^n over [fa, fb]: sum of fa^i fb^(n-i) / (n+1)
                out.append(mass * math.fsum(fa ** i * fb ** (n - i) for i in range(n + 1)) / (n + 1))
        return math.fsum(out)

    def points(self):
        return sorted({p for a, b, _ in self.segs for p in (a, b)} | set(self.atoms))


def mixture(measures, weights):
    pts = sorted({p for m, w in zip(measures, weights) if w for a, b, _ in m.segs for p in (a, b)})
    atoms = {}
    for m, w in zip(measures, weights):
        for a, v in m.atoms.items():
            if w:
                atoms[a] = atoms.get(a, 0) + v * w
    segs = []
    for a, b in zip(pts, pts[1:]):
        d = math.fsum(w * s[2] for m, w in zip(measures, weights) for s in m.segs if s[0] <= a and s[1] >= b)
        if d:
            segs.append((a, b, d))
    return Measure(atoms, segs)


def noise(f, x):
    """Rounding error of evaluating a piece m*x + c in floating point."""
    m, _ = coeffs(f)
    return 4 * 2.3e-16 * abs(m * x) if not math.isinf(x) else 0


def slack(cdf):
    return 2 * max(max(noise(f, i.lower), noise(f, i.upper)) for i, f in zip(cdf.intervals, cdf.functions))


def coeffs(f):
    n = type(f).__name__
    if n == 'ConstantFunction':
        return 0.0, float(f.value)
    if n == 'LinearFunction':
        return float(f.m), float(f.c)
    raise ValueError('piece of a CDF is %s' % n)


def inside(x, t):
    lo, hi, l, r = t
    return (lo < x or lo == x and l == INC) and (x < hi or x == hi and r == INC)


def disjoint(ts):
    """Split a union of interval tuples into disjoint interval tuples (cells)."""
    pts = sorted({p for t in ts for p in t[:2]})
    out = []
    for k, p in enumerate(pts):
        if not math.isinf(p) and any(inside(p, t) for t in ts):
            out.append((p, p, INC, INC))
        if k + 1 < len(pts):
            q = pts[k + 1]
            if any(t[0] <= p and t[1] >= q for t in ts):
                out.append((p, q, EXC, EXC))
    return out


def valid_cdf(cdf, rec, case, tol=1e-9):
    """Gapless, ordered, from 0 to 1, non-decreasing.  Returns True if so."""
    iv = cdf.intervals
    ok = len(iv) == len(cdf.functions) >= 2 and iv[0].lower == -INF and iv[-1].upper == INF
    ok = ok and all(a.upper == b.lower for a, b in zip(iv, iv[1:]))
    ok = ok and all(i.lower < i.upper for i in iv)
    if not rec.check(ok, 'cdf-shape', case, lambda: cdf.pfmt()):
        return False
    fs = [coeffs(f) for f in cdf.functions]
    tol += slack(cdf)
    ok = fs[0] == (0, 0) and fs[-1][0] == 0 and abs(fs[-1][1] - 1) <= tol and all(f[0] >= 0 for f in fs)
    ok = ok and all((n * b.lower + d) - (m * b.lower + c) >= -tol for (m, c), (n, d), b in zip(fs, fs[1:], iv[1:]))
    return rec.check(ok, 'cdf-monotone', case, lambda: cdf.pfmt())


def witnesses(points, extra=()):
    pts = sorted(set(points))
    out = set(extra)
    for a, b in zip(pts, pts[1:]):
        out |= {a + (b - a) * .5, a + (b - a) * .25}
    out |= set(pts)
    if pts:
        w = max(pts[-1] - pts[0], abs(pts[0]), abs(pts[-1]), 1e-300)
        out |= {pts[0] - w, pts[-1] + w}
    return sorted(out)


def same_cdf(cdf, ref, rec, case, kind, tol=1e-7, points=(), left=True):
    """The implementation's CDF evaluates like the reference measure's (left limits too)."""
    bad = []
    tol += slack(cdf)
    m = Measure.of_cdf(cdf)
    for x in witnesses(list(points) + ref.points()):
        got, want = float(cdf.eval(x)), ref.cdf(x)
        if not abs(got - want) <= tol:
            bad.append(('F(%r)' % x, got, want))
        if left:
            got, want = m.left(x), ref.left(x)
            # a jump may sit on a float neighbour of x
            if not abs(got - want) <= tol and not any(abs(a - x) <= 1e-12 * max(1, abs(x)) for a in m.atoms):
                bad.append(('F(%r-)' % x, got, want))
    return rec.check(not bad, kind, case, lambda: '%s in %s' % (bad[:4], cdf.pfmt()))


def snapshot(cdf):
    return [(i.lower, i.upper, int(i.left), int(i.right)) + coeffs(f) for i, f in zip(cdf.intervals, cdf.functions)]


def samples(values, n):
    """All multisets of size <= n, as sorted tuples."""
    for k in range(1, n + 1):
        yield from itertools.combinations_with_replacement(values, k)
