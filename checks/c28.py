"""C28: the sum of two distributions is the distribution of the sum."""
import itertools
import math
from fractions import Fraction

from vlib import corpus, distmodel as dm
from vlib.distmodel import INF, INC, EXC, Measure


class Check:
    pid = 'C28'
    level = 'model_checking'
    technique = ('exhaustive enumeration of pairs of distributions over small alphabets on the real code; the distribution function of the sum is compared with the exact convolution of the two '
                 'measures at every knot, and integer sums with counting over all pairs of values')
    note = 'Densities, point masses and mixtures of both; sums of fitted and merged distributions; commutativity; chains of integer sums; operands unchanged.'
    space = ('all pairs of measures with atoms and segments on two or three points (seven shifted/scaled grids), all pairs of fits to up to 3 samples; all pairs (triples) of integer '
             'distributions over domains of size 1-4')
    assumptions = ['between the knots of the exact sum, the library approximates its density by constants (as documented by rectify)']

    def jobs(self, tier):
        t = tier == 'thorough'
        p = 8 * (1 + 3 * t)
        out = [['measures', k, p, t] for k in range(p)]
        out += [['fits', k, 8, t] for k in range(8)]
        out += [['integers', k, 4, t] for k in range(4)]
        return out

    def run(self, job, rec):
        from jpt.base import functions as fn, intervals as iv
        from jpt.distributions import Numeric, IntegerType
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.fn, self.iv, self.Numeric, self.QD, self.IntegerType = fn, iv, Numeric, QuantileDistribution, IntegerType
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def total(self, a, b, z, strict=False):
        """P(X + Y <= z) (or < z) of independent X ~ a, Y ~ b."""
        eps = 1e-9
        le = (lambda s: s < z - eps) if strict else (lambda s: s <= z + eps)
        G = lambda t: t * t / 2 if t > 0 else 0.
        r = []
        for x, w in a.atoms.items():
            for y, v in b.atoms.items():
                r.append(w * v * le(x + y))
        for atoms, segs in ((a.atoms, b.segs), (b.atoms, a.segs)):
            for x, w in atoms.items():
                for p, q, d in segs:
                    r.append(w * d * (min(max(z - x, p), q) - p))
        for p, q, d in a.segs:
            for u, v, e in b.segs:
                r.append(d * e * (G(z - p - u) - G(z - q - u) - G(z - p - v) + G(z - q - v)))
        return math.fsum(r)

    def chord(self, a, b):
        """By how much P(X + Y <= z) changes at most when the density of the continuous part is replaced by its mean between every two kinks."""
        slope = {}
        for p, q, d in a.segs:
            for u, v, e in b.segs:
                for z, w in ((p + u, d * e), (q + u, -d * e), (p + v, -d * e), (q + v, d * e)):
                    slope[round(z, 9)] = slope.get(round(z, 9), 0) + w
        kinks = sorted(z for z, w in slope.items() if abs(w) > 1e-12)
        smooth = Measure({}, a.segs), Measure({}, b.segs)

        def gap(z):
            for u, v in zip(kinks, kinks[1:]):
                if u < z < v:
                    f, g = self.total(*smooth, u), self.total(*smooth, v)
                    return f + (g - f) * (z - u) / (v - u) - self.total(*smooth, z)
            return 0.
        return gap

    def judge(self, rec, case, da, db, a, b):
        before = dm.snapshot(da.cdf), dm.snapshot(db.cdf)
        s = da + db
        rec.transitions += 1
        rec.check((dm.snapshot(da.cdf), dm.snapshot(db.cdf)) == before and s is not da and s is not db, 'changed', case)
        rec.check(type(s) is type(da) and s.settings == da.settings, 'settings', case, lambda: s.settings)
        if not dm.valid_cdf(s.cdf, rec, case, tol=1e-8):
            return None
        knots = sorted({round(x + y, 12) for x in a.points() for y in b.points()})
        bad = []
        gap = self.chord(a, b)
        between = lambda got, want, z, tol: min(want, want + gap(z)) - tol <= got <= max(want, want + gap(z)) + tol
        tiny = 1e-9 * max(1, max(map(abs, knots)))
        for z in knots:
            got, want = float(s.cdf.eval(z + tiny)), self.total(a, b, z)
            if not between(got, want, z, 1e-6):
                bad.append(('F(%g)' % z, got, want))
            got, want = float(s.cdf.eval(z - tiny)), self.total(a, b, z, True)
            if not between(got, want, z, 1e-6):
                bad.append(('F(%g-)' % z, got, want))
        for z in (knots[0] - 1, knots[-1] + 1):
            if abs(s.cdf.eval(z) - (z > 0 and z > knots[0])) > 1e-9 and abs(s.cdf.eval(z) - (z >= knots[-1])) > 1e-9:
                bad.append(('F(%g)' % z, s.cdf.eval(z)))
        ok = rec.check(not bad, 'sum', case, lambda: '%s in %s' % (bad[:5], s.cdf.pfmt()))
        p = s.p(self.iv.ContinuousSet(knots[0] - 1e-6, knots[-1] + 1e-6))
        ok &= rec.check(abs(p - 1) < 1e-8, 'mass', case, lambda: p)
        for u, v in zip(knots, knots[1:]):
            if v - u > 1e-6:
                got, want = s.p(self.iv.ContinuousSet(u + tiny, v - tiny)), self.total(a, b, v, True) - self.total(a, b, u)
                ok &= rec.check(abs(got - want) < 1e-5 + abs(gap(u)) + abs(gap(v)), 'probability', case, lambda: (u, v, got, want))
        rec.validated += 1
        return s if ok else None

    def make(self, m):
        return self.Numeric(precision=.03).set(self.QD.from_cdf(corpus.cdf_of(self.fn, self.iv, m)))

    def job_measures(self, rec, part, parts, t):
        left = list(corpus.measures([0., 1.], (0, 1, 2), (0, 1)))
        grids = ([0., 1.], [0., 2.], [-1., .5], [3., 3.5], [-2., -1.], [0., .25], [-1., 1.])
        wide = [m for m in corpus.measures([0., 1., 3.], (0, 1), (0, 1, 2))]
        no = -1
        pairs = [(a, b) for a in left for g in grids for b in corpus.measures(g, (0, 1), (0, 1))]
        pairs += [(a, b) for a in wide[::1 if t else 2] for b in corpus.measures([-.5, 1.5], (0, 1), (0, 1))]
        if t:
            pairs += [(a, b) for a in wide for b in wide]
        for a, b in pairs:
            no += 1
            if no % parts != part:
                continue
            case = {'left': [a.atoms, a.segs], 'right': [b.atoms, b.segs]}
            with rec.guard(case):
                rec.state(case)
                self.judge(rec, case, self.make(a), self.make(b), a, b)
                self.judge(rec, {**case, 'swapped': True}, self.make(b), self.make(a), b, a)

    def fit(self, values):
        import numpy as np
        return self.Numeric(precision=.01).fit(np.array([[v] for v in values], dtype=float), None, 0)

    def job_fits(self, rec, part, parts, t):
        samples = list(dm.samples([0., 1., 2.5], 2 + t)) + [(0., 1., 2.5), (1., 1., 2.5), (-1., 4.), (0., 1., 2.5, 4.)]
        no = -1
        for x, y in itertools.product(samples, repeat=2):
            no += 1
            if no % parts != part:
                continue
            case = {'fits': [x, y]}
            with rec.guard(case):
                a, b = self.fit(x), self.fit(y)
                self.judge(rec, case, a, b, Measure.of_cdf(a.cdf), Measure.of_cdf(b.cdf))
                if x < y:
                    case = {'merged': [x, y], 'plus': x}
                    m = self.Numeric.merge([a, b], [.25, .75])
                    self.judge(rec, case, m, a, Measure.of_cdf(m.cdf), Measure.of_cdf(a.cdf))
        # sums of sums
        for x, y, z in itertools.product(samples[:5], repeat=3):
            no += 1
            if no % parts != part:
                continue
            case = {'fits': [x, y, z]}
            with rec.guard(case):
                s = self.fit(x) + self.fit(y)
                c = self.fit(z)
                self.judge(rec, case, s, c, Measure.of_cdf(s.cdf), Measure.of_cdf(c.cdf))

    def job_integers(self, rec, part, parts, t):
        domains = [(0, 0), (0, 1), (-1, 1), (2, 4), (5, 5), (0, 3), (-3, -2)]
        ty = [self.IntegerType('C28_%d' % k, lo, hi) for k, (lo, hi) in enumerate(domains)]
        no = -1

        def dists(k, weights):
            lo, hi = domains[k]
            for w in itertools.product(weights, repeat=hi - lo + 1):
                if sum(w):
                    yield ty[k]().set([x / sum(w) for x in w]), {lo + i: x / sum(w) for i, x in enumerate(w)}

        def check(case, d, e, p, q, name=None):
            before = [float(x) for x in d.probabilities], [float(x) for x in e.probabilities]
            s = d + e if name is None else d.add(e, name)
            rec.transitions += 1
            want = {}
            for (x, u), (y, v) in itertools.product(p.items(), q.items()):
                want[x + y] = want.get(x + y, 0) + u * v
            ok = rec.check((s.lmin, s.lmax) == (min(p) + min(q), max(p) + max(q)), 'domain', case, lambda: (s.lmin, s.lmax))
            ok = ok and rec.check(set(s.labels.values()) == set(range(min(p) + min(q), max(p) + max(q) + 1)), 'labels', case)
            ok = ok and rec.check(all(abs(s.p({z}) - want.get(z, 0)) < 1e-9 and abs(s.p(z) - want.get(z, 0)) < 1e-9 for z in s.labels.values()), 'sum', case, lambda: ([s.p(z) for z in s.labels.values()], want))
            ok = ok and rec.check(abs(s.expectation() - d.expectation() - e.expectation()) < 1e-9 and abs(s.variance() - d.variance() - e.variance()) < 1e-9, 'moments', case)
            rec.check(([float(x) for x in d.probabilities], [float(x) for x in e.probabilities]) == before, 'changed', case)
            rec.validated += 1
            return s, want
        for i, k in itertools.product(range(len(domains)), repeat=2):
            for (d, p), (e, q) in itertools.product(dists(i, (0, 1, 3) if i < 5 else (0, 1)), dists(k, (0, 1))):
                no += 1
                if no % parts != part:
                    continue
                case = {'left': p, 'right': q}
                with rec.guard(case):
                    rec.state(case)
                    s, want = check(case, d, e, p, q, 'total' if no % 3 == 0 else None)
                    full = {z: want.get(z, 0) for z in range(s.lmin, s.lmax + 1)}
                    if no % 5 == 0:
                        check({**case, 'plus': p}, s, d, full, p)


CHECK = Check()
