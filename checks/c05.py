"""C05: learned numeric distributions are valid and faithful to the data (reference: empirical distribution)."""
import itertools
import math

from vlib import distmodel as dm
from vlib.distmodel import INF

ALPH = {'unit': [0., 1., 2.5, 4.], 'neg': [-3., -1.5, 0., .25], 'big': [-1e6, 0., 3e6, 4e6], 'tiny': [1e-7, 2e-7, 5e-7],
        'huge': [1.7e18, 1.7e18 + 1024, 1.7e18 + 1e9], 'close': [1., 1. + 1e-9, 2.], 'wide': [-1e-3, 0., 1e9]}
PREC = [0., .01, .1, .4]


def ecdf(data):
    """Quantile rank of every distinct observation: (number of observations <= x, minus 1) / (n - 1)."""
    n = len(data)
    return {x: (sum(1 for v in data if v <= x) - 1) / (n - 1) for x in set(data)}


class Check:
    pid = 'C05'
    level = 'model_checking'
    technique = ('exhaustive enumeration of all small samples over value alphabets, all orders, row selections and precisions on the real '
                 'learner, compared with the empirical distribution and with an independent inverse/density model')
    note = 'All multisets of observations up to the bound, all permutations of the small ones, four tolerances, seven value scales.'
    space = 'multisets of up to 5 (quick) / 7 (thorough) observations over 3-4 values at seven scales x 4 precisions; all permutations up to 4/5 observations'
    assumptions = ['observations are finite floats', 'between breakpoints the functions follow their coefficients']

    def jobs(self, tier):
        n = 7 if tier == 'thorough' else 5
        out = []
        for a in ALPH:
            for p in range(len(PREC)):
                out.append(['fit', a, p, n + (1 if a in ('unit', 'neg') else 0)])
            out.append(['order', a, 5 if tier == 'thorough' else 4])
        out.append(['rows', n])
        out.append(['ends', n])
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.distributions import Numeric
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.np, self.Numeric, self.QD = np, Numeric, QuantileDistribution
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def learn(self, data, prec, rows=None, col=0, table=None):
        np = self.np
        arr = np.array(table if table is not None else [[v] for v in data], dtype=np.float64)
        return self.Numeric(precision=prec)._fit(arr, rows=None if rows is None else np.array(rows, dtype=np.int64), col=col)

    def job_fit(self, rec, alph, p, n):
        prec = PREC[p]
        for data in dm.samples(ALPH[alph], n):
            case = [list(data), prec]
            with rec.guard(case):
                d = self.learn(data, prec)
                rec.transitions += 1
                rec.validated += 1
                self.verify(rec, case, d, data, prec)

    def verify(self, rec, case, d, data, prec):
        cdf = d.cdf
        if not dm.valid_cdf(cdf, rec, case):
            return
        rec.state((tuple(dm.snapshot(cdf)),))
        lo, hi = min(data), max(data)
        up = math.nextafter(hi, INF)
        distinct = sorted(set(data))
        rec.outcome('%d distinct, %d pieces' % (len(distinct), len(cdf.intervals)))
        # outside the range of the observations
        rec.check(cdf.eval(math.nextafter(lo, -INF)) == 0, 'mass-left', case)
        tol = 1e-6 + dm.slack(cdf)
        rec.check(abs(cdf.eval(hi) - 1) < tol and cdf.eval(up) == 1, 'mass-right', case, lambda: cdf.pfmt())
        m = dm.Measure.of_cdf(cdf)
        rec.check(abs(m.total() - 1) < tol, 'total', case, lambda: (m.atoms, m.segs))
        if len(distinct) == 1:
            rec.check(m.atoms == {lo: 1} and not m.segs, 'point-mass', case)
        else:
            e = ecdf(data)
            rec.check(set(m.atoms) <= {lo}, 'atoms', case, lambda: m.atoms)
            rec.check(abs(m.atoms.get(lo, 0) - e[lo]) < tol, 'atom-at-minimum', case, lambda: (m.atoms, e[lo]))
            # the breakpoints are observations at which the function meets the empirical distribution
            bps = {x for a, b, _ in m.segs for x in (a, b)}
            for x in bps:
                y = x if x in e else hi if x == up else None
                if rec.check(y is not None, 'breakpoint', case, lambda: x):
                    rec.check(abs(cdf.eval(y) - e[y]) < tol, 'interpolation', case, lambda: (y, cdf.eval(y), e[y]))
            sq = [(cdf.eval(x) - e[x]) ** 2 for x in distinct]
            if prec == 0:
                rec.check(max(sq) < tol ** 2, 'exact', case, lambda: (sq, cdf.pfmt()))
            else:
                rec.check(math.fsum(sq) / len(sq) <= (prec + tol) ** 2, 'tolerance', case, lambda: (sq, cdf.pfmt()))
        # the density is the slope of the distribution function, non-negative, positive at the observations
        pdf = d.pdf
        for i, f in zip(pdf.intervals, pdf.functions):
            rec.check(f.value >= 0, 'negative-density', case)
        for x in dm.witnesses(distinct + [up], data):
            got = pdf.eval(x)
            if len(distinct) == 1:
                rec.check((got == INF) if x == lo else got == 0, 'density', case, lambda: (x, got))
            else:
                want = m.density(x)
                rec.check(abs(got - want) <= 1e-9 * want, 'density', case, lambda: (x, got, want))
        rec.check(all(pdf.eval(x) > 0 for x in data), 'observation-without-density', case, lambda: pdf.pfmt())
        # quantile function: inf {x : F(x) > y}, and the maximum for y = 1
        ppf = d.ppf
        bad = []
        span = hi - lo
        ys = sorted({k / 8 for k in range(9)} | {min(max(cdf.eval(x), 0), 1) for x in distinct})
        for y in ys:
            q = ppf.eval(y)
            want = self.quantile(m, y, hi)
            slack = max(((1e-9 + dm.slack(cdf)) / s[2] for s in m.segs if s[0] <= want <= s[1]), default=0) + 1e-9 * max(abs(lo), abs(hi))
            if not abs(q - want) <= slack + 1e-9 * span:
                # at a plateau either end is a quantile of the level
                bad.append((y, q, want))
        rec.check(not bad, 'quantile', case, lambda: (bad[:3], ppf.pfmt(), cdf.pfmt()))
        rec.check(all(self.undefined(ppf.eval(y)) for y in (-.25, -1e-9, 1 + 1e-9, 2)), 'quantile-outside', case, lambda: ppf.pfmt())
        rec.check(all(self.close(d.quantile(y), ppf.eval(y)) for y in ys), 'quantile-api', case)

    @staticmethod
    def undefined(v):
        return v is None or v != v

    @staticmethod
    def close(a, b):
        return a == b or abs(a - b) < 1e-9

    @staticmethod
    def quantile(m, y, hi):
        if y >= 1:
            return hi
        acc = 0.0
        events = sorted([(a, 0, w, None) for a, w in m.atoms.items()] + [(a, 1, (b - a) * s, (a, b, s)) for a, b, s in m.segs])
        for x, _, w, seg in events:
            if acc + w > y + 1e-12:
                return x if seg is None else x + (max(y - acc, 0)) / seg[2]
            acc += w
        return hi

    def job_order(self, rec, alph, n):
        for data in dm.samples(ALPH[alph], n):
            for prec in (0., .1):
                ref = None
                for perm in sorted(set(itertools.permutations(data))):
                    case = [list(perm), prec]
                    with rec.guard(case):
                        s = dm.snapshot(self.learn(perm, prec).cdf)
                        rec.transitions += 1
                        if ref is None:
                            ref = s
                        rec.check(s == ref, 'order', case, lambda: (s, ref))

    def job_rows(self, rec, n):
        """Only the selected rows and column matter, and the data are not modified."""
        np = self.np
        vals = [0., 1., 2.5]
        for data in itertools.product(vals, repeat=4):
            table = np.array([[7. * k, v, -v] for k, v in enumerate(data)], dtype=np.float64)
            for k in range(1, 5):
                for rows in itertools.permutations(range(4), k):
                    case = [list(data), list(rows)]
                    with rec.guard(case):
                        before = table.copy()
                        r = np.array(rows, dtype=np.int64)
                        d = self.Numeric(precision=0)._fit(table, rows=r, col=1)
                        rec.transitions += 1
                        ref = self.learn([data[i] for i in sorted(rows)], 0.)
                        rec.check(dm.snapshot(d.cdf) == dm.snapshot(ref.cdf), 'rows', case)
                        rec.check((table == before).all() and list(r) == list(rows), 'data-changed', case)
        # learning again replaces what was learned before
        pool = list(dm.samples(vals, 3))
        for a in pool:
            for b in pool:
                case = ['refit', list(a), list(b)]
                with rec.guard(case):
                    q = self.QD(epsilon=0)
                    for s in (a, b):
                        q.fit(np.array([[v] for v in s]), np.arange(len(s)), 0)
                        q.cdf, q.pdf, q.ppf
                    ref = self.learn(b, 0.)
                    rec.transitions += 1
                    rec.check(dm.snapshot(q.cdf) == dm.snapshot(ref.cdf), 'refit', case)
                    xs = dm.witnesses([-1.] + vals)
                    rec.check(all(q.pdf.eval(x) == ref.pdf.eval(x) for x in xs), 'refit-density', case)
                    rec.check(all(self.close(q.ppf.eval(y), ref.ppf.eval(y)) for y in (0, .25, .5, 1)), 'refit-quantile', case)

    def job_ends(self, rec, n):
        """Imaginary leftmost and rightmost points act like observations."""
        np = self.np
        for data in dm.samples([0., 1., 2.5], min(n, 5)):
            for l in (None, -1., -.5):
                for r in (None, 3., 10.):
                    case = [list(data), l, r]
                    with rec.guard(case):
                        kw = {}
                        if l is not None:
                            kw['leftmost'] = l
                        if r is not None:
                            kw['rightmost'] = r
                        q = self.QD(epsilon=0)
                        q.fit(np.array([[v] for v in data]), np.arange(len(data)), 0, **kw)
                        rec.transitions += 1
                        full = ([l] if l is not None else []) + list(data) + ([r] if r is not None else [])
                        ref = self.learn(full, 0.)
                        rec.check(dm.snapshot(q.cdf) == dm.snapshot(ref.cdf), 'ends', case, lambda: q.cdf.pfmt())


CHECK = Check()
