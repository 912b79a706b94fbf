"""C08: expectations, moments and most probable states agree with the distribution itself."""
import itertools
import math

from vlib import corpus as cp, distmodel as dm
from vlib.distmodel import INF, INC, EXC

AFFINE = [(0., 1.), (10., 2.), (-5., .5), (1000., 250.)]


class Check:
    pid = 'C08'
    level = 'model_checking'
    technique = ('exhaustive enumeration of numeric, integer and symbolic distributions over small weight alphabets on the real code; moments and '
                 'most probable states compared with direct computation on a reference measure')
    note = 'All atom/segment weight patterns, learned samples, merges, scaled domains; moments up to order 4 at three centers; k-mpe for every k.'
    space = 'numeric: 3-4 breakpoints with weights {0,1,3}, samples up to 4, four affine label scalings; integer/symbolic: all weight vectors over up to 4 values'
    assumptions = ['densities are compared in the internal scale of the domain, as the library reports them']

    def jobs(self, tier):
        n = len(list(cp.measures(cp.POINTS, [0, 1, 3], [0, 1, 3])))
        out = [['num', k] for k in range(0, n, 24)]
        out += [['four', k] for k in range(8)]
        out += [['learned', a] for a in range(len(AFFINE))]
        out += [['merged', k] for k in range(4)]
        out += [['disc', kind, n] for kind in ('int', 'sym') for n in (1, 2, 3, 4)]
        out += [['bool']]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.base import functions as fn, intervals as iv
        from jpt.distributions import Numeric, IntegerType, SymbolicType, NumericType
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.np, self.fn, self.iv = np, fn, iv
        self.Numeric, self.QD = Numeric, QuantileDistribution
        self.IntegerType, self.SymbolicType, self.NumericType = IntegerType, SymbolicType, NumericType
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    @staticmethod
    def close(a, b, scale=1.):
        return a == b or abs(a - b) <= 1e-7 * max(scale, abs(b))

    def stats(self, rec, case, d, m, mean=0., scale=1.):
        """Compare all statistics of d with those of the measure m of its internal values; label = value * scale + mean."""
        rec.transitions += 1
        rec.validated += 1
        before = dm.snapshot(d.cdf)
        lab = lambda x: x * scale + mean
        big = max([abs(lab(p)) for p in m.points()] + [1e-9])
        e, e_ = m.moment(1, 0, lab), m.moment(1, 0)
        v, v_ = m.moment(2, e, lab), m.moment(2, e_)
        ibig = max(abs(p) for p in m.points()) or 1.
        rec.check(self.close(d.expectation(), e, big), 'expectation', case, lambda: (d.expectation(), e, d.cdf.pfmt()))
        rec.check(self.close(d._expectation(), e_, ibig), 'expectation-internal', case, lambda: (d._expectation(), e_))
        rec.check(self.close(d.variance(), v, big ** 2), 'variance', case, lambda: (d.variance(), v))
        rec.check(self.close(d._variance(), v_, ibig ** 2), 'variance-internal', case, lambda: (d._variance(), v_))
        for n in (0, 1, 2, 3, 4):
            for c in (0., e, 1.5):
                w = m.moment(n, c, lab)
                rec.check(self.close(d.moment(n, c), w, (big + abs(c)) ** n), 'moment', case + [n, c], lambda: (d.moment(n, c), w))
                w = m.moment(n, c)
                rec.check(self.close(d._moment(n, c), w, (ibig + abs(c)) ** n), 'moment-internal', case + [n, c], lambda: (d._moment(n, c), w))
        self.modes(rec, case, d, m, lab)
        rec.check(dm.snapshot(d.cdf) == before, 'changed', case)
        rec.state(tuple(before))

    def modes(self, rec, case, d, m, lab):
        if m.segs:
            dens = sorted({s[2] for s in m.segs}, reverse=True)
            want = [(lambda x, q=q: any(a <= x < b and s == q for a, b, s in m.segs), q) for q in dens]
        else:
            want = [(lambda x: x in m.atoms, INF)]
        xs = sorted(set(dm.witnesses(m.points())) | {math.nextafter(p, -INF) for p in m.points()})
        full = d._k_mpe()
        # likelihoods that differ only by rounding of the slopes are different likelihoods
        for k in [None] + list(range(1, len(want) + 3)):
            got = d._k_mpe(k=k)
            exp = want if k is None else want[:k]
            ok = len(got) == len(exp) and all(self.close(g[1], w[1]) for g, w in zip(got, exp))
            ok = ok and all(a[1] > b[1] for a, b in zip(got, got[1:]))
            if rec.check(ok, 'k-mpe', case + [k], lambda: (got, [w[1] for w in exp], d.pdf.pfmt())):
                for (s, q), (inside, _) in zip(got, exp):
                    bad = [x for x in xs if (x in s) != inside(x) and not (x in m.points() and self.edge(m, x))]
                    rec.check(not bad, 'k-mpe-state', case + [k], lambda: (bad, got, d.pdf.pfmt()))
            lgot = d.k_mpe(k=k)
            rec.check(len(lgot) == len(got) and all(a[1] == b[1] for a, b in zip(got, lgot)), 'k-mpe-labels', case + [k])
            for (s, _), (t, _) in zip(got, lgot):
                bad = [x for x in dm.witnesses(m.points()) if not x in m.points() and (x in s) != (lab(x) in t)]
                rec.check(not bad, 'k-mpe-label-state', case + [k], lambda: (bad, s, t))
        s, q = d._mpe()
        rec.check(q == full[0][1] and s == full[0][0], 'mpe', case, lambda: (s, q, full))
        t, q = d.mpe()
        rec.check(q == full[0][1] and t == d.k_mpe()[0][0], 'mpe-label', case)
        rec.outcome('%d density levels, %d atoms' % (len(full), len(m.atoms)))

    @staticmethod
    def edge(m, x):
        """Right ends of the density (float neighbours of the maximum) are a matter of representation."""
        return any(x in (b, math.nextafter(b, -INF)) for _, b, _ in m.segs) and not any(a <= x < b for a, b, _ in m.segs)

    def job_num(self, rec, k):
        for i, m in enumerate(list(cp.measures(cp.POINTS, [0, 1, 3], [0, 1, 3]))[k:k + 24]):
            case = [k + i]
            with rec.guard(case):
                self.stats(rec, case, cp.numeric(self.Numeric, self.QD, self.fn, self.iv, m), m)

    def job_four(self, rec, k):
        for i, m in enumerate(cp.measures([-2., 0., .5, 7.], [0, 1], [0, 1, 2])):
            if i % 8 != k:
                continue
            mean, scale = AFFINE[i % len(AFFINE)]
            T = self.scaled(mean, scale)
            case = ['four', i]
            with rec.guard(case):
                d = T().set(self.QD.from_cdf(cp.cdf_of(self.fn, self.iv, m)))
                self.stats(rec, case, d, m, mean, scale)

    def scaled(self, mean, scale):
        if (mean, scale) == (0., 1.):
            return self.Numeric
        T = self.NumericType('X', [mean - scale, mean + scale])
        assert abs(T.values.mean - mean) < 1e-12 and abs(T.values.scale - scale) < 1e-12
        return T

    def job_learned(self, rec, a):
        np = self.np
        mean, scale = AFFINE[a]
        T = self.scaled(mean, scale)
        for vals in ([0., 1., 2.5], [-1., .25, 4.]):
            for data in dm.samples(vals, 5):
                for prec in (0., .1):
                    case = [list(data), prec]
                    with rec.guard(case):
                        d = T(precision=prec)._fit(np.array([[v] for v in data]))
                        m = dm.Measure.of_cdf(d.cdf)
                        self.stats(rec, case, d, m, mean, scale)
                        # a distribution lies in the range of its data, and so does its mean
                        xs = [mean + scale * v for v in data]
                        rec.check(min(xs) - 1e-6 * scale <= d.expectation() <= max(xs) + 1e-6 * scale, 'mean-range', case, lambda: d.expectation())

    def job_merged(self, rec, k):
        np = self.np
        pool = [self.Numeric(precision=0)._fit(np.array([[v] for v in data])) for data in dm.samples([0., 1., 2.], 3)]
        pool += [self.Numeric(precision=0)._fit(np.array([[v] for v in data])) for data in dm.samples([1., 4.], 2)]
        for i, d in enumerate(pool):
            if i % 4 != k:
                continue
            for j, e in enumerate(pool):
                case = ['merged', i, j]
                with rec.guard(case):
                    r = self.Numeric.merge([d, e], [.25, .75])
                    m = dm.mixture([dm.Measure.of_cdf(d.cdf), dm.Measure.of_cdf(e.cdf)], [.25, .75])
                    want = m.moment(1, 0)
                    rec.check(self.close(r.expectation(), want), 'merged-expectation', case, lambda: (r.expectation(), want))
                    self.stats(rec, case, r, dm.Measure.of_cdf(r.cdf))

    def job_disc(self, rec, kind, n):
        for first in ((0, -2, 5) if kind == 'int' else (0,)):
            labels = list(range(first, first + n)) if kind == 'int' else ['b', 'a', 'd', 'c'][:n]
            T = self.IntegerType('I', first, first + n - 1) if kind == 'int' else self.SymbolicType('S', labels)
            for p in cp.vectors(n, [0, 1, 2, 5]):
                case = [kind, first, list(p)]
                with rec.guard(case):
                    d = T().set(list(p))
                    rec.transitions += 1
                    rec.validated += 1
                    if kind == 'int':
                        for labs, ex, var, suffix in ((labels, d.expectation, d.variance, ''), (list(range(n)), d._expectation, d._variance, '-internal')):
                            e = sum(l * q for l, q in zip(labs, p))
                            v = sum((l - e) ** 2 * q for l, q in zip(labs, p))
                            rec.check(self.close(ex(), e), 'int-expectation' + suffix, case, lambda: (ex(), e))
                            rec.check(self.close(var(), v), 'int-variance' + suffix, case, lambda: (var(), v))
                        for o in range(5):
                            for c in (0, 1.5, -2):
                                w = sum((l - c) ** o * q for l, q in zip(labels, p))
                                rec.check(self.close(d.moment(o, c), w), 'int-moment', case + [o, c], lambda: (d.moment(o, c), w))
                        acc = 0
                        for v in range(n):
                            acc += p[v]
                            rec.check(self.close(d.cdf.eval(v), acc), 'int-cdf', case, lambda: d.cdf.pfmt())
                        rec.check([(q, l) for q, l in d.items()] == list(zip(p, labels)), 'items', case)
                        rec.check(all(d.pdf(l) == q for l, q in zip(labels, p)), 'pmf', case)
                    else:
                        rec.check([(q, l) for q, l in d.items()] == list(zip(p, labels)), 'items', case)
                        rec.check(all(d.pdf(l) == q and d[l] == q for l, q in zip(labels, p)), 'pmf', case)
                        rec.check([q for q, _ in d.sorted()] == sorted(p, reverse=True), 'sorted', case)
                        rec.check(d.is_dirac_impulse() == (max(p) == 1), 'dirac', case)
                    levels = sorted({q for q in p if q}, reverse=True)
                    want = [({l for l, w in zip(labels, p) if w == q}, q) for q in levels]
                    for k in [None] + list(range(1, len(want) + 2)):
                        got = d.k_mpe(k=k)
                        exp = want if k is None else want[:k]
                        rec.check(got == exp, 'k-mpe', case + [k], lambda: (got, exp))
                        val = d._k_mpe(k=k)
                        rec.check([({T.labels[v] for v in s}, q) for s, q in val] == exp, 'k-mpe-internal', case + [k])
                    rec.check(d.mpe() == want[0] and d.mode() == want[0], 'mpe', case)
                    rec.check(tuple(d.probabilities) == p, 'changed', case)
                    self.single(rec, case, T, d, labels, p, kind)
                    rec.state((kind, first, p))
                    rec.outcome('%s %d levels' % (kind, len(levels)))

    def single(self, rec, case, T, d, labels, p, kind):
        """Reading and assigning the probabilities of single labels; deterministic distributions."""
        order = [(q, l) for q, l in d.sorted()]
        rec.check([q for q, _ in order] == sorted(p, reverse=True) and sorted(((q, l) for q, l in order), key=repr) ==
                  sorted(zip(p, labels), key=repr), 'sorted-labels', case, lambda: order)
        for k, l in enumerate(labels):
            if kind == 'int':
                continue
            c = d.copy().create_dirac_impulse(k)
            rec.check(list(c.probabilities) == [float(j == k) for j in range(len(p))], 'impulse', case + [k], lambda: list(c.probabilities))
            rec.check(c.mpe() == ({l}, 1), 'impulse-mode', case + [k], c.mpe)
            rec.check(l in d and d[l] == p[k], 'read', case + [l], lambda: d[l])
            e = d.copy()
            for q in (0., .25, 1.):
                e[l] = q
                rec.check(list(e.probabilities) == [q if j == k else p[j] for j in range(len(p))], 'assign', case + [l, q], lambda: list(e.probabilities))
            rec.check(tuple(d.probabilities) == p, 'assign-shared', case)
        if kind == 'sym':
            rec.check('zz' not in d and 0 not in d, 'contains', case)

    def job_bool(self, rec):
        """Boolean values: the probability of one value determines the other."""
        from jpt.distributions import Bool
        for p in [k / 8 for k in range(9)]:
            for how, mk in (('number', lambda: Bool().set(p)), ('list', lambda: Bool().set([1 - p, p])),
                            ('fit', lambda: Bool()._fit(self.np.array([[float(k < 8 * p)] for k in range(8)])))):
                case = ['bool', p, how]
                with rec.guard(case):
                    d = mk()
                    rec.transitions += 1
                    rec.validated += 1
                    rec.state(('bool', p))
                    rec.check(d[True] == p and d[False] == 1 - p and d.p(True) == p and d.p(False) == 1 - p and d.p({True, False}) == 1, 'bool', case, lambda: list(d.probabilities))
                    for v in (True, False):
                        for q in (0., .25, .5, 1.):
                            for new in (d.copy(), Bool()):
                                new[v] = q
                                rec.check(new[v] == q and new[not v] == 1 - q, 'bool-assign', case + [v, q], lambda: list(new.probabilities))
                    rec.check(d[True] == p, 'bool-shared', case)
                    self.single_bool(rec, case, d, p)

    def single_bool(self, rec, case, d, p):
        order = list(d.sorted())
        rec.check(sorted(order) == sorted([(p, True), (1 - p, False)]) and order[0][0] >= order[1][0], 'bool-sorted', case, lambda: order)
        want = {v for v, q in ((True, p), (False, 1 - p)) if q == max(p, 1 - p)}
        rec.check(d.mpe() == (want, max(p, 1 - p)), 'bool-mpe', case, d.mpe)


CHECK = Check()
