"""C07: merging distributions yields the weighted mixture (reference: measures)."""
import itertools
import math

from vlib import corpus as cp, distmodel as dm
from vlib.distmodel import INF, INC, EXC

WEIGHTS2 = [(0., 1.), (1., 0.), (.5, .5), (.25, .75), (.9, .1)]
WEIGHTS3 = [(.5, .25, .25), (0., .5, .5), (.2, .2, .6), (1 / 3, 1 / 3, 1 / 3)]
SHIFT = [0., .5, 2., 5.]


class Check:
    pid = 'C07'
    level = 'model_checking'
    technique = ('exhaustive enumeration of pairs and triples of distributions (atoms, segments, gaps, point masses, learned samples, several scales) '
                 'and weights on the real merge, compared with the mixture of reference measures')
    note = 'Every ordered pair of the corpus at four relative positions, all weight vectors; triples of a smaller corpus in all orders; updates; invalid weights.'
    space = '2-3 parts over 3 breakpoints each with atom/segment weights, four shifts, three scales; integer/symbolic parts over up to 3 values'
    assumptions = ['weights are given with floating point precision']

    def corpus(self):
        return list(cp.measures(cp.POINTS, [0, 1], [0, 1, 3]))

    def jobs(self, tier):
        n = len(self.corpus())
        t = tier == 'thorough'
        out = [['pair', k, s] for k in range(0, n, 4) for s in (range(4) if t else [(k // 4) % 4])]
        out += [['triple', k] for k in range(12)]
        out += [['learned', k] for k in range(4)]
        out += [['disc', kind, n] for kind in ('int', 'sym') for n in (1, 2, 3)]
        out += [['scale'], ['many'], ['bad']]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.base import functions as fn, intervals as iv
        from jpt.base.errors import Unsatisfiability
        from jpt.distributions import Numeric, IntegerType, SymbolicType, NumericType
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.np, self.fn, self.iv, self.Unsat = np, fn, iv, Unsatisfiability
        self.Numeric, self.QD = Numeric, QuantileDistribution
        self.IntegerType, self.SymbolicType, self.NumericType = IntegerType, SymbolicType, NumericType
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def numeric(self, m):
        return cp.numeric(self.Numeric, self.QD, self.fn, self.iv, m)

    @staticmethod
    def shifted(m, s, k=1.):
        return dm.Measure({(a + s) * k: w for a, w in m.atoms.items()}, [((a + s) * k, (b + s) * k, d / k) for a, b, d in m.segs])

    def merged(self, rec, case, parts, measures, weights, tol=1e-7):
        before = [dm.snapshot(d.cdf) for d in parts]
        ws = list(weights)
        rec.transitions += 1
        rec.validated += 1
        r = self.Numeric.merge(list(parts), ws)
        rec.check([dm.snapshot(d.cdf) for d in parts] == before and ws == list(weights), 'parts-changed', case)
        if not dm.valid_cdf(r.cdf, rec, case):
            return None
        ref = dm.mixture(measures, weights)
        rec.state(tuple(dm.snapshot(r.cdf)))
        dm.same_cdf(r.cdf, ref, rec, case, 'mixture', tol=tol)
        rec.outcome('%d atoms, %d segments' % (len(ref.atoms), len(ref.segs)))
        # densities are the mixtures of the densities
        if ref.segs:
            bad = []
            for a, b, d in ref.segs:
                x = a + (b - a) / 2
                g = r.pdf.eval(x)
                if not abs(g - d) <= 1e-6 * d:
                    bad.append((x, g, d))
            rec.check(not bad, 'density', case, lambda: (bad, r.cdf.pfmt()))
        return r

    def job_pair(self, rec, k, s):
        ms = self.corpus()
        for i in range(k, min(k + 4, len(ms))):
            d = self.numeric(ms[i])
            for j, m2 in enumerate(ms):
                m2 = self.shifted(m2, SHIFT[s])
                e = self.numeric(m2)
                for w in WEIGHTS2:
                    case = [i, j, s, list(w)]
                    with rec.guard(case):
                        self.merged(rec, case, [d, e], [ms[i], m2], w)

    def job_triple(self, rec, k):
        ms = list(cp.measures(cp.POINTS, [0, 1], [0, 1]))[::2]
        for n, (i, j, l) in enumerate(itertools.combinations(range(len(ms)), 3)):
            if n % 12 != k:
                continue
            base = [ms[i], self.shifted(ms[j], .5), self.shifted(ms[l], -1.)]
            parts = [self.numeric(m) for m in base]
            for w in WEIGHTS3:
                ref = None
                for perm in itertools.permutations(range(3)):
                    if perm not in ((0, 1, 2), (2, 0, 1), (1, 0, 2)) :
                        continue
                    case = [i, j, l, list(w), list(perm)]
                    with rec.guard(case):
                        self.merged(rec, case, [parts[p] for p in perm], [base[p] for p in perm], [w[p] for p in perm])
                # merging in two steps
                case = [i, j, l, list(w), 'nested']
                with rec.guard(case):
                    t = w[1] + w[2]
                    inner = self.Numeric.merge(parts[1:], [w[1] / t, w[2] / t])
                    r = self.Numeric.merge([parts[0], inner], [w[0], t])
                    rec.transitions += 1
                    if dm.valid_cdf(r.cdf, rec, case):
                        dm.same_cdf(r.cdf, dm.mixture(base, w), rec, case, 'nested')

    def job_learned(self, rec, k):
        np = self.np
        pool = []
        for vals in ([0., 1., 2.], [1., 1.5, 3.]):
            for data in dm.samples(vals, 3):
                pool.append(self.Numeric(precision=0)._fit(np.array([[v] for v in data])))
        ms = [dm.Measure.of_cdf(d.cdf) for d in pool]
        for i, d in enumerate(pool):
            if i % 4 != k:
                continue
            for j, e in enumerate(pool):
                for w in WEIGHTS2:
                    case = ['learned', i, j, list(w)]
                    with rec.guard(case):
                        self.merged(rec, case, [d, e], [ms[i], ms[j]], w)
                case = ['update', i, j]
                for w in (0., .25, 1.):
                    with rec.guard(case + [w]):
                        c = d.copy()
                        r = c.update(e, w)
                        rec.transitions += 1
                        rec.check(r is c, 'update-return', case)
                        if dm.valid_cdf(c.cdf, rec, case):
                            dm.same_cdf(c.cdf, dm.mixture([ms[i], ms[j]], [1 - w, w]), rec, case + [w], 'update')
                        dm.same_cdf(d.cdf, ms[i], rec, case + [w], 'update-copy')
                        c.update(d, .5)         # a second update leaves the parts of the first alone
                        dm.same_cdf(d.cdf, ms[i], rec, case + [w], 'update-chain')
                        dm.same_cdf(e.cdf, ms[j], rec, case + [w], 'update-chain')

    def job_scale(self, rec):
        """Large, small and mixed scales."""
        ms = list(cp.measures(cp.POINTS, [0, 1], [0, 1]))[::3]
        for k1, k2 in ((1e9, 1e9), (1e-7, 1e-7), (1., 1e9), (1e-6, 1.), (1e12, 1e6)):
            for i, a in enumerate(ms):
                for j, b in enumerate(ms):
                    a_, b_ = self.shifted(a, 0, k1), self.shifted(b, .5, k2)
                    case = ['scale', k1, k2, i, j]
                    with rec.guard(case):
                        self.merged(rec, case, [self.numeric(a_), self.numeric(b_)], [a_, b_], (.5, .5), tol=1e-6)

    def job_many(self, rec):
        """Many parts: equal ones, disjoint ones, staircase."""
        for n in range(1, 13):
            for kind in ('same', 'disjoint', 'overlap', 'dirac'):
                base = {'same': [dm.Measure({}, [(0., 1., 1.)])] * n,
                        'disjoint': [dm.Measure({}, [(2. * k, 2. * k + 1, 1.)]) for k in range(n)],
                        'overlap': [dm.Measure({}, [(0.1 * k, 1 + 0.3 * k, 1 / (1 + .2 * k))]) for k in range(n)],
                        'dirac': [dm.Measure({float(k // 2): 1.}, []) for k in range(n)]}[kind]
                case = ['many', n, kind]
                with rec.guard(case):
                    self.merged(rec, case, [self.numeric(m) for m in base], base, [1 / n] * n)
                    if n > 1:
                        r = self.QD.merge([self.numeric(m)._quantile for m in base])
                        dm.same_cdf(r.cdf, dm.mixture(base, [1 / n] * n), rec, case, 'default-weights')

    def job_disc(self, rec, kind, n):
        labels = [3, 4, 5][:n] if kind == 'int' else ['b', 'a', 'd'][:n]
        T = self.IntegerType('I', 3, 3 + n - 1) if kind == 'int' else self.SymbolicType('S', labels)
        vs = list(cp.vectors(n, [0, 1, 2]))
        for p in vs:
            for q in vs:
                for w in WEIGHTS2:
                    case = [kind, list(p), list(q), list(w)]
                    with rec.guard(case):
                        a, b = T().set(list(p)), T().set(list(q))
                        r = T.merge([a, b], list(w))
                        rec.transitions += 1
                        want = [w[0] * x + w[1] * y for x, y in zip(p, q)]
                        rec.check(all(abs(x - y) < 1e-12 for x, y in zip(r.probabilities, want)), 'mixture', case, lambda: (r, want))
                        rec.check(tuple(a.probabilities) == p and tuple(b.probabilities) == q, 'parts-changed', case)
                        for ev in cp.subsets(labels):
                            rec.check(abs(r.p(set(ev)) - sum(x for l, x in zip(labels, want) if l in ev)) < 1e-9, 'probability', case)
                        u = a.copy().update(b, w[1])
                        rec.check(all(abs(x - y) < 1e-12 for x, y in zip(u.probabilities, want)), 'update', case, lambda: (u, want))
                        rec.check(tuple(a.probabilities) == p, 'update-changed-original', case)
                        # a second update, of the updated and of the merged distribution, leaves all parts alone
                        for v in (.5, 1):
                            u.update(a, v)
                            r.update(u, v)
                            u.update(b, v)
                            r.update(u, 1 - v)
                            want2 = list(b.probabilities) if v == 1 else None
                            rec.check(want2 is None or list(u.probabilities) == want2, 'update-chain', case)
                            rec.check(tuple(a.probabilities) == p and tuple(b.probabilities) == q, 'shared-state', case, lambda: (p, q, a, b))
                        # a distribution made from the probabilities of another, or from an array of the user, has parameters of its own
                        arr = self.np.array(p, dtype=float)
                        a2 = T().set(arr)
                        c = T().set(a2.probabilities)
                        for v in (w[1], .5):
                            a2.update(b, v)
                            c.update(b, 1 - v)
                            c.update(a2, v)
                            a.update(T().set(b.probabilities), 0)
                        rec.check(tuple(arr) == p and tuple(a.probabilities) == p and tuple(b.probabilities) == q, 'shared-array', case, lambda: (arr, a, b))
                        have = p
                        for v in (w[1], .5):
                            have = [(1 - v) * x + v * y for x, y in zip(have, q)]
                        rec.check(all(abs(x - y) < 1e-12 for x, y in zip(a2.probabilities, have)), 'shared-origin', case, lambda: (a2, have))
                        rec.state((kind, tuple(want)))
                        rec.outcome(kind)

    def job_bad(self, rec):
        I, S = self.IntegerType('I', 0, 2), self.SymbolicType('S', ['a', 'b', 'c'])
        mk = {'num': lambda: self.numeric(dm.Measure({}, [(0., 1., 1.)])), 'int': lambda: I().set([.2, .3, .5]), 'sym': lambda: S().set([.2, .3, .5])}
        merge = {'num': self.Numeric.merge, 'int': I.merge, 'sym': S.merge}
        for kind in mk:
            for w in itertools.product([0., .25, .5, 1., 2.], repeat=2):
                if abs(sum(w) - 1) < 1e-6:
                    continue
                case = ['weights', kind, list(w)]
                with rec.guard(case):
                    try:
                        r = merge[kind]([mk[kind](), mk[kind]()], list(w))
                    except ValueError:
                        r = None
                    rec.transitions += 1
                    rec.check(r is None, 'weights-accepted', case)
            for w in (-.5, 1.5):
                case = ['update-weight', kind, w]
                with rec.guard(case):
                    a = mk[kind]()
                    try:
                        a.update(mk[kind](), w)
                        rec.fail('weights-accepted', case)
                    except ValueError:
                        pass
            for other in mk:
                if other != kind:
                    case = ['types', kind, other]
                    with rec.guard(case):
                        try:
                            merge[kind]([mk[kind](), mk[other]()], [.5, .5])
                            rec.fail('types-accepted', case)
                        except TypeError:
                            pass


CHECK = Check()
