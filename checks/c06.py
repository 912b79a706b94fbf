"""C06: restricting a univariate distribution is Bayesian conditioning (reference: measures with atoms and segments)."""
import itertools
import math

from vlib import corpus as cp, distmodel as dm
from vlib.distmodel import INF, INC, EXC

GRID = [-1., 0., .5, 1., 1.5, 2., 3.]
AW = [0, 1]
GW = [0, 1, 3]


class Check:
    pid = 'C06'
    level = 'model_checking'
    technique = ('exhaustive enumeration of distributions (all atom/segment weight patterns, all learned small samples, all probability vectors) '
                 'and events (all intervals with all end kinds, unions, all value sets) on the real code against Bayes rule on a measure model')
    note = 'Every distribution of the corpus is restricted to every event and, for pairs, restricted twice; distribution functions are compared at all breakpoints and between.'
    space = 'numeric: 3 points with atoms/segments, samples up to 3-4 observations, all intervals over a 7-point grid, unions of two; integer/symbolic: all weight vectors over up to 4 values, all subsets'
    assumptions = ['events with a mass below 1e-12 are not considered', 'unions are compared after both parts are cut at the grid']

    def jobs(self, tier):
        t = tier == 'thorough'
        n = len(list(cp.measures(cp.POINTS, AW, GW)))
        step = 6
        out = [['num', k, step] for k in range(0, n, step)]
        out += [['learned', k, 3] for k in range(3)]
        out += [['union', k, 12 if not t else 3] for k in range(12 if not t else 3)]
        out += [['twice', k, 12 if not t else 3] for k in range(12 if not t else 3)]
        out += [['disc', kind, n] for kind in ('int', 'sym') for n in (1, 2, 3, 4)]
        out += [['scaled']] + [['rare', k] for k in range(4)]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.base import functions as fn, intervals as iv
        from jpt.base.errors import Unsatisfiability
        from jpt.distributions import Numeric, IntegerType, SymbolicType, NumericType, Bool
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.np, self.fn, self.iv, self.Unsat = np, fn, iv, Unsatisfiability
        self.Numeric, self.QD = Numeric, QuantileDistribution
        self.IntegerType, self.SymbolicType, self.NumericType = IntegerType, SymbolicType, NumericType
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # --------------------------------------------------------------------------------------------
    def numeric(self, m):
        return cp.numeric(self.Numeric, self.QD, self.fn, self.iv, m, precision=.25)

    def event(self, ts):
        s = [self.iv.ContinuousSet(*t) for t in ts]
        return s[0] if len(s) == 1 else self.iv.RealSet(s)

    def conditioned(self, rec, case, d, m, ts, crop=None, points=()):
        """Crop d (with measure m) to the union of ts and compare."""
        before = dm.snapshot(d.cdf)
        e = self.event(ts)
        mass = m.p_union(ts)
        single = [t for t in ts if t[0] == t[1]]
        rec.transitions += 1
        rec.validated += 1
        try:
            r = (crop or d._crop)(e)
        except self.Unsat:
            r = None
        rec.check(dm.snapshot(d.cdf) == before, 'original-changed', case)
        if mass > 1e-12:
            if not rec.check(r is not None, 'refused', case, lambda: (mass, d.cdf.pfmt())):
                return None
            if not dm.valid_cdf(r.cdf, rec, case, tol=max(1e-9, 1e-15 / mass)):
                return None
            ref = m.restrict(ts).scale(1 / mass)
            rec.state((tuple(dm.snapshot(r.cdf))))
            dm.same_cdf(r.cdf, ref, rec, case, 'conditional', tol=max(1e-7, 1e-14 / mass), points=list(points) + GRID)
            rec.outcome('conditioned')
            rec.check(abs(sum(d._p(e) for _ in (0,)) - mass) < 1e-7, 'probability', case, lambda: (d._p(e), mass))
            rec.check(r.settings == d.settings, 'settings', case)
            return r
        dens = [t[0] for t in single if d.pdf.eval(t[0]) > 0]
        if dens and len(single) < len(ts):
            return None     # an event of probability zero that is no plain enumeration of values: both answers are fine
        if dens:
            # a single value of positive density: certainty about it (weighted by the densities for several)
            if not rec.check(r is not None, 'refused-value', case):
                return None
            ws = [d.pdf.eval(x) for x in dens]
            ref = dm.Measure({x: w / sum(ws) for x, w in zip(dens, ws)}, [])
            if dm.valid_cdf(r.cdf, rec, case):
                dm.same_cdf(r.cdf, ref, rec, case, 'point', points=GRID)
            rec.outcome('single value')
        else:
            rec.check(r is None, 'impossible-accepted', case, lambda: (r.cdf.pfmt(), d.cdf.pfmt()))
            rec.check(abs(d._p(e)) < 1e-9, 'impossible-probability', case, lambda: d._p(e))
            rec.outcome('refused')
        return None

    def job_num(self, rec, k, step):
        ms = list(cp.measures(cp.POINTS, AW, GW))
        for i, m in enumerate(ms[k:k + step]):
            d = self.numeric(m)
            for t in cp.events(GRID):
                case = [k + i, list(t)]
                with rec.guard(case):
                    self.conditioned(rec, case, d, m, [t])
            # plain numbers and empty sets
            for x in GRID:
                case = [k + i, x]
                with rec.guard(case):
                    t = (x, x, INC, INC)
                    self.conditioned(rec, case, d, m, [t], crop=lambda e: d._crop(x))
            for e in (self.iv.EMPTY, self.iv.ContinuousSet(1, 1, EXC, EXC)):
                case = [k + i, str(e)]
                with rec.guard(case):
                    try:
                        r = d._crop(e)
                    except self.Unsat:
                        r = None
                    rec.check(r is None, 'empty-accepted', case)

    def job_learned(self, rec, k, step):
        np = self.np
        for i, data in enumerate(dm.samples([0., 1., 2.], 4)):
            if i % step != k:
                continue
            d = self.Numeric(precision=0)._fit(np.array([[v] for v in data]))
            m = dm.Measure.of_cdf(d.cdf)
            for t in cp.events(GRID):
                case = [list(data), list(t)]
                if 0 < m.p(t) < 1e-12:
                    continue
                with rec.guard(case):
                    self.conditioned(rec, case, d, m, [t])

    def job_rare(self, rec, k):
        """Events of very small probability are conditioned on like any other."""
        for i, m in enumerate(cp.measures(cp.POINTS, [0, 1, 1e-7], [0, 1, 1e-7])):
            if i % 4 != k:
                continue
            d = self.numeric(m)
            for t in cp.events([0., .5, 1., 2.]):
                case = ['rare', i, list(t)]
                with rec.guard(case):
                    self.conditioned(rec, case, d, m, [t])

    def job_union(self, rec, k, step):
        grid = [0., .5, 1., 1.5, 2.]
        es = [t for t in cp.events(grid, infinite=False)]
        ms = list(cp.measures(cp.POINTS, [0, 1], [0, 2]))
        for i, m in enumerate(ms):
            d = self.numeric(m)
            for j, (t, u) in enumerate(itertools.combinations(es, 2)):
                if (i + j) % step != k:
                    continue
                if step > 3 and j % 3 != i % 3:
                    continue
                case = [i, list(t), list(u)]
                with rec.guard(case):
                    self.conditioned(rec, case, d, m, [t, u] if (i + j) % 2 else [u, t])

    def job_twice(self, rec, k, step):
        """Restrictions compose: restricting to A and then to B is restricting to the intersection."""
        grid = [0., .5, 1., 2.]
        es = [t for t in cp.events(grid)]
        ms = list(cp.measures(cp.POINTS, [0, 1], [0, 2]))
        for i, m in enumerate(ms):
            d = self.numeric(m)
            if i % step != k:
                continue
            for t in es:
                mass = m.p(t)
                if mass <= 1e-12:
                    continue
                with rec.guard([i, list(t)]):
                    r = d._crop(self.event([t]))
                    mr = m.restrict([t]).scale(1 / mass)
                    for u in es:
                        case = [i, list(t), list(u)]
                        with rec.guard(case):
                            p = mr.p(u)
                            if p <= 1e-12:
                                continue
                            r2 = r._crop(self.event([u]))
                            rec.transitions += 1
                            ref = mr.restrict([u]).scale(1 / p)
                            if dm.valid_cdf(r2.cdf, rec, case):
                                dm.same_cdf(r2.cdf, ref, rec, case, 'composition', points=grid)

    def job_disc(self, rec, kind, n):
        labels = [3, 4, 5, 6][:n] if kind == 'int' else ['b', 'a', 'd', 'c'][:n]
        T = self.IntegerType('I', 3, 3 + n - 1) if kind == 'int' else self.SymbolicType('S', labels)
        for p in cp.vectors(n, [0, 1, 2, 5]):
            d = T().set(list(p))
            prob = dict(zip(labels, p))
            for ev in cp.subsets(labels):
                forms = [('set', set(ev)), ('list', list(ev)), ('tuple', tuple(ev))]
                if len(ev) == 1:
                    forms.append(('scalar', ev[0]))
                for form, e in forms:
                    for space in ('label', 'value'):
                        if kind == 'int' and space == 'label' and form == 'scalar':
                            pass
                        case = [kind, list(p), form, list(ev), space]
                        with rec.guard(case):
                            e_ = e if space == 'label' else type(e)(T.values[l] for l in e) if form != 'scalar' else T.values[e]
                            crop = d.crop if space == 'label' else d._crop
                            arg = set(e_) if form == 'set' else e_
                            rec.transitions += 1
                            try:
                                r = crop(e_)
                            except self.Unsat:
                                r = None
                            rec.check(e_ == arg, 'argument-changed', case)
                            rec.check(tuple(d.probabilities) == p, 'original-changed', case)
                            mass = math.fsum(prob[l] for l in ev)
                            if not mass:
                                rec.check(r is None, 'impossible-accepted', case, lambda: r)
                                rec.outcome('refused')
                                continue
                            if not rec.check(r is not None, 'refused', case):
                                continue
                            want = [prob[l] / mass if l in ev else 0 for l in labels]
                            rec.check(all(abs(a - b) < 1e-9 for a, b in zip(r.probabilities, want)), 'conditional', case, lambda: (r, want))
                            for b in cp.subsets(labels):
                                rec.check(abs(r.p(set(b)) - sum(w for l, w in zip(labels, want) if l in b)) < 1e-9, 'probability', case)
                            rec.state((kind, tuple(want)))
                            rec.outcome('conditioned')
                            # the result shares no state with the original
                            r._params[:] = 0
                            rec.check(tuple(d.probabilities) == p, 'shared-state', case)

    def job_scaled(self, rec):
        """Restrictions of scaled domains in the units of the user."""
        np = self.np
        for values in ([0., 10.], [-4., 4., 6.], [1e6, 3e6], [5., 5.]):
            T = self.NumericType('X', values)
            mean, scale = T.values.mean, T.values.scale
            for data in dm.samples([0., 1., 2.], 3):
                xs = [mean + scale * v for v in data]
                d = T(precision=0)._fit(np.array([[T.values[x]] for x in xs]))
                m = dm.Measure.of_cdf(d.cdf)
                for t in cp.events([-1., 0., .5, 1., 2.]):
                    lt = tuple([a if math.isinf(a) else mean + scale * a for a in t[:2]]) + t[2:]
                    vt = tuple([a if math.isinf(a) else float(T.values[a]) for a in lt[:2]]) + t[2:]
                    case = [values, list(data), list(t)]
                    if 0 < m.p(vt) < 1e-9 or any(abs(m.p((vt[0] - e, vt[1] + f) + vt[2:]) - m.p(vt)) > 1e-9 for e in (0, 1e-12) for f in (0, 1e-12)):
                        continue       # decided by rounding of the scaling only
                    if t[0] == t[1] and not m.p(vt):
                        continue
                    with rec.guard(case):
                        r = self.conditioned(rec, case, d, m, [vt], crop=lambda e: d.crop(self.event([lt])))
                        rec.check(abs(d.p(self.event([lt])) - m.p(vt)) < 1e-7, 'label-probability', case)
                        rec.check(r is None or type(r) is T, 'type', case)


CHECK = Check()
