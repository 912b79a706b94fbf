"""C20: sampling draws exactly from the described distribution, for every outcome of the random source."""
import itertools
import math

from vlib import corpus as cp, distmodel as dm, rng, trees as tr
from vlib.distmodel import INF, INC, EXC, Measure
from checks.c12 import CONFIGS

rng.install()                               # before the library is imported

NEXT = math.nextafter
AW, GW = [0, 1, 2], [0, 1, 3]


class Check:
    pid = 'C20'
    level = 'model_checking'
    technique = ('stateless exploration of every path of random-generator outcomes (controlled random source: all discrete draws, all cells and the extreme and boundary '
                 'values of uniform draws) through the real samplers; accumulated path weights against the reference distribution')
    note = 'Support, proportionality, independence of consecutive samples and of variables, number and layout of the samples, evidence of conditioned models.'
    space = ('all intervals and unions over 5-6 end points incl. neighbouring floats, all weight vectors over {0,1,2,3,1e-9} up to 4 elements, all atom/segment measures '
             'over three points, learned models up to 4 rows of nine schemas, 1-2 samples each, periodic outcome patterns for longer ones')
    assumptions = ['unbounded intervals cannot be sampled uniformly and are excluded; unions are of disjoint intervals',
                   'pieces of continuous density are sampled up to their end points (null sets)']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['interval', k, 4] for k in range(4)]
        out += [['realset', k, 8] for k in range(8)]
        out += [['wheel', n, k, 4, t] for n in (1, 2, 3, 4) for k in range(4 if n > 2 else 1) for _ in ([0] if n > 2 or k == 0 else [])]
        out += [['disc', kind, n, k, 1 if n < 3 else 6, t] for kind in ('sym', 'int') for n in (1, 2, 3) for k in range(1 if n < 3 else 6)] + [['disc', 'bool', 2, 0, 1, t]]
        out += [['rows', name, n] for name in self.ROWS for n in ((1, 2, 3) if t or name != 'two leaves' else (1, 2))]
        out += [['num', k, 8, t] for k in range(8)]
        for schema, nmax, parts in [('x', 3, 2), ('xs', 3, 6), ('xy', 2, 4), ('xi', 3, 5), ('si', 3, 4), ('bx', 3, 4), ('zs', 3, 4), ('sx', 3, 4), ('xsi', 2, 6)]:
            if t:
                nmax, parts = nmax + 1, parts * 6
            out += [['jpt', schema, nmax, k, parts, t] for k in range(parts)]
        return out

    def run(self, job, rec):
        from jpt.base import intervals as iv, functions as fn, sampling
        from jpt.distributions import Numeric, IntegerType, SymbolicType, NumericType, Bool
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.iv, self.fn, self.sampling = iv, fn, sampling
        self.Numeric, self.QD, self.IntegerType, self.SymbolicType, self.NumericType, self.Bool = \
            Numeric, QuantileDistribution, IntegerType, SymbolicType, NumericType, Bool
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def explore(self, rec, case, run, ok, key, probs, cells=8, special=(0., rng.TOP), n=1, slack=1.01, budget=60000, aligned=True):
        """All paths of run(): every result satisfies ok; the weights of key(result) agree with probs(k) for all k seen.

        probs: dict key -> probability (complete), compared after up to two refinements of the cells."""
        for refine in range(3):
            got, drawn, results = {}, 0, 0
            try:
                for r, w, log in rng.explore(run, cells, special, budget):
                    rec.transitions += 1
                    results += 1
                    drawn += len(log)
                    if refine == 0:
                        bad = ok(r)
                        if bad:
                            rec.fail('outcome', case, '%s: %s after generator outcomes %s' % (bad, show(r), log[:12]))
                            return
                    if w:
                        k = key(r)
                        got[k] = got.get(k, 0) + w
            except rng.Budget:
                rec.outcome('budget')
                return
            rec.validated += results
            if not drawn and len([p for p in probs.values() if p > 1e-6]) > 1:
                rec.outcome('source not controlled')
                return
            worst = max((abs(got.get(k, 0) - probs.get(k, 0)), str(k)) for k in set(got) | set(probs))
            if worst[0] <= 1e-7:
                rec.outcome('proportional')
                return
            if not aligned and worst[0] <= slack * n / cells:
                break
            if refine < 2:
                cells *= 4
        if not rec.check(worst[0] <= slack * n / cells, 'proportion', case, lambda: 'drawn %s, expected %s' % (pretty(got), pretty(probs))):
            return
        rec.outcome('proportional within the grid')

    def explore_exact(self, rec, case, run, ok, key, probs):
        """All paths with every generator outcome taken from two equally likely halves, which is exact for probabilities that are
        powers of two.  A deviation must persist on a finer grid, which it does not for a generator used in another way."""
        was = None
        for cells in (2, 4):
            got, drawn = {}, 0
            try:
                for r, w, log in rng.explore(run, cells, (), 80000):
                    rec.transitions += 1
                    rec.validated += 1
                    drawn += len(log)
                    if drawn % 500 < len(log):
                        rec.tick(case)
                    bad = ok(r)
                    if bad:
                        return rec.fail('outcome', case, '%s: %s after generator outcomes %s' % (bad, show(r), log[:12]))
                    if w:
                        k = key(r)
                        got[k] = got.get(k, 0) + w
            except rng.Budget:
                return rec.outcome('budget')
            if not drawn:
                return rec.outcome('source not controlled')
            worst = max((abs(got.get(k, 0) - probs.get(k, 0)), str(k)) for k in set(got) | set(probs))
            if worst[0] <= 1e-7:
                return rec.outcome('exactly proportional')
            if was is None:
                was = worst[0], got
            elif worst[0] < .5 * was[0]:
                return rec.outcome('generator used in another way')
        rec.fail('rows', case, 'drawn %s, expected %s' % (pretty(was[1]), pretty(probs)))

    def patterns(self, rec, case, run, ok):
        """Longer samples under periodic patterns of outcomes."""
        for pat in itertools.chain(itertools.product(range(10), repeat=1), [(0, 9), (9, 0), (0, 1), (1, 0), (0, 1, 2), (2, 1, 0), (0, 0, 1), (8, 9)]):
            rec.transitions += 1
            r = rng.policy(run, pat)
            bad = ok(r)
            if not rec.check(not bad, 'pattern', [case, list(pat)], lambda: '%s: %s' % (bad, show(r))):
                return

    # ------------------------------------------------------------------------------------------------------------------
    GRID = [-1., 0., NEXT(0., 1), .5, NEXT(.5, 1), 1e10]

    def job_interval(self, rec, part, parts):
        np = __import__('numpy')
        for k, t in enumerate(cp.events(self.GRID, infinite=False)):
            if k % parts != part:
                continue
            i = self.iv.ContinuousSet(*t)
            rec.state(t)
            for n in (1, 2):
                case = [list(t), n]
                if i.isempty():
                    continue
                with rec.guard(case):
                    def ok(r):
                        if len(r) != n:
                            return 'number of samples'
                        if not all(dm.inside(float(x), t) for x in r):
                            return 'outside'
                    lo, hi = t[:2]
                    half = [lo + (hi - lo) / 4 * q for q in range(1, 4)]
                    wide = hi - lo > 1e-9
                    key = (lambda r: tuple(sum(float(x) > h for h in half) for x in r)) if wide else (lambda r: 0)
                    probs = {c: .25 ** n for c in itertools.product(range(4), repeat=n)} if wide else {0: 1.}
                    self.explore(rec, case, lambda: i.sample(n), ok, key, probs, n=n)
                    buf = np.zeros(n)
                    self.explore(rec, case + ['result'], lambda: (i.sample(n, result=buf), list(buf))[1], ok, key, probs, n=n)
            with rec.guard([list(t), 'longer']):
                if not i.isempty():
                    self.patterns(rec, [list(t)], lambda: i.sample(7), lambda r: None if len(r) == 7 and all(dm.inside(float(x), t) for x in r) else 'sample')
                    rec.check(len(i.sample(0)) == 0, 'no-samples', [list(t)])
        for t in [(0, 0, EXC, EXC), (0, 0, INC, EXC), (0, NEXT(0., 1), EXC, EXC)]:
            with rec.guard(t):
                try:
                    self.iv.ContinuousSet(*t).sample(1)
                    rec.fail('empty-sampled', t)
                except IndexError:
                    rec.outcome('empty')

    def job_realset(self, rec, part, parts):
        grid = [0., .5, 1., 2.]
        singles = list(cp.events(grid, infinite=False))
        k = 0
        for n in (1, 2, 3):
            for ts in itertools.combinations(singles, n):
                if any(tr.meet(a, b) for a, b in itertools.combinations(ts, 2)):
                    continue
                k += 1
                if k % parts != part:
                    continue
                case = [list(map(list, ts))]
                sizes = [b - a for a, b, _, _ in ts]
                total = sum(sizes)
                if not total:
                    sizes, total = [1.] * n, n
                probs = {j: s / total for j, s in enumerate(sizes) if s}
                rec.state(ts)
                with rec.guard(case):
                    s = self.iv.RealSet([self.iv.ContinuousSet(*t) for t in ts])

                    def ok(r):
                        if len(r) != 1:
                            return 'number of samples'
                        if not any(dm.inside(float(x), t) for x in r for t in ts):
                            return 'outside'

                    def which(r):
                        return [j for j, t in enumerate(ts) if dm.inside(float(r[0]), t)][0]
                    self.explore(rec, case, lambda: list(s.sample(1)), ok, which, probs, cells=12)
                    self.patterns(rec, case, lambda: list(s.sample(5)), lambda r: None if len(r) == 5 and all(any(dm.inside(x, t) for t in ts) for x in r) else 'sample')

    # ------------------------------------------------------------------------------------------------------------------
    def grid_of(self, w):
        """Number of cells aligned with the weights; the boundaries of the elements and their neighbours."""
        t = math.fsum(w)
        acc, sp = 0., {0., rng.TOP}
        for x in w:
            acc += x
            u = acc / t
            sp |= {y for y in (u, NEXT(u, 0), NEXT(u, 1)) if 0 <= y < 1}
        for cells in range(1, 61):            # the boundaries between the elements are boundaries between cells
            if all(abs(x / t * cells - round(x / t * cells)) < 1e-12 for x in w):
                while cells < 8:
                    cells *= 2
                return cells, sorted(sp), True
        return 60, sorted(sp), False

    def job_wheel(self, rec, n, part, parts, full):
        S = self.sampling
        alpha = [0, 1, 2, 3] if n < 4 or full else [0, 1, 2]
        ws = list(itertools.product(alpha, repeat=n)) + list(itertools.product([0, 1, 1e-9], repeat=n)) + list(itertools.product([0, .1, .2], repeat=n))
        for k, w in enumerate(ws):
            if not sum(w) or n > 2 and k % parts != part:
                continue
            els = ['e%d' % i for i in range(n)]
            t = math.fsum(w)
            probs = {e: x / t for e, x in zip(els, w) if x}
            cells, sp, al = self.grid_of(w)
            rec.state(w)
            calls = [('wchoice', lambda: S.wchoice(els, list(w)), lambda r: r),
                     ('wchoiced', lambda: S.wchoiced(dict(zip(els, w))), lambda r: r),
                     ('wchoicei', lambda: S.wchoicei(els, list(w)), lambda r: r[0]),
                     ('normalize', lambda: S.RouletteWheelSampler(els, list(w), normalize=True).sample(1)[0], lambda r: r)]
            for name, run, key in calls:
                case = [name, list(w)]
                with rec.guard(case):
                    def ok(r):
                        if name == 'wchoicei' and els[r[1]] != r[0]:
                            return 'index'
                        if key(r) not in probs:
                            return 'impossible element'
                    self.explore(rec, case, run, ok, key, probs, cells, sp, aligned=al)
            two = {(a, b): p * q for a, p in probs.items() for b, q in probs.items()}
            for name, run, key in [('wsample', lambda: S.wsample(els, list(w), 2), tuple), ('wsamplei', lambda: S.wsamplei(els, list(w), 2), lambda r: tuple(e for e, _ in r))]:
                case = [name, list(w)]
                with rec.guard(case):
                    def ok(r):
                        if len(r) != 2 or name == 'wsamplei' and any(els[i] != e for e, i in r):
                            return 'layout'
                        if not all(e in probs for e in key(r)):
                            return 'impossible element'
                    self.explore(rec, case, run, ok, key, two, cells, sp if len(sp) < 8 else (0., rng.TOP), n=2, aligned=al)
            with rec.guard(['index', list(w)]):
                s = S.RouletteWheelSampler(els, list(w))
                acc = 0.
                xs = {0., t}
                for x in w:
                    acc += x
                    xs |= {acc, NEXT(acc, 0), min(NEXT(acc, 9), t)}
                ub = list(itertools.accumulate(w))
                for x in sorted(x for x in xs if 0 <= x <= ub[-1]):
                    i = s.index(x)
                    lo, hi = (ub[i - 1] if i else 0), ub[i]
                    rec.check(w[i] > 0 and lo - 1e-12 <= x <= hi + 1e-12 and s[x] == els[i], 'wheel-index', [list(w), x], lambda: (i, ub))
                for x in (-1e-9, ub[-1] * (1 + 1e-9) + 1e-9):
                    try:
                        s.index(x)
                        rec.fail('wheel-range', [list(w), x])
                    except IndexError:
                        pass
            with rec.guard(['normalized', list(w)]):
                mine = list(w)
                s = S.RouletteWheelSampler(els, mine, normalize=True)
                rec.check(mine == list(w), 'wheel-arguments', list(w), lambda: mine)
                q = [x / t for x in w]
                ub = list(itertools.accumulate(q))
                for x in sorted({0., .5, .999999999} | {u + e for u in ub for e in (-1e-9, 1e-9)}):
                    if 0 <= x < 1 - 1e-12:
                        i = s.index(x)
                        rec.check(w[i] > 0 and (ub[i - 1] if i else 0) - 1e-12 <= x <= ub[i] + 1e-12 and s[x] == els[i], 'wheel-normalized', [list(w), x], lambda: (i, ub))
                for x in (-1e-9, 1 + 1e-9):
                    try:
                        s.index(x)
                        rec.fail('wheel-range', [list(w), x, 'normalized'])
                    except IndexError:
                        pass
            self.patterns(rec, ['wsample', list(w)], lambda: S.wsample(els, list(w), 6), lambda r: None if len(r) == 6 and all(e in probs for e in r) else 'sample')
            rec.check(S.wsample(els, list(w), 0) == [], 'no-samples', list(w))

    # ------------------------------------------------------------------------------------------------------------------
    def dist_cases(self, rec, case, d, labels, p, full=True):
        """All samplers of a discrete distribution with given probabilities of its labels."""
        w = [x for x in p]
        cells, sp, al = self.grid_of(w)
        probs = {l: x for l, x in zip(labels, p) if x}
        vals = {int(d.label2value(l)): x for l, x in probs.items()}
        two = {(a, b): x * y for a, x in probs.items() for b, y in probs.items()}
        in_ = lambda s, n: lambda r: 'number of samples' if len(r) != n else 'impossible value' if not all(x in s for x in r) else None
        rec.state((labels, tuple(p)))
        with rec.guard(case):
            self.explore(rec, case + ['sample'], lambda: list(d.sample(1)), in_(probs, 1), lambda r: r[0], probs, cells, sp, aligned=al)
            self.explore(rec, case + ['sample_one'], lambda: [d.sample_one()], in_(probs, 1), lambda r: r[0], probs, cells, sp, aligned=al)
            self.explore(rec, case + ['_sample'], lambda: list(d._sample(1)), in_(vals, 1), lambda r: int(r[0]), vals, cells, sp, aligned=al)
            self.explore(rec, case + ['_sample_one'], lambda: [d._sample_one()], in_(vals, 1), lambda r: int(r[0]), vals, cells, sp, aligned=al)
            if full:
                self.explore(rec, case + ['two'], lambda: list(d.sample(2)), in_(probs, 2), tuple, two, cells, (0., rng.TOP), n=2, aligned=al)
            self.patterns(rec, case, lambda: list(d.sample(6)), in_(probs, 6))
            rec.check(list(d.sample(0)) == [], 'no-samples', case)

    def job_disc(self, rec, kind, n, part, parts, full):
        labels = ['c', 'a', 'b'][:n] if kind == 'sym' else [False, True] if kind == 'bool' else list(range(3, 3 + n))
        T = self.IntegerType('I', 3, 3 + n - 1) if kind == 'int' else self.SymbolicType('S', labels) if kind == 'sym' else self.Bool
        order = list(T.labels.values())
        vs = list(cp.vectors(n, [0, 1, 2, 3] if full else [0, 1, 2]))
        for k, p in enumerate(vs):
            if k % parts != part:
                continue
            d = T().set(list(p))
            self.dist_cases(rec, ['set', labels, list(p)], d, order, p)
            for keep in cp.subsets(order):
                mass = math.fsum(x for l, x in zip(order, p) if l in keep)
                if not keep or mass < 1e-6 or len(keep) == n:
                    continue
                q = [x / mass if l in keep else 0. for l, x in zip(order, p)]
                with rec.guard(['crop', labels, list(p), list(keep)]):
                    self.dist_cases(rec, ['crop', labels, list(p), list(keep)], d.crop(set(keep)), order, q, False)
            q = vs[(k * 7 + 3) % len(vs)]
            with rec.guard(['merge', labels, list(p), list(q)]):
                m = T.merge([d, T().set(list(q))], [.25, .75])
                self.dist_cases(rec, ['merge', labels, list(p), list(q)], m, order, [.25 * a + .75 * b for a, b in zip(p, q)], False)

    # ------------------------------------------------------------------------------------------------------------------
    def supported(self, m, x, tol=0.):
        return x in m.atoms or any(a - tol <= x <= b + tol for a, b, _ in m.segs) or tol and any(abs(a - x) <= tol for a in m.atoms)

    def cuts(self, m):
        """Classes of values with their probabilities: point masses, halves of segments."""
        probs, bounds = {}, []
        for a, w in m.atoms.items():
            probs[('atom', a)] = w
        for k, (a, b, d) in enumerate(m.segs):
            for h in (0, 1):
                probs[('seg', k, h)] = d * (b - a) / 2
        return {k: p for k, p in probs.items() if p > 0}

    def classify(self, m, x, tol=0.):
        for a in m.atoms:
            if abs(x - a) <= tol:
                return ('atom', a)
        for k, (a, b, _) in enumerate(m.segs):
            if a <= x < b or tol and a - tol <= x <= b + tol:
                return ('seg', k, int(x >= (a + b) / 2))
        return ('outside', x)

    def numeric_cases(self, rec, case, d, m, full, label=None):
        tol = 1e-9 if label else 0.
        f = label or (lambda x: x)
        probs = self.cuts(m)
        rec.state(tuple(sorted(m.atoms.items())) + tuple(m.segs))

        def ok(n):
            def ok(r):
                if len(r) != n:
                    return 'number of samples'
                for x in r:
                    x = f(float(x))
                    if not self.supported(m, x, tol):
                        return 'outside the support'
                    if not label and x not in m.atoms and not d.pdf.eval(x) > 0:
                        return 'no density'
            return ok
        key = lambda r: tuple(self.classify(m, f(float(x)), tol) for x in r)
        one = {(k,): p for k, p in probs.items()}
        with rec.guard(case):
            self.explore(rec, case + ['sample'], lambda: list(d.sample(1)), ok(1), key, one, 8)
            self.explore(rec, case + ['sample_one'], lambda: [d.sample_one()], ok(1), key, one, 8)
            if not label:
                self.explore(rec, case + ['_sample'], lambda: list(d._sample(1)), ok(1), key, one, 8)
            if full:
                two = {(a, b): p * q for a, p in probs.items() for b, q in probs.items()}
                self.explore(rec, case + ['two'], lambda: list(d.sample(2)), ok(2), key, two, 4, (0., rng.TOP), n=2)
            self.patterns(rec, case, lambda: list(d.sample(6)), ok(6))
            rec.check(list(d.sample(0)) == [], 'no-samples', case)

    def job_num(self, rec, part, parts, full):
        ms = list(cp.measures(cp.POINTS, AW, GW))
        if not full:
            ms = ms[::2] + ms[1::6]
        for k, m in enumerate(ms):
            if k % parts != part:
                continue
            d = cp.numeric(self.Numeric, self.QD, self.fn, self.iv, m, precision=.25)
            self.numeric_cases(rec, ['num', k], d, m, k % 3 == 0)
            for n, t in enumerate([(-INF, .5, EXC, INC), (.5, 1., EXC, EXC), (.5, 1., EXC, INC), (1., INF, EXC, EXC), (1., 1.5, INC, INC), (.25, 1.75, INC, INC)]):
                mass = m.p(t)
                if mass < 1e-6:
                    continue
                with rec.guard(['crop', k, list(t)]):
                    c = d.crop(self.iv.ContinuousSet(*t))
                    self.numeric_cases(rec, ['crop', k, list(t)], c, m.restrict([t]).scale(1 / mass), full and n == k % 6)
            # in label space
            if k % 4 == 0:
                with rec.guard(['scaled', k]):
                    T = self.NumericType('Z', [3., 5., 11.])
                    s = T(precision=.25).set(self.QD.from_cdf(cp.cdf_of(self.fn, self.iv, m)))
                    self.numeric_cases(rec, ['scaled', k], s, m, False, lambda y: T.values[y])
            # fitted from samples
            if k % 4 == 1:
                np = __import__('numpy')
                xs = [(x,) for x in itertools.islice(itertools.cycle(cp.POINTS + [1., 5.]), k % 7 + 1)]
                with rec.guard(['fitted', k]):
                    q = self.Numeric(precision=.25)._fit(np.array(xs, dtype=np.float64), col=0)
                    self.numeric_cases(rec, ['fitted', xs], q, Measure.of_cdf(q.cdf), False)

    # ------------------------------------------------------------------------------------------------------------------
    def support_of(self, j):
        """Leaves: (prior, name -> set of possible labels or measure)."""
        return tr.RefModel(j)

    def model_cases(self, rec, case, schema, j, evidence=None, two=False):
        m = tr.RefModel(j)
        vs = list(j.variables)
        leaves = [l for l in m.leaves if l.prior > 0]
        rec.state((schema, str(case)))
        scaled = {n for n, k, _ in tr.SCHEMAS[schema] if k == 'scaled'}
        names = [v.name for v in vs]

        def fits(l, row):
            for v, x in zip(vs, row):
                d = l.dist[v.name]
                if isinstance(d, Measure):
                    x = float(v.domain.values[x]) if v.name in scaled else float(x)
                    if not self.supported(d, x, 1e-9 if v.name in scaled else 0.) and not self.supported(d, x, 1e-12 * abs(x)):
                        return False
                elif x not in v.domain.labels.values() or not d[int(tr.value_of(v, x))] > 0:
                    return False
            return True

        def ok(n):
            def ok(r):
                if tuple(r.shape) != (n, len(vs)):
                    return 'shape'
                for row in r:
                    if not any(fits(l, row) for l in leaves):
                        return 'no leaf has this world in its support'
                    for v, x in zip(vs, row):
                        if evidence and v.name in evidence:
                            ev = evidence[v.name]
                            if not (any(a - 1e-9 <= x <= b + 1e-9 for a, b, _, _ in ev) if isinstance(ev, list) else x in ev):
                                return 'violates the evidence'
            return ok

        # classes of worlds: cells of a common refinement of all leaves' supports
        axes = {}
        for v in vs:
            if v.numeric:
                pts = sorted({p for l in leaves for p in l.dist[v.name].points()})
                atoms = sorted({a for l in leaves for a in l.dist[v.name].atoms})
                axes[v.name] = (pts, atoms)

        def cell(v, x):
            if not v.numeric:
                return int(tr.value_of(v, x))
            x = float(v.domain.values[x]) if v.name in scaled else float(x)
            pts, atoms = axes[v.name]
            for a in atoms:
                if abs(a - x) <= (1e-9 if v.name in scaled else 1e-12 * abs(a)):
                    return ('=', a)
            return sum(p <= x for p in pts)

        def mass(d, c):
            if not isinstance(d, Measure):
                return d[c]
            if isinstance(c, tuple):
                return d.atoms.get(c[1], 0.)
            pts = self.pts
            return d.p((pts[c - 1], pts[c], EXC, EXC)) if 0 < c < len(pts) else 0.
        probs = {}
        for l in leaves:
            per = []
            for v in vs:
                d = l.dist[v.name]
                if isinstance(d, Measure):
                    pts, atoms = axes[v.name]
                    self.pts = pts
                    per.append([(c, mass(d, c)) for c in [('=', a) for a in atoms] + list(range(1, len(pts)))])
                else:
                    per.append(list(enumerate(d)))
            for combo in itertools.product(*[[(c, p) for c, p in x if p > 1e-13] for x in per]):
                k = tuple(c for c, _ in combo)
                probs[k] = probs.get(k, 0) + l.prior * math.prod(p for _, p in combo)
        t = math.fsum(probs.values())
        if abs(t - 1) > 1e-6:
            return rec.outcome('numerically degenerate')
        key = lambda r: tuple(cell(v, x) for v, x in zip(vs, r[0]))
        nnum = sum(v.numeric for v in vs)
        cells = 12 if nnum < 2 and len(vs) < 3 else 6
        with rec.guard(case):
            self.explore(rec, case + [1], lambda: j.sample(1), ok(1), key, probs, cells, (0., rng.TOP) if len(vs) < 3 else (), n=len(vs) + 1, budget=25000)
            self.patterns(rec, case, lambda: j.sample(5), ok(5))
            rec.check(tuple(j.sample(0).shape) == (0, len(vs)), 'no-samples', case)
            if two:
                # two rows: independent
                first = {}
                for k, p in probs.items():
                    first[k] = first.get(k, 0) + p
                both = {(a, b): p * q for a, p in first.items() for b, q in first.items()}
                key2 = lambda r: tuple(tuple(cell(v, x) for v, x in zip(vs, row)) for row in r)
                self.explore(rec, case + [2], lambda: j.sample(2), ok(2), key2, both, 6 if len(vs) < 2 else 2, (), n=2 * len(vs) + 2, budget=6000)
        for l in j.leaves.values():
            if l.prior > 0 and len(vs) < 3:
                with rec.guard(case + ['leaf', l.idx]):
                    rl = [r for r in leaves if r.idx == l.idx][0]

                    def okleaf(r):
                        return 'shape' if tuple(r.shape) != (3, len(vs)) else None if all(fits(rl, row) for row in r) else 'not in the leaf'
                    self.patterns(rec, case + ['leaf', l.idx], lambda: l.sample(3), okleaf)

    def job_jpt(self, rec, schema, nmax, part, parts, full):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            n = k // parts
            if not full and len(rows) > 2 and n % 2:
                continue
            key = [schema, [list(r) for r in rows]]
            cfg = CONFIGS[n % 2 if len(rows) > 2 else 0]
            with rec.guard(key):
                j = tr.fit(schema, rows, close=n % 3 > 0, **cfg)
                self.model_cases(rec, key, schema, j, two=n % 4 == 0)
                if n % 3 == 0:
                    c = j.copy().prune(0.)
                    self.model_cases(rec, key + ['pruned'], schema, c)
                if n % 3 == 1:
                    c = type(j).from_json(__import__('json').loads(__import__('json').dumps(j.to_json())))
                    self.model_cases(rec, key + ['json'], schema, c)
                if n % 4 == 0 and len(j.leaves) > 1:
                    c = j.copy()
                    c.multiply_by_leaf_prior({i: float(q) for q, i in enumerate(c.leaves)})
                    self.model_cases(rec, key + ['weighted'], schema, c)
                for e_, e in enumerate(tr.assignments(schema, False, 2, empty=False)):
                    if (e_ + k) % (5 if full else 11):
                        continue
                    c = j.conditional_jpt({v: tr.event_to_api(self.iv, j.varnames[v], ev) for v, ev in e.items()}, fail_on_unsatisfiability=False)
                    if c is not None:
                        self.model_cases(rec, key + [tr.show(e)], schema, c, e)


    ROWS = {
        'xx': ([('x', 'num', [0., 1., 3.]), ('y', 'num', [0., 2., 7.])], [(0., 0.), (1., 7.), (3., 2.)], 3),
        'xx reversed': ([('x', 'num', [0., 1., 3.]), ('y', 'num', [0., 2., 7.])], [(0., 7.), (1., 2.), (3., 0.)], 3),
        'si': ([('s', 'sym', ['a', 'b']), ('i', 'int', [0, 1])], [('a', 0), ('a', 1), ('b', 0), ('b', 1)], 4),
        'two leaves': ([('x', 'num', [0., 1., 3., 10., 11., 13.]), ('y', 'num', [0., 2., 7., 20., 22., 27.])],
                       [(0., 0.), (1., 7.), (3., 2.), (10., 20.), (11., 27.), (13., 22.)], 3),
    }

    def job_rows(self, rec, name, nrows):
        """The values of a row are drawn together and the rows one independently of the other."""
        schema, rows, leaf = self.ROWS[name]
        tr.SCHEMAS['rows'] = schema
        with rec.guard([name, nrows]):
            j = tr.fit('rows', rows, close=False, min_samples_leaf=leaf)
            m = tr.RefModel(j)

            def cell(l, v, x):
                d = l.dist[v.name]
                if not isinstance(d, Measure):
                    return int(tr.value_of(v, x))
                pts = sorted(d.points())
                return (l.idx, sum(p <= x for p in pts))

            def leaf_of(row):
                fit = [l for l in m.leaves if all(self.supported(l.dist[v.name], float(x), 0.) for v, x in zip(j.variables, row) if v.numeric)]
                return fit[0] if len(fit) == 1 else None

            def key(r):
                ls = [leaf_of(row) for row in r]
                return tuple((l.idx,) + tuple(cell(l, v, x) for v, x in zip(j.variables, row)) for l, row in zip(ls, r)) if all(ls) else 'no leaf'
            one = {}
            for l in m.leaves:
                per = []
                for v in j.variables:
                    d = l.dist[v.name]
                    if isinstance(d, Measure):
                        pts = sorted(d.points())
                        per.append([((l.idx, c), d.p((pts[c - 1], pts[c], EXC, EXC))) for c in range(1, len(pts))])
                    else:
                        per.append([(c, q) for c, q in enumerate(d) if q])
                for combo in itertools.product(*per):
                    k = (l.idx,) + tuple(c for c, _ in combo)
                    one[k] = one.get(k, 0) + l.prior * math.prod(q for _, q in combo)
            if not rec.check(abs(sum(one.values()) - 1) < 1e-9 and all(abs(math.log2(q) - round(math.log2(q))) < 1e-9 for q in one.values()), 'rows-setup', name, lambda: one):
                return
            many = {}
            for combo in itertools.product(one.items(), repeat=nrows):
                many[tuple(k for k, _ in combo)] = math.prod(q for _, q in combo)
            case = [name, nrows]
            rec.state((name, nrows))
            ok = lambda r: None if tuple(r.shape) == (nrows, len(schema)) else 'shape'
            self.explore_exact(rec, case, lambda: j.sample(nrows), ok, key, many)
            for l in m.leaves:
                inner = {k: q / l.prior ** nrows for k, q in many.items() if all(r[0] == l.idx for r in k)}
                self.explore_exact(rec, case + ['leaf', l.idx], lambda: j.leaves[l.idx].sample(nrows), ok, key, inner)


def show(r):
    return str(r.tolist() if hasattr(r, 'tolist') else r)[:300]


def pretty(d):
    return {str(k): round(p, 6) for k, p in sorted(d.items(), key=lambda t: str(t[0]))[:12]}


CHECK = Check()
