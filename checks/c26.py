"""C26: similarities, divergences and equality of distributions, functions and models."""
import itertools
import math

from vlib import corpus, distmodel as dm, trees
from vlib.distmodel import INF, INC, EXC, Measure


class Check:
    pid = 'C26'
    level = 'model_checking'
    technique = ('exhaustive enumeration of pairs of distributions, piecewise functions and learned models over small alphabets on the real code; similarity and divergence against the '
                 'shared mass computed from the enumerated measures, equality against equality of the enumerated descriptions')
    note = 'Similarity, divergence, equality of symbolic, integer, numeric distributions, functions and models; arguments unchanged; unfitted distributions and other domains.'
    space = ('all pairs of symbolic and integer distributions over domains of up to 4 values with weights 0-3; all pairs of numeric measures with point masses and densities on up to 4 points; all '
             'pairs of fits to up to 3 samples; all pairs of linear functions on two pieces; all pairs of small learned models')
    assumptions = ['the divergence is the expected absolute difference of probabilities (as fixed by the existing tests)']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['multinomial', k, 4, t] for k in range(4)]
        out += [['integer', k, 4, t] for k in range(4)]
        out += [['measures', k, 8, t] for k in range(8)]
        out += [['fits', k, 4, t] for k in range(4)]
        out += [['functions', k, 4, t] for k in range(4)]
        out += [['models', k, 4, t] for k in range(4)]
        return out

    def run(self, job, rec):
        from jpt.base import functions as fn, intervals as iv
        from jpt.distributions import Numeric, IntegerType, SymbolicType, NumericType
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.fn, self.iv, self.Numeric, self.QD = fn, iv, Numeric, QuantileDistribution
        self.IntegerType, self.SymbolicType, self.NumericType = IntegerType, SymbolicType, NumericType
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def similarity(self, rec, case, s, r, want, same):
        rec.check(abs(s - want) < 1e-7, 'similarity', case, lambda: (s, want))
        rec.check(abs(s - r) < 1e-9, 'symmetric', case, lambda: (s, r))
        rec.check(0 <= s <= 1 + 1e-12, 'range', case, lambda: s)
        if same:
            rec.check(s == 1, 'identical', case, lambda: s)
        rec.validated += 1

    def equality(self, rec, case, a, b, want):
        for x, y in ((a, b), (b, a)):
            got = x == y
            rec.check(bool(got) is want and bool(x != y) is not want, 'equality', case, lambda: (got, want))
        rec.check(a == a and not a != a and b == b, 'reflexive', case)

    def discrete(self, rec, domain, ps, cases, other=None):
        ds = [domain().set(list(p)) for p in ps]
        for (i, a), (k, b) in itertools.product(enumerate(ds), repeat=2):
            p, q = ps[i], ps[k]
            case = {**cases, 'left': p, 'right': q}
            with rec.guard(case):
                rec.state(case)
                b = domain().set(list(q))
                m = math.fsum(map(min, p, q))
                self.similarity(rec, case, domain.jaccard_similarity(a, b), domain.jaccard_similarity(b, a), m / math.fsum(map(max, p, q)), p == q)
                d = a.kl_divergence(b)
                rec.check(abs(d - math.fsum(x * abs(x - y) for x, y in zip(p, q))) < 1e-9, 'divergence', case, lambda: d)
                rec.check((d == 0) == all(x == y for x, y in zip(p, q) if x), 'divergence-zero', case, lambda: d)
                self.equality(rec, case, a, b, p == q)
                rec.check(list(map(float, a.probabilities)) == list(p) and list(map(float, b.probabilities)) == list(q), 'changed', case)
                rec.transitions += 5
        if not ds:
            return
        with rec.guard({**cases, 'unfitted': True}):
            self.equality(rec, {**cases, 'unfitted': 'both'}, domain(), domain(), True)
            self.equality(rec, {**cases, 'unfitted': 'one'}, domain(), ds[0], False)
        for o in other or ():
            case = {**cases, 'other': repr(o.__name__) + str(list(o.values.values()))}
            with rec.guard(case):
                self.equality(rec, case, ds[0], o().set(list(ps[0])[:o.n_values] + [0.] * (o.n_values - len(ps[0]))), False)
                try:
                    d = ds[0].kl_divergence(o().set([1.] + [0.] * (o.n_values - 1)))
                    rec.check(False, 'divergence-type', case, lambda: d)
                except TypeError:
                    pass

    def vectors(self, n, t):
        yield from corpus.simplex(n, (0, 1, 2, 3) if n < 3 else (0, 1, 3) if n < 4 or t else (0, 1))
        if n > 1:
            e = 1e-9
            yield tuple([e, 1 - e] + [0.] * (n - 2))
            yield tuple([0.] * (n - 2) + [.5 + e, .5 - e])

    def job_multinomial(self, rec, part, parts, t):
        labels = ['a', 'b', 'c', 'd']
        no = -1
        for n in range(1, 5):
            no += 1
            if no % parts != part:
                continue
            D = self.SymbolicType('C26s', labels[:n])
            others = [self.SymbolicType('C26s', labels[:n] + ['z']), self.SymbolicType('C26other', labels[:n])]
            others += [self.SymbolicType('C26s', ['x'] + labels[1:n])]
            self.discrete(rec, D, list(self.vectors(n, t)), {'symbolic': n}, others)
            D2 = self.SymbolicType('C26s', labels[:n])
            with rec.guard({'symbolic': n, 'equivalent': True}):
                p = [1 / n] * n
                self.equality(rec, {'symbolic': n, 'equivalent': True}, D().set(p), D2().set(p), True)

    def job_integer(self, rec, part, parts, t):
        for no, (lo, hi) in enumerate(((0, 0), (0, 1), (-1, 1), (2, 5), (-3, -2), (1, 3))):
            if no % parts != part:
                continue
            D = self.IntegerType('C26i', lo, hi)
            others = [self.IntegerType('C26i', lo, hi + 1), self.IntegerType('C26other', lo, hi), self.IntegerType('C26i', lo + 1, hi + 1)]
            self.discrete(rec, D, list(self.vectors(hi - lo + 1, t)), {'integer': (lo, hi)}, others)
            D2 = self.IntegerType('C26i', lo, hi)
            with rec.guard({'integer': (lo, hi), 'equivalent': True}):
                p = [1 / (hi - lo + 1)] * (hi - lo + 1)
                self.equality(rec, {'integer': (lo, hi), 'equivalent': True}, D().set(p), D2().set(p), True)

    # ------------------------------------------------------------------------------------------------------------------
    def shared(self, a, b):
        r = [min(w, b.atoms.get(x, 0)) for x, w in a.atoms.items()]
        for p, q, d in a.segs:
            for u, v, e in b.segs:
                if min(q, v) > max(p, u):
                    r.append((min(q, v) - max(p, u)) * min(d, e))
        return math.fsum(r)

    def numeric(self, rec, case, x, y, a, b, same):
        before = dm.snapshot(x.cdf), dm.snapshot(y.cdf)
        m = self.shared(a, b)
        J = self.Numeric.jaccard_similarity
        self.similarity(rec, case, J(x, y), J(y, x), m / (2 - m), same)
        if not m:
            rec.check(J(x, y) == 0, 'disjoint', case, lambda: J(x, y))
        d = x.kl_divergence(y)
        rec.check(-1e-12 <= d <= 1 + 1e-9, 'divergence', case, lambda: d)
        if same:
            rec.check(d == 0, 'divergence-zero', case, lambda: d)
        pts = sorted(set(a.points()) | set(b.points()))
        cells = [((-INF, pts[0], EXC, EXC))] + [(u, v, INC, EXC) for u, v in zip(pts, pts[1:])] + [(pts[-1], INF, INC, EXC)]
        if all(abs(a.p(c) - b.p(c)) < 1e-9 for c in cells if a.p(c) > 1e-9):
            pass
        elif not (a.atoms or b.atoms):
            rec.check(d > 1e-12, 'divergence-positive', case, lambda: d)
        self.equality(rec, case, x, y, same)
        rec.check((dm.snapshot(x.cdf), dm.snapshot(y.cdf)) == before, 'changed', case)
        rec.transitions += 6

    def job_measures(self, rec, part, parts, t):
        make = lambda m, **kw: self.Numeric(**kw).set(self.QD.from_cdf(corpus.cdf_of(self.fn, self.iv, m)))
        key = lambda m: (tuple(sorted(m.atoms.items())), tuple(m.segs))
        ms = list(corpus.measures([0., 1., 2.], (0, 1), (0, 1, 2)))
        pairs = list(itertools.product(ms, repeat=2))
        ms2 = list(corpus.measures([-1., .5, 1., 4.], (0, 1), (0, 1)))
        pairs += list(itertools.product(ms, ms2))
        if t:
            pairs += list(itertools.product(corpus.measures([0., 1., 2., 3.], (0, 1), (0, 1, 3)), ms2))
        ds = {}
        for no, (a, b) in enumerate(pairs):
            if no % parts != part:
                continue
            case = {'left': key(a), 'right': key(b)}
            with rec.guard(case):
                rec.state(case)
                # density pieces of equal height are equal measures in different notation: not compared for equality
                self.numeric(rec, case, make(a), make(b), a, b, key(a) == key(b)) if self.canonical(a) != self.canonical(b) or key(a) == key(b) else None
                if no % 7 == 0:
                    D, E, F = (self.NumericType('C26n', v) for v in ((0., 1., 5.), (0., 1., 5.), (0., 2., 5.)))
                    x, y, z = (T().set(self.QD.from_cdf(corpus.cdf_of(self.fn, self.iv, m))) for T, m in ((D, a), (D, b), (F, a)))
                    m = self.shared(a, b)
                    self.similarity(rec, {**case, 'scaled': 1}, D.jaccard_similarity(x, y), D.jaccard_similarity(y, x), m / (2 - m), key(a) == key(b))
                    self.equality(rec, {**case, 'scaled': 1}, x, y, key(a) == key(b))
                    self.equality(rec, {**case, 'scaled': 'other domain'}, x, z, False)
                    self.equality(rec, {**case, 'scaled': 'equivalent'}, x, E().set(self.QD.from_cdf(corpus.cdf_of(self.fn, self.iv, a))), True)
        if part == 0:
            a = ms[3]
            with rec.guard({'unfitted': 'numeric'}):
                self.equality(rec, {'unfitted': 'both'}, self.Numeric(), self.Numeric(), True)
                self.equality(rec, {'unfitted': 'one'}, self.Numeric(), make(a), False)

    def canonical(self, m):
        segs = []
        for p, q, d in m.segs:
            if segs and segs[-1][1] == p and abs(segs[-1][2] - d) < 1e-12 and p not in m.atoms:
                segs[-1] = (segs[-1][0], q, d)
            else:
                segs.append((p, q, d))
        return [sorted((x, round(w, 9)) for x, w in m.atoms.items()), [(p, q, round(d, 9)) for p, q, d in segs]]

    def job_fits(self, rec, part, parts, t):
        import numpy as np
        samples = list(dm.samples([0., 1., 2.5, 4.], 3 + t))
        fit = lambda v, p: self.Numeric(precision=p).fit(np.array([[x] for x in v], dtype=float), None, 0)
        for no, (x, y) in enumerate(itertools.product(samples, repeat=2)):
            if no % parts != part:
                continue
            case = {'fits': [x, y]}
            with rec.guard(case):
                a, b = fit(x, .01), fit(y, .01)
                self.numeric(rec, case, a, b, Measure.of_cdf(a.cdf), Measure.of_cdf(b.cdf), dm.snapshot(a.cdf) == dm.snapshot(b.cdf))
                if x <= y:
                    case = {'merged': [x, y]}
                    m = self.Numeric.merge([a, b], [.25, .75])
                    self.numeric(rec, case, m, a, Measure.of_cdf(m.cdf), Measure.of_cdf(a.cdf), dm.snapshot(a.cdf) == dm.snapshot(m.cdf)) if len(set(x)) > 1 and len(set(y)) > 1 else None

    # ------------------------------------------------------------------------------------------------------------------
    def job_functions(self, rec, part, parts, t):
        PF, CS, LF, CF = self.fn.PiecewiseFunction, self.iv.ContinuousSet, self.fn.LinearFunction, self.fn.ConstantFunction

        def build(cuts, ends):
            f = PF()
            f.append(CS(-INF, cuts[0], EXC, EXC), CF(0))
            for (a, b), (x, y) in zip(ends, zip(cuts, cuts[1:])):
                m = (b - a) / (y - x)
                f.append(CS(x, y, INC, EXC), LF(m, a - m * x) if m else CF(a))
            f.append(CS(cuts[-1], INF, INC, EXC), CF(0))
            return f

        def value(cuts, ends, x):
            for (a, b), (u, v) in zip(ends, zip(cuts, cuts[1:])):
                if u <= x < v:
                    return a + (b - a) * (x - u) / (v - u)
            return 0.

        def areas(f, g):
            """Integrals of minimum and maximum: both are linear between cuts and crossings."""
            pts = sorted(set(f[0]) | set(g[0]))
            lo = hi = 0.
            for u, v in zip(pts, pts[1:]):
                m1, m2 = u + (v - u) / 3, u + (v - u) * 2 / 3
                # linear extrapolation from two inner points
                fu, fv = 2 * value(*f, m1) - value(*f, m2), 2 * value(*f, m2) - value(*f, m1)
                gu, gv = 2 * value(*g, m1) - value(*g, m2), 2 * value(*g, m2) - value(*g, m1)
                du, dv = fu - gu, fv - gv
                w = v - u
                if du * dv < -1e-12:
                    s = du / (du - dv)
                    diff = (abs(du) * s + abs(dv) * (1 - s)) * w / 2
                else:
                    diff = (abs(du) + abs(dv)) * w / 2
                tot = (fu + fv + gu + gv) * w / 2
                lo, hi = lo + (tot - diff) / 2, hi + (tot + diff) / 2
            return lo, hi
        ends = list(itertools.product((0., 1., 2.), repeat=2))
        fs = [((0., 1., 2.), e) for e in itertools.product(ends, repeat=2)]
        gs = [((0., 1., 2.), e) for e in itertools.product(ends[::1 if t else 2], repeat=2)]
        gs += [((.5, 1.5), (e,)) for e in ends] + [((2., 3.), (e,)) for e in ends] + [((-1., 4.), (e,)) for e in ends]
        no = -1
        for f, g in itertools.product(fs, gs):
            no += 1
            if no % parts != part:
                continue
            lo, hi = areas(f, g)
            if hi < 1e-9:
                continue
            case = {'functions': [f, g]}
            with rec.guard(case):
                rec.state(case)
                x, y = build(*f), build(*g)
                before = dm.snapshot(x), dm.snapshot(y)
                self.similarity(rec, case, PF.jaccard_similarity(x, y), PF.jaccard_similarity(y, x), lo / hi, False)
                if f == g:
                    rec.check(abs(PF.jaccard_similarity(x, y) - 1) < 1e-12, 'identical', case)
                rec.check((dm.snapshot(x), dm.snapshot(y)) == before, 'changed', case)
                rec.transitions += 2

    # ------------------------------------------------------------------------------------------------------------------
    def job_models(self, rec, part, parts, t):
        from checks.c15 import freeze
        no = -1
        for schema in ('xs', 'xy', 'si', 'x', 'xi'):
            data = [d for _, d in trees.datasets(schema, 2, 2)][::3 if t else 9][:24]
            data += [d for _, d in trees.datasets(schema, 3, 3)][::29][:12]
            kws = [{}, {'min_samples_leaf': 2}, {'min_impurity_improvement': .3}, {'max_depth': 1}]
            seen = []
            vs = trees.variables(schema)
            for rows in data:
                for kw in kws if len(seen) < 8 else kws[:1]:
                    seen.append((rows, kw))
            for a, b in itertools.product(range(len(seen)), repeat=2):
                no += 1
                if no % parts != part:
                    continue
                case = {'schema': schema, 'left': seen[a], 'right': seen[b]}
                with rec.guard(case):
                    rec.state(case)
                    x = trees.fit(schema, seen[a][0], **seen[a][1])
                    y = trees.fit(schema, seen[b][0], **seen[b][1])
                    before = freeze(x), freeze(y)
                    same = a == b
                    got = x == y
                    rec.check(got == (y == x), 'model-symmetric', case)
                    rec.check(x == x and y == y, 'model-reflexive', case)
                    if same:
                        rec.check(got, 'model-same', case)
                    # different settings or different answers: not equal
                    differ = any(getattr(x, k) != getattr(y, k) for k in ('min_samples_leaf', 'min_impurity_improvement', 'max_depth'))
                    differ = differ or len(x.leaves) != len(y.leaves) or any(dist(x, l) != dist(y, m) for l, m in zip(x.leaves.values(), y.leaves.values()))
                    if differ:
                        rec.check(not got, 'model-differs', case)
                    else:
                        rec.check(got or sorted(seen[a][0]) != sorted(seen[b][0]), 'model-row-order', case)
                    rec.check((freeze(x), freeze(y)) == before, 'changed', case)
                    for l, m in itertools.product(list(x.leaves.values()), list(y.leaves.values())):
                        e = l == m
                        rec.check(e == (m == l), 'leaf-symmetric', case)
                        if dist(x, l) != dist(y, m):
                            rec.check(not e, 'leaf-differs', case)
                    rec.transitions += 4


def dist(j, leaf):
    """Description of what a leaf says: weight, region and distributions."""
    out = [round(leaf.prior, 12), leaf.samples]
    for v, d in leaf.distributions.items():
        out.append((v.name, [round(float(p), 12) for p in d.probabilities] if not v.numeric else [(round(x, 12) if isinstance(x, float) else x) for s in dm.snapshot(d.cdf) for x in s]))
    out.append([(v.name, str(s)) for v, s in leaf.path.items()])
    return out


CHECK = Check()
