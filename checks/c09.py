"""C09: labels and internal values translate without loss; scaling or re-ordering labels changes no probability."""
import itertools
import math

from vlib import corpus as cp, distmodel as dm
from vlib.distmodel import INF, INC, EXC

AFFINE = [None, (0., 1.), (10., 2.), (-5., .5), (1000., 250.), (-.3, 1e-3)]
GRID = [-2., -.5, 0., 1., 3.25]
LABELS = [['b', 'a', 'd', 'c'], [3, 1, 10, 2], [True, False], ['1', 1, 2.5, None], ['x'], [('p', 1), ('p', 0), 'q']]


class Check:
    pid = 'C09'
    level = 'model_checking'
    technique = ('exhaustive enumeration of domains (every label order, integer bounds, affine scalings), sets over them and distributions on the real '
                 'code; every public label-space answer is compared with the internal answer and with an unscaled/re-ordered twin')
    note = 'All orders of up to 4 labels of several kinds, all integer ranges in [-3,3], six scalings, all intervals and interval pairs over a 5-point grid.'
    space = 'label lists of up to 4 labels in every order, every subset in five container kinds; all intervals and pairs over 5 points; all samples up to size 3'

    def jobs(self, tier):
        out = [['num', a, k] for a in range(len(AFFINE)) for k in range(2)]
        out += [['twin', a] for a in range(1, len(AFFINE))]
        out += [['sym', i] for i in range(len(LABELS))]
        out += [['int', lo] for lo in range(-3, 4)]
        out += [['var']]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.base import functions as fn, intervals as iv
        from jpt.base.errors import Unsatisfiability
        from jpt import distributions as D
        from jpt import variables as V
        self.np, self.fn, self.iv, self.D, self.V, self.Uns = np, fn, iv, D, V, Unsatisfiability
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def typ(self, a):
        if AFFINE[a] is None:
            return self.D.Numeric, 0., 1.
        mean, scale = AFFINE[a]
        return self.D.NumericType('X', [mean - scale, mean + scale]), mean, scale

    def cset(self, t):
        return self.iv.ContinuousSet(*t)

    # -- numeric domains ---------------------------------------------------------------------------
    def job_num(self, rec, a, k):
        iv = self.iv
        T, mean, scale = self.typ(a)
        lab = [mean + scale * g for g in GRID]
        xs = sorted(set(lab) | {math.nextafter(x, -INF) for x in lab} | {math.nextafter(x, INF) for x in lab} |
                    {(x + y) / 2 for x, y in zip(lab, lab[1:])})
        ds = [T().set(self.qd(m)) for m in list(cp.measures([-.5, 0., 1.], [0, 1], [0, 2]))]
        close = lambda x, y: x == y or abs(x - y) <= 1e-9 * max(abs(mean) + 4 * scale, 1e-300)
        if k == 0:
            prev = None
            for x in xs:
                case = ['number', x]
                with rec.guard(case):
                    v = T.label2value(x)
                    rec.check(close(T.value2label(v), x), 'number', case, lambda: (v, T.value2label(v)))
                    rec.check(close(v, (x - mean) / scale) or abs(v - (x - mean) / scale) < 1e-9, 'affine', case, lambda: v)
                    rec.check(prev is None or prev <= v, 'order', case)
                    prev = v
                    for d in ds:
                        rec.check(d.p(x) == d._p(v), 'point-probability', case)
            # whole columns: every element like the element alone, the caller's array only changed on request
            with rec.guard(['column', lab]):
                from jpt.distributions.utils import DataScaler
                import numpy as np
                for data in (lab, lab[:1] * 3, [lab[0], lab[-1], lab[-1]]):
                    sc = DataScaler(np.array(data))
                    rec.transitions += 1
                    rec.check(abs(sc.mean - sum(data) / len(data)) <= 1e-9 * max(map(abs, data)) + 1e-300, 'column-mean', [data], lambda: sc.mean)
                    for name, f in (('transform', sc.transform), ('inverse_transform', sc.inverse_transform)):
                        one = [f(x) for x in data]
                        arr = np.array(data)
                        got = f(arr)
                        rec.check(got.tolist() == one and arr.tolist() == data and got is not arr, 'column', [data, name], lambda: (got, one, arr))
                        got = f(arr, False)
                        rec.check(arr.tolist() == one and got.tolist() == one, 'column-in-place', [data, name], lambda: (got, one, arr))
                    back = sc.inverse_transform(sc.transform(np.array(data)))
                    rec.check(all(close(x, y) for x, y in zip(back, data)), 'column-roundtrip', [data], lambda: back)
                    again = DataScaler.from_json(sc.to_json())
                    rec.check(again == sc and again.transform(np.array(data)).tolist() == sc.transform(np.array(data)).tolist(), 'column-json', [data], lambda: again)
            for x in (INF, -INF):
                rec.check(T.label2value(x) == x and T.value2label(x) == x, 'infinity', [str(x)])
            rec.check(len({T.label2value(x) for x in lab}) == len(lab), 'distinct', lab)
        sets = [t for t in cp.events(lab)] + [(x, x, EXC, EXC) for x in lab[:1]]
        for i, t in enumerate(sets):
            if i % 2 != k:
                continue
            case = ['interval', list(map(str, t))]
            with rec.guard(case):
                s = self.cset(t)
                v = T.label2value(s)
                self.roundtrip(rec, case, T, s, v, close)
                self.member(rec, case, T, s, v, xs)
                self.answers(rec, case, ds, s, v)
            if t[2] == INC or t[3] == INC:          # pairs: one constituent per notation is enough for the second
                for u in sets[i + 1::3]:
                    case = ['union', list(map(str, t)), list(map(str, u))]
                    with rec.guard(case):
                        s = iv.RealSet([self.cset(t), self.cset(u)])
                        v = T.label2value(s)
                        rec.check(len(v.intervals) == 2, 'constituents', case)
                        for p, q in zip(s.intervals, v.intervals):
                            self.roundtrip(rec, case, T, p, q, close)
                        self.member(rec, case, T, s, v, xs)
                        self.answers(rec, case, ds[::5], s, v)
        rec.outcome('numeric')

    def qd(self, m):
        return self.D.numeric.QuantileDistribution.from_cdf(cp.cdf_of(self.fn, self.iv, m)) if hasattr(self.D, 'numeric') else self._qd(m)

    def _qd(self, m):
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        return QuantileDistribution.from_cdf(cp.cdf_of(self.fn, self.iv, m))

    def roundtrip(self, rec, case, T, s, v, close):
        rec.transitions += 1
        rec.validated += 1
        b = T.value2label(v)
        rec.state(('rt', str(s)))
        rec.check(b.left == s.left and b.right == s.right and close(b.lower, s.lower) and close(b.upper, s.upper), 'roundtrip', case, lambda: (str(s), str(v), str(b)))
        rec.check(v.left == s.left and v.right == s.right, 'open-ends', case, lambda: (str(s), str(v)))

    def member(self, rec, case, T, s, v, xs):
        for x in xs:
            y = T.label2value(x)
            # neighbouring floats may be identified by the translation; then only the grid point itself decides
            if (x in s) != (y in v) and not any(T.label2value(g) == y and g != x for g in xs):
                rec.fail('membership', case + [x], (str(s), str(v), x, y))

    def answers(self, rec, case, ds, s, v):
        for d in ds:
            p = d._p(v)
            rec.check(d.p(s) == p, 'probability', case, lambda: (d.p(s), p, d.cdf.pfmt()))
            if p > 0:
                rec.check(dm.snapshot(d.crop(s).cdf) == dm.snapshot(d._crop(v).cdf), 'crop', case)
            mine, internal = d.mpe(), d._mpe()
            rec.check(mine == (type(d).value2label(internal[0]), internal[1]), 'mpe', case)

    def job_twin(self, rec, a):
        """A scaled domain and the plain one learn the same distribution from the same labels."""
        np = self.np
        T, mean, scale = self.typ(a)
        lab = [mean + scale * g for g in GRID]
        close = lambda x, y: abs(x - y) < 1e-7
        learned = []
        for n in (1, 2, 3, 4):
            for data in itertools.combinations_with_replacement(lab, n):
                case = ['twin', list(data)]
                with rec.guard(case):
                    raw = self.D.Numeric(precision=0)._fit(np.array([[x] for x in data]))
                    d = T(precision=0)._fit(np.array([[T.label2value(x)] for x in data]))
                    self.same(rec, case, raw, d, lab, close)
                    learned.append((raw, d, data))
                    # fitting labels is fitting their internal values: alone, and selected by row and column from a larger table
                    junk = np.array([[lab[0], x] for x in list(data) + [lab[-1], lab[0]]])
                    kept = junk.copy()
                    for how, arr, rows, col in (('column', np.array([[x] for x in data]), None, None), ('first', np.array([[x, lab[1]] for x in data]), None, 0),
                                                ('selected', junk, np.arange(n), 1), ('reversed', junk, np.arange(n)[::-1].copy(), 1)):
                        f = T(precision=0).fit(arr, rows, col)
                        rec.check(dm.snapshot(f.cdf) == dm.snapshot(d.cdf), 'fit-labels', case + [how], lambda: (f.cdf.pfmt(), d.cdf.pfmt()))
                    rec.check((junk == kept).all(), 'fit-changed-data', case)
        for i, (r1, d1, x1) in enumerate(learned[::7]):
            for r2, d2, x2 in learned[i::11]:
                case = ['merge', list(x1), list(x2)]
                with rec.guard(case):
                    self.same(rec, case, self.D.Numeric.merge([r1, r2], [.25, .75]), T.merge([d1, d2], [.25, .75]), lab, close)
        for r, d, x in learned[::5]:
            for t in cp.events(lab):
                case = ['crop', list(x), list(map(str, t))]
                with rec.guard(case):
                    s = self.cset(t)
                    if r.p(s) > 1e-9:
                        self.same(rec, case, r.crop(s), d.crop(s), lab, close)
                    else:
                        rec.check(d.p(s) < 1e-7, 'twin-zero', case)
        rec.outcome('twin domain')

    def same(self, rec, case, raw, d, lab, close):
        rec.transitions += 1
        rec.validated += 1
        rec.state(tuple(dm.snapshot(raw.cdf)))
        for t in cp.events(lab):
            s = self.cset(t)
            p, q = raw.p(s), d.p(s)
            # boundaries that are no data points of the support may shift by rounding only where there is no atom
            rec.check(close(p, q), 'scaled-probability', case + [list(map(str, t))], lambda: (p, q, raw.cdf.pfmt(), d.cdf.pfmt()))
        e, f = raw.expectation(), d.expectation()
        rec.check(abs(e - f) <= 1e-7 * max(abs(x) for x in lab), 'scaled-expectation', case, lambda: (e, f))

    # -- discrete domains ----------------------------------------------------------------------------
    def containers(self, items):
        yield set(items)
        yield list(items)
        yield tuple(items)

    def translate(self, rec, T, labels, foreign):
        case = ['domain', [repr(l) for l in labels]]
        with rec.guard(case):
            rec.transitions += 1
            rec.validated += 1
            vals = [T.label2value(l) if not isinstance(l, tuple) else T.values[l] for l in labels]
            rec.check(sorted(vals) == list(range(len(labels))), 'values', case, lambda: vals)
            rec.check([T.value2label(v) for v in vals] == labels and all(type(T.value2label(v)) is type(l) for v, l in zip(vals, labels)), 'roundtrip', case)
            for sub in cp.subsets(labels):
                for c in self.containers(sub):
                    v = T.label2value(c)
                    rec.check(type(v) is type(c) and len(v) == len(c), 'container', case, lambda: (c, v))
                    rec.check(T.value2label(v) == c, 'set-roundtrip', case, lambda: (c, v, T.value2label(v)))
                    for l, w in zip(labels, vals):
                        rec.check((l in c) == (w in v), 'membership', case, lambda: (l, c, v))
            for f in foreign:
                if f in labels:
                    continue
                for c in (f, {f}, [labels[0], f]):
                    try:
                        r = T.label2value(c)
                        rec.fail('foreign-label', case + [repr(c)], r)
                    except (ValueError, TypeError):
                        pass
            for f in (-1, len(labels)):
                for c in (f, {f}, [0, f]):
                    try:
                        r = T.value2label(c)
                        rec.fail('foreign-value', case + [repr(c)], r)
                    except (ValueError, TypeError):
                        pass
            rec.state(tuple(map(repr, labels)))
        return vals

    def job_sym(self, rec, i):
        base = LABELS[i]
        twins = {}
        for n in range(1, len(base) + 1):
            for labels in itertools.permutations(base, n):
                labels = list(labels)
                T = self.D.SymbolicType('S', labels)
                self.translate(rec, T, labels, ['zz', 77])
                self.discrete(rec, T, labels, twins, lambda s: s)
        rec.outcome('symbolic', len(twins))

    def job_int(self, rec, lo):
        for n in range(1, 5):
            labels = list(range(lo, lo + n))
            T = self.D.IntegerType('I', lo, lo + n - 1)
            self.translate(rec, T, labels, [lo - 1, lo + n, lo + .5])
            self.discrete(rec, T, labels, {}, lambda s: s)
            for k in range(1, 5):
                for data in itertools.product(labels, repeat=k):
                    case = ['fit', lo, n, list(data)]
                    with rec.guard(case):
                        rec.transitions += 1
                        want = [data.count(l) / k for l in labels]
                        one = self.np.array([[x] for x in data])
                        two = self.np.array([[labels[0], x] for x in data + (labels[-1], labels[0])])
                        for how, f in (('column', lambda: T().fit(one, col=0)), ('selected', lambda: T().fit(two, self.np.arange(k), 1)),
                                       ('real', lambda: T().fit(one.astype(float), col=0)),
                                       ('internal', lambda: T()._fit(self.np.array([[float(T.label2value(x))] for x in data]))),
                                       ('internal-selected', lambda: T()._fit(two.astype(float) - lo, self.np.arange(k), 1))):
                            got = f().probabilities
                            rec.check(max(abs(x - y) for x, y in zip(got, want)) < 1e-9, 'fit-labels', case + [how], lambda: (list(got), want))
        rec.outcome('integer')

    def discrete(self, rec, T, labels, twins, _):
        """Distributions over the labels: label answers equal internal answers, and do not depend on the order of the labels."""
        np = self.np
        n = len(labels)
        key = frozenset(map(repr, labels))
        order = sorted(range(n), key=lambda k: repr(labels[k]))
        for p in cp.simplex(n, [0, 1, 2] if n == 4 else [0, 1, 2, 5]):
            # p is a probability vector over the labels in canonical order
            byl = {order[k]: p[k] for k in range(n)}
            pv = [byl[k] for k in range(n)]
            case = ['dist', [repr(l) for l in labels], pv]
            with rec.guard(case):
                d = T().set(pv)
                rec.transitions += 1
                rec.validated += 1
                for k, l in enumerate(labels):
                    if not isinstance(l, tuple):
                        rec.check(d.p(l) == pv[k] == d._p(T.label2value(l)), 'p-label', case, lambda: (l, d.p(l)))
                for sub in cp.subsets(range(n)):
                    ls = [labels[k] for k in sub]
                    want = math.fsum(pv[k] for k in sub)
                    for c in self.containers(ls):
                        a, b = d.p(c), d._p(T.label2value(c))
                        rec.check(a == b and abs(a - want) < 1e-12, 'p-set', case + [repr(c)], lambda: (a, b, want))
                    for c in self.containers(ls):
                        try:
                            r = d.crop(c)
                        except self.Uns:
                            rec.check(want == 0, 'crop-unsat', case + [repr(c)])
                            continue
                        q = [x / want if k in sub else 0 for k, x in enumerate(pv)] if want else None
                        rec.check(q is not None and max(abs(x - y) for x, y in zip(q, r.probabilities)) < 1e-12, 'crop', case + [repr(c)], lambda: (q, r.probabilities))
                        rec.check(list(d._crop(T.label2value(c)).probabilities) == list(r.probabilities), 'crop-internal', case + [repr(c)])
                    if ls and all(type(l) is type(ls[0]) and not isinstance(l, tuple) for l in ls):
                        arr = np.array(ls)
                        rec.check(abs(d.p(arr) - want) < 1e-12, 'p-array', case + [repr(arr)], lambda: d.p(arr))
                answers = (frozenset(map(repr, d.mpe()[0])), d.mpe()[1], tuple(sorted((repr(l), q) for q, l in d.items())))
                rec.check({T.value2label(v) for v in d._mpe()[0]} == d.mpe()[0], 'mpe', case)
                old = twins.setdefault((key, p), answers)
                rec.check(old == answers, 'reorder', case, lambda: (old, answers))
                rec.state(('dist', key, p))

    # -- variables -------------------------------------------------------------------------------------
    def job_var(self, rec):
        """Whole assignments translate element by element."""
        V, D, iv = self.V, self.D, self.iv
        for perm in itertools.permutations(['b', 'a', 'c']):
            for a in (0, 2, 3):
                for lo in (-2, 0, 4):
                    T, mean, scale = self.typ(a)
                    x, s, i = V.NumericVariable('x', T), V.SymbolicVariable('s', D.SymbolicType('S', list(perm))), V.IntegerVariable('i', D.IntegerType('I', lo, lo + 2))
                    xs = [mean, mean + scale, self.cset((mean - scale, mean + scale, INC, EXC)), iv.RealSet([self.cset((mean - scale, mean, EXC, INC)), self.cset((mean + scale, INF, INC, EXC))])]
                    ss = list(perm) + [set(c) for c in cp.subsets(perm) if c]
                    is_ = [lo, lo + 2] + [set(c) for c in cp.subsets(range(lo, lo + 3)) if c]
                    for xv in xs:
                        for sv in ss:
                            for iv_ in is_:
                                case = ['assignment', list(perm), a, lo, str(xv), str(sv), str(iv_)]
                                with rec.guard(case):
                                    rec.transitions += 1
                                    rec.validated += 1
                                    la = V.LabelAssignment([(x, xv), (s, sv), (i, iv_)])
                                    va = la.value_assignment()
                                    rec.check(va[x] == T.label2value(xv) and va[s] == s.domain.label2value(sv) and va[i] == i.domain.label2value(iv_), 'assignment', case)
                                    back = va.label_assignment()
                                    rec.check(back[s] == sv and back[i] == iv_ and isinstance(back, V.LabelAssignment), 'assignment-back', case, lambda: back)
                                    b = back[x]
                                    ok = abs(b - xv) < 1e-9 * (abs(mean) + scale) if isinstance(xv, float) else (type(b) is type(xv))
                                    rec.check(ok, 'assignment-numeric', case, lambda: (xv, b))
                                    rec.state(tuple(case))
        rec.outcome('assignments')


CHECK = Check()
