"""C17: models, variables and distributions survive persistence unchanged."""
import copy
import io
import itertools
import json
import math
import os
import pickle
import shutil
import tempfile

from vlib import corpus as cp, distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from .c15 import freeze

HYPER = [
    dict(), dict(min_samples_leaf=2), dict(min_samples_leaf=.4), dict(max_depth=1), dict(max_leaves=2), dict(min_impurity_improvement=.2),
    dict(min_samples_leaf=1, max_depth=2, min_impurity_improvement=1e-3),
]


def same(a, b):
    """Equal up to rounding of numbers."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    return x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y))


class Check:
    pid = 'C17'
    level = 'model_checking'
    technique = ('exhaustive enumeration of objects (distributions, domains, variables, models and their derived models) x all ways and sequences of writing and reading '
                 'them; every copy is compared structurally, by equality and by its answers to a battery of queries, and learns again from the same data')
    note = 'Ways: JSON text, pickle (every protocol), files by name and handle in both formats, copy, deepcopy; once, twice and mixed.'
    space = 'all multisets of up to 3 rows of nine schemas x hyper-parameters, targets, features, dependencies; about 500 distributions; all label kinds and settings'
    assumptions = ['labels of symbolic domains are strings, numbers, truth values or missing (JSON can express them)', 'JSON text may contain Infinity']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 4), ('x', 3, 2), ('xy', 3, 4), ('xi', 3, 3), ('si', 3, 3), ('xsi', 3, 4), ('bx', 3, 3), ('zs', 3, 3), ('sx', 3, 3)]:
            if t:
                nmax, parts = nmax + 1, parts * 6
            out += [['model', schema, nmax, k, parts, t] for k in range(parts)]
        out += [['settings', s] for s in ('xs', 'xy', 'xsi', 'bx', 'zs', 'si')]
        out += [['variables']]
        out += [['dist', k] for k in ('numeric', 'scaled', 'symbolic', 'integer')]
        out += [['quantile']]
        return out

    def run(self, job, rec):
        from jpt.base import intervals as iv, functions as fn
        from jpt import distributions as D, variables as V
        from jpt.trees import JPT
        self.iv, self.fn, self.D, self.V, self.JPT = iv, fn, D, V, JPT
        self.tmp = tempfile.mkdtemp(prefix='c17')
        try:
            getattr(self, 'job_' + job[0])(rec, *job[1:])
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------------------------------------------------------------
    def ways(self, j):
        """All ways of writing and reading a model."""
        JPT, path = self.JPT, os.path.join(self.tmp, 'model')
        out = [('json text', lambda m: JPT.from_json(json.loads(json.dumps(m.to_json())))),
               ('json variables', lambda m: JPT.from_json(json.loads(json.dumps(m.to_json())), variables=m.variables)),
               ('copy', lambda m: m.copy()), ('copy.copy', lambda m: copy.copy(m)), ('deepcopy', lambda m: copy.deepcopy(m))]
        out += [('pickle %d' % p, lambda m, p=p: pickle.loads(pickle.dumps(m, p))) for p in (0, 2, pickle.HIGHEST_PROTOCOL)]

        def file(m, protocol):
            m.save(path, protocol)
            return JPT.load(path, protocol)

        def handle(m, protocol):
            f = io.StringIO() if protocol == 'json' else io.BytesIO()
            m.save(f, protocol)
            f.seek(0)
            return JPT.load(f, protocol)
        for p in ('json', 'pickle'):
            out.append(('file ' + p, lambda m, p=p: file(m, p)))
            out.append(('handle ' + p, lambda m, p=p: handle(m, p)))
        return out

    def shape(self, j):
        """Everything a model consists of."""
        names = lambda vs: [v.name for v in vs]
        return dict(
            variables=[(type(v).__name__, v.name, dict(v.settings), v.domain.__qualname__, str(v.domain.to_json())) for v in j.variables],
            targets=names(j.targets), features=names(j.features), min_samples_leaf=repr(j.min_samples_leaf), hyper=(repr(float(j.min_impurity_improvement)), j.max_leaves, float(j.max_depth)),
            dependencies=sorted((k.name, names(vs)) for k, vs in j.dependencies.items()),
            distances=sorted((k.name, float(x)) for k, x in j.minimal_distances.items()),
            priors=sorted((k.name, type(d).__qualname__, dict(d.settings), freeze(d)) for k, d in j.priors.items()),
            leaves=[(i, l.idx, repr(float(l.prior)), l.samples, [int(x) for x in l.s_indices], None if l.parent is None else l.parent.idx, freeze(l.path),
                     [(k.name, type(d).__qualname__, dict(d.settings), freeze(d)) for k, d in l.distributions.items()]) for i, l in j.leaves.items()],
            inner=[(i, n.idx, n.variable.name, freeze(n.splits), [c.idx for c in n.children], n.samples, None if n.parent is None else n.parent.idx, freeze(n.path)) for i, n in j.innernodes.items()],
            root=None if j.root is None else j.root.idx, links=all(any(c is l for c in l.parent.children) for l in list(j.leaves.values()) + list(j.innernodes.values()) if l.parent is not None),
            text=str(j))

    def battery(self, j, schema, rows):
        if j.root is None:
            return []
        es = list(tr.assignments(schema, False, 2))
        api = lambda e: {n: tr.event_to_api(self.iv, j.varnames[n], ev) for n, ev in e.items()}
        out = []
        for k, e in enumerate(es):
            q = es[(k * 5 + 3) % len(es)]
            out.append(j.infer(api(q), api(e), fail_on_unsatisfiability=False))
            if k % 4 == 0:
                out.append(freeze(j.posterior(None, api(e), fail_on_unsatisfiability=False)))
            if k % 7 == 0:
                out += [freeze(j.mpe(api(e), False)), freeze(list(j.kmpe(api(e), False, 3))), freeze(j.expectation(None, api(e), False))]
        out += [freeze(j.likelihood([list(r) for r in rows])), [l.idx for l in j.apply(api(es[-1]))]]
        return out

    def equal(self, rec, case, a, b, shape, answers, schema, rows):
        rec.transitions += 1
        rec.validated += 1
        s = self.shape(b)
        rec.check(s == shape, 'shape', case, lambda: [(k, str(shape[k])[:400], str(s[k])[:400]) for k in shape if s[k] != shape[k]])
        rec.check(a == b and b == a and not (a != b), 'equality', case)
        if answers is not None:
            got = self.battery(b, schema, rows)
            rec.check(same(got, answers), 'answers', case, lambda: [(str(x)[:300], str(y)[:300]) for x, y in zip(got, answers) if x != y][:3])

    def persist(self, rec, key, schema, j, rows, k, full=False):
        ways = self.ways(j)
        with rec.guard(key):
            shape, answers = self.shape(j), self.battery(j, schema, rows)
            rec.state((schema, str(shape)))
        n = len(ways)
        for i, (name, f) in enumerate(ways):
            if not full and (i + k) % 3 and name not in ('json text', 'pickle 2'):
                continue
            case = [key, name]
            with rec.guard(case):
                c = f(j)
                self.equal(rec, case, j, c, shape, answers if full or (i + k) % 2 else None, schema, rows)
                second, g = ways[(i + k) % n]
                d = g(c)
                self.equal(rec, case + [second], j, d, shape, answers if (i + k) % 3 == 0 else None, schema, rows)
                rec.outcome(name)
                if (i + k) % 5 == 0 and j.root is not None and schema != 'conditional':
                    kw = dict(rows=[list(r) for r in rows], keep_samples=True)
                    x, y = j.copy().fit(**kw), d.fit(**kw)
                    rec.check(self.shape(x) == self.shape(y), 'refit', case + [second], lambda: [(p, str(q)[:300], str(self.shape(y)[p])[:300]) for p, q in self.shape(x).items() if q != self.shape(y)[p]])
        rec.check(self.shape(j) == shape, 'original', key)

    def job_model(self, rec, schema, nmax, part, parts, full):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            n = k // parts
            if not full and len(rows) == nmax and n % 4 and len(tr.SCHEMAS[schema]) > 1:
                continue
            hyper = HYPER[n % len(HYPER)]
            key = [schema, [list(r) for r in rows], hyper]
            j = tr.fit(schema, rows, close=n % 3 > 0, keep=n % 2 > 0, **hyper)
            self.persist(rec, key, schema, j, rows, n)
            if n % 3 == 0:
                self.persist(rec, key + ['pruned'], schema, j.prune(0.), rows, n)
                es = [e for e in tr.assignments(schema, True, 1, empty=False)]
                e = es[n % len(es)]
                c = j.conditional_jpt({m: tr.event_to_api(self.iv, j.varnames[m], ev) for m, ev in e.items()}, fail_on_unsatisfiability=False)
                if c is not None:
                    self.persist(rec, key + [tr.show(e)], schema, c, rows, n)
            if len(j.leaves) > 1 and n % 4 == 0:
                c = j.copy().multiply_by_leaf_prior({i: [0., 1e-9, 1., 3.][(m + n) % 4] + 1e-12 for m, i in enumerate(j.leaves)})
                self.persist(rec, key + ['weighted'], schema, c, rows, n)

    def job_settings(self, rec, schema):
        """Targets, features, dependencies and settings of variables."""
        names = [n for n, _, _ in tr.SCHEMAS[schema]]
        subs = [None] + [list(c) for k in range(1, len(names) + 1) for c in itertools.combinations(names, k)]
        rows = [r for _, r in tr.datasets(schema, 4, 4, 3, 41)][0]
        k = 0
        for t, f, h in itertools.product(subs, subs, HYPER):
            for dep in range(3):
                k += 1
                if k % 3 and dep:
                    continue
                vs = self.settings(tr.variables(schema), k)
                kw = dict(h)
                if dep and (f is None or t is None or not set(t) & set(f)):
                    continue
                feats = f or names
                targs = t or names
                if dep:
                    kw['dependencies'] = {v: [w for w in vs if w.name in targs][:dep] for v in vs if v.name in feats}
                key = [schema, t, f, h, dep]
                try:
                    j = self.JPT(vs, targets=t, features=f, **kw)
                except Exception:
                    continue
                with rec.guard(key):
                    self.persist(rec, key + ['unfitted'], schema, j, rows, k)
                if k % 5 == 0:
                    try:
                        j.fit(rows=[list(r) for r in rows], keep_samples=True)
                    except Exception as x:
                        rec.outcome('not learnable: ' + type(x).__name__)
                        continue
                    self.persist(rec, key, schema, j, rows, k)

    def settings(self, vs, k):
        out = []
        for n, v in enumerate(vs):
            if v.numeric:
                opts = [dict(), dict(precision=0.), dict(precision=.5), dict(min_impurity_improvement=.1), dict(blur=.3), dict(max_std=.7), dict(precision=.2, blur=.1, max_std=2., min_impurity_improvement=.01)]
                out.append(self.V.NumericVariable(v.name, v.domain, **opts[(k + n) % len(opts)]))
            elif v.symbolic:
                opts = [dict(), dict(invert_impurity=True), dict(invert_impurity=False), dict(min_impurity_improvement=.1), dict(min_impurity_improvement=.2, invert_impurity=True)]
                out.append(self.V.SymbolicVariable(v.name, v.domain, **opts[(k + n) % len(opts)]))
            else:
                out.append(self.V.IntegerVariable(v.name, v.domain, **[dict(), dict(min_impurity_improvement=.1)][(k + n) % 2]))
        return out

    # ------------------------------------------------------------------------------------------------------------------
    def job_variables(self, rec):
        V, D = self.V, self.D
        domains = [(V.NumericVariable, D.Numeric)] + [(V.NumericVariable, D.NumericType('Z', a)) for a in ([0, 1], [-5., 3.25, 1e6], [1, 1 + 1e-9])]
        for labels in (['a', 'b'], ['b', 'a'], ['x'], [3, 1, 2], [True, False], [1.5, -2.], ['1', 1], ['a', None], ['', ' ', 'ä\n"'], list('zyxwvutsrqponmlkjihg')):
            domains.append((V.SymbolicVariable, D.SymbolicType('S', labels)))
        domains.append((V.SymbolicVariable, D.Bool))
        for lo, hi in ((0, 0), (-3, 2), (5, 9), (0, 10 ** 6)) if False else ((0, 0), (-3, 2), (5, 9), (0, 200)):
            domains.append((V.IntegerVariable, D.IntegerType('I', lo, hi)))
        ways = [('json', lambda v: V.Variable.from_json(json.loads(json.dumps(v.to_json())))), ('class json', lambda v: type(v).from_json(json.loads(json.dumps(v.to_json())))), ('copy', lambda v: v.copy()),
                ('copy.copy', lambda v: copy.copy(v)), ('deepcopy', lambda v: copy.deepcopy(v))] + [('pickle %d' % p, lambda v, p=p: pickle.loads(pickle.dumps(v, p))) for p in (0, 2, 4, 5)]
        for (T, d), k in itertools.product(domains, range(7)):
            v, = self.settings([T('v', d)], k)
            for name in ('v', 'name with blanks', 'ü'):
                v._name = name
                for (w1, f), (w2, g) in itertools.product(ways, repeat=2):
                    case = [T.__name__, str(d.to_json())[:80], k, name, w1, w2]
                    with rec.guard(case):
                        rec.transitions += 2
                        rec.validated += 1
                        rec.state(tuple(case))
                        c = g(f(v))
                        rec.check(c == v and v == c and hash(c) == hash(v) and {v: 1}.get(c) == 1, 'variable', case, lambda: (str(c), str(v)))
                        rec.check(type(c) is T and c.name == v.name and c.settings == v.settings and c.settings is not v.settings, 'settings', case, lambda: (c.settings, v.settings))
                        rec.check(str(c) == str(v) and c.to_json() == v.to_json(), 'text', case)
                        self.same_domain(rec, case, c.domain, d)
                        x, y = v.distribution(), c.distribution()
                        rec.check(x.settings == y.settings, 'distribution-settings', case)
                        rec.outcome(w1)

    def same_domain(self, rec, case, a, b):
        rec.check(a.equiv(b) and b.equiv(a) and a.hash() == b.hash() and a.__qualname__ == b.__qualname__, 'domain', case)
        if issubclass(b, self.D.Multinomial) or issubclass(b, self.D.Integer):
            ls = list(b.labels.values())
            rec.check(list(a.labels.values()) == ls and [type(x) for x in a.labels.values()] == [type(x) for x in ls], 'labels', case, lambda: list(a.labels.values()))
            rec.check([a.values[x] for x in ls] == [b.values[x] for x in ls], 'values', case)
        else:
            for x in (-7.5, 0., 1 / 3, 1e6):
                rec.check(a.label2value(x) == b.label2value(x) and a.value2label(x) == b.value2label(x), 'scaling', case, lambda: (a.label2value(x), b.label2value(x)))

    # ------------------------------------------------------------------------------------------------------------------
    def job_dist(self, rec, kind):
        D, np = self.D, __import__('numpy')
        from jpt.distributions.quantile.quantiles import QuantileDistribution as QD
        ds = []
        if kind in ('numeric', 'scaled'):
            T = D.Numeric if kind == 'numeric' else D.NumericType('Z', [-3., 10., 4.])
            for k, m in enumerate(cp.measures([-.5, 0., 1 / 3], [0, 1], [0, 2])):
                ds.append(T(precision=(.01, .5, 0.)[k % 3]).set(QD.from_cdf(cp.cdf_of(self.fn, self.iv, m))))
            for n in (1, 2, 3, 4):
                for k, data in enumerate(itertools.combinations_with_replacement([-1., 0., .1, 2.], n)):
                    d = T(precision=(0., .001, .3)[k % 3])._fit(np.array([[x] for x in data]))
                    ds.append(d)
                    if d._p(self.iv.ContinuousSet(-.5, 1)) > 0:
                        ds.append(d._crop(self.iv.ContinuousSet(-.5, 1)))
            events = [self.iv.ContinuousSet(a, b) for a, b in itertools.combinations([-2., -.5, 0., .1, 1 / 3, 1.5, 40.], 2)]
            ds.append(T())
        else:
            if kind == 'symbolic':
                types = [D.SymbolicType('S', ls) for ls in (['a', 'b', 'c'], ['c', 'a', 'b'], [3, 1, 2], ['1', 1, None])] + [D.Bool]
            else:
                types = [D.IntegerType('I', lo, hi) for lo, hi in ((0, 2), (-1, 1), (4, 6))]
            for T in types:
                n = len(list(T.labels.values()))
                for p in cp.vectors(n, [0, 1, 2, 3]):
                    ds.append(T().set(list(p)))
                ds.append(T())
            events = None
        ways = [('json', lambda d: type(d).from_json(json.loads(json.dumps(d.to_json())))),
                ('json with type', lambda d: D.Distribution.from_json(json.loads(json.dumps(type(d).to_json()))).from_json(json.loads(json.dumps(d.to_json())))),
                ('copy', lambda d: d.copy()), ('copy.copy', lambda d: copy.copy(d)), ('deepcopy', lambda d: copy.deepcopy(d)),
                ('pickle', lambda d: pickle.loads(pickle.dumps(d))), ('pickle 2', lambda d: pickle.loads(pickle.dumps(d, 2)))]
        for k, d in enumerate(ds):
            fitted = k + 1 < len(ds) and type(d) is type(ds[k + 1])       # the last one of each domain is not
            for (w1, f), (w2, g) in itertools.product(ways, ways[k % 2::2]):
                case = [kind, k, freeze(d) if fitted else 'unfitted', w1, w2]
                if w1 == 'copy' and not fitted or w2 == 'copy' and not fitted:
                    continue
                with rec.guard(case):
                    rec.transitions += 2
                    rec.validated += 1
                    rec.state((kind, k, w1, w2))
                    c = g(f(d))
                    rec.check(c.settings == d.settings, 'settings', case, lambda: (c.settings, d.settings))
                    self.same_domain(rec, case, type(c), type(d))
                    rec.outcome('fitted' if fitted else 'unfitted')
                    if not fitted:
                        continue
                    rec.check(c == d and d == c, 'equality', case)
                    rec.check(freeze(c) == freeze(d), 'shape', case, lambda: (freeze(c), freeze(d)))
                    for e in events if events else [set(s) for s in cp.subsets(list(type(d).labels.values()))]:
                        rec.check(c.p(e) == d.p(e), 'answers', case, lambda: (e, c.p(e), d.p(e)))
                    rec.check(freeze(c.mpe()) == freeze(d.mpe()) and str(c) == str(d), 'answers', case, lambda: (c.mpe(), d.mpe(), str(c), str(d)))
                    if kind != 'symbolic':
                        rec.check(c.expectation() == d.expectation(), 'answers', case)
                    json.dumps(c.to_json())

    def job_quantile(self, rec):
        """The quantile distributions below the numeric distributions, with every setting."""
        from jpt.distributions.quantile.quantiles import QuantileDistribution as QD
        np = __import__('numpy')
        ways = [('json', lambda d: QD.from_json(json.loads(json.dumps(d.to_json())))), ('copy', lambda d: d.copy()), ('copy.copy', lambda d: copy.copy(d)),
                ('deepcopy', lambda d: copy.deepcopy(d)), ('pickle', lambda d: pickle.loads(pickle.dumps(d)))]
        for eps, mars, n in itertools.product((0., .01, .3), (1, 5, 17), (1, 2, 3, 4)):
            for data in itertools.combinations_with_replacement([-1., 0., .1, 2.], n):
                for (w1, f), (w2, g) in itertools.product(ways, ways):
                    case = [eps, mars, list(data), w1, w2]
                    with rec.guard(case):
                        d = QD(epsilon=eps, min_samples_mars=mars)
                        d.fit(np.array([[x] for x in data]), None, 0)
                        c = g(f(d))
                        rec.transitions += 2
                        rec.validated += 1
                        rec.state(case)
                        rec.check(c == d and d == c and (c.epsilon, c.min_samples_mars) == (d.epsilon, d.min_samples_mars), 'equality', case, lambda: (c.to_json(), d.to_json()))
                        for x in (-2., -1., -.3, 0., .1, 1 / 3, 2., 3.):
                            rec.check(c.cdf(x) == d.cdf(x) and c.pdf(x) == d.pdf(x), 'answers', case)
                        for x in (0., .2, .5, 1.):
                            rec.check(c.ppf(x) == d.ppf(x), 'answers', case)


CHECK = Check()
