"""C10: a learned tree partitions the value space and describes the rows of every part exactly."""
import copy
import itertools
import json
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC, Measure
from checks.c11 import Check as C11

KNOBS = [dict(min_samples_leaf=m, min_impurity_improvement=g, max_depth=d) for m in (1, 2, 3, .34, .5) for g in (None, .3) for d in (None, 0, 1, 2)]


class Check:
    pid = 'C10'
    level = 'model_checking'
    technique = ('exhaustive enumeration of data sets x hyper-parameters x row orders on the real learner; every learned tree is compared with the partition of the rows '
                 'and the relative frequencies computed from the data, over a grid of worlds that meets every cell of the partition and its boundaries')
    note = 'All row orders of small data sets, re-fitting of used models, lists, arrays and frames as input, kept sample indices.'
    space = 'all multisets of up to 4-5 rows of eleven schemas, 64 deep pattern trees; 40 hyper-parameter settings, all target/feature choices'
    assumptions = ['observations are finite']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 4, 6), ('x', 5, 3), ('xy', 4, 6), ('xi', 3, 4), ('si', 3, 4), ('xsi', 3, 6), ('bx', 3, 4), ('zs', 4, 4), ('sx', 4, 4),
                                    ('st', 3, 3), ('big', 3, 3)]:
            if t:
                nmax, parts = nmax + 1, parts * 8
            out += [['fit', schema, nmax, k, parts] for k in range(parts)]
            out += [['order', schema, 4 if t else 3, k, 3] for k in range(3)]
        out += [['patterns', k, 8] for k in range(8)]
        out += [['refit', s] for s in ('xs', 'xi', 'xsi')]
        out += [['adjacent']]
        return out

    def run(self, job, rec):
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def minleaf(self, kn, n):
        m = kn.get('min_samples_leaf', 1)
        return max(1, int(m * n)) if isinstance(m, float) else m

    # ---- one model ---------------------------------------------------------------------------------
    def verify(self, rec, case, j, rows, kn, features, close, keep):
        """All guarantees of a learned tree; rows in internal values."""
        vs = j.variables
        names = [v.name for v in vs]
        leaves = [tr.RefLeaf(l, vs) for l in j.leaves.values()]
        n = len(rows)
        rec.transitions += 1
        rec.validated += 1
        rec.state((case[0], [(l.prior, sorted((k, str(v)) for k, v in l.path.items())) for l in leaves]))
        rec.outcome('%d leaves' % len(leaves))
        worlds = [dict(zip(names, r)) for r in rows]
        members = [[i for i, w in enumerate(worlds) if l.contains(w)] for l in leaves]
        # each row in exactly one leaf; the leaves partition the value space
        if not rec.check(sorted(i for m in members for i in m) == list(range(n)), 'rows-partition', case, lambda: (members, str(j))):
            return
        grid = []
        for v in vs:
            if v.numeric:
                cuts = sorted({x for l in leaves for t in l.path.get(v.name, []) for x in t[:2] if math.isfinite(x)})
                g = [-1e300] + [x for a, b in zip(cuts, cuts[1:]) for x in (a, (a + b) / 2)] + cuts[-1:] + [1e300]
                grid.append(g + [math.nextafter(c, -INF) for c in cuts] + [math.nextafter(c, INF) for c in cuts])
            else:
                grid.append([int(x) for x in v.domain.values.values()])
        for w in itertools.product(*grid):
            w = dict(zip(names, w))
            k = sum(l.contains(w) for l in leaves)
            if not rec.check(k == 1, 'space-partition', case, lambda: (w, k, str(j))):
                break
        # weights, sizes, depth, features
        minleaf = self.minleaf(kn, n)
        maxd = INF if kn.get('max_depth') is None else kn['max_depth']
        for leaf, l, m in zip(j.leaves.values(), leaves, members):
            rec.check(abs(leaf.prior - len(m) / n) < 1e-12, 'weight', case, lambda: (l.idx, leaf.prior, len(m), n))
            rec.check(leaf.samples == len(m), 'samples', case)
            rec.check(len(m) >= minleaf or len(leaves) == 1, 'minimum', case, lambda: (l.idx, len(m), minleaf))
            if keep:
                rec.check(sorted(int(i) for i in leaf.s_indices) == m, 'indices', case, lambda: (list(leaf.s_indices), m))
            depth, p = 0, leaf.parent
            while p is not None:
                depth, p = depth + 1, p.parent
            rec.check(depth <= maxd, 'depth', case, lambda: (l.idx, depth))
            if leaf is next(iter(j.leaves.values())):
                rec.check(j.depth() <= maxd + 1, 'reported-depth', case, lambda: j.depth())
            rec.check(set(l.path) <= set(features), 'non-feature', case, lambda: (l.path, features))
            for c, v in enumerate(vs):
                xs = [rows[i][c] for i in m]
                self.column(rec, case, v, l.dist[v.name], xs, l.path.get(v.name, [tr.FULL]), close and v.name in l.path, leaf.distributions[v])
        rec.check(j.total_samples() == n, 'total', case)
        for c, v in enumerate(vs):
            d = j.priors[v]
            self.column(rec, case + ['prior'], v, Measure.of_cdf(d.cdf) if v.numeric else [float(p) for p in d.probabilities], [r[c] for r in rows], [tr.FULL], False, d)
        for node in j.innernodes.values():
            rec.check(node.samples == sum(len(m) for l, m in zip(leaves, members) if self.below(j.leaves[l.idx], node)), 'node-samples', case)

    def below(self, leaf, node):
        p = leaf.parent
        while p is not None:
            if p is node:
                return True
            p = p.parent
        return False

    def column(self, rec, case, v, d, xs, path, closed, dist):
        if not v.numeric:
            want = [xs.count(k) / len(xs) for k in range(len(d))]
            rec.check(max(abs(a - b) for a, b in zip(d, want)) < 1e-12, 'frequencies', case, lambda: (v.name, d, want))
            return
        lo, hi = min(xs), max(xs)
        support = [(a, a) for a in d.atoms] + [(a, b) for a, b, _ in d.segs]
        rec.check(abs(d.total() - 1) < 1e-9 + 1e-14 * max(abs(x) for x in xs), 'mass', case, lambda: (v.name, d.total()))
        a, b = min(s[0] for s in support), max(s[1] for s in support)
        if not closed:
            # learned from exactly these observations: same hull, and a point mass for constants
            eps = 1e-9 * (1 + abs(lo))
            rec.check(abs(a - lo) <= eps and abs(b - hi) <= eps * 2, 'hull', case, lambda: (v.name, (a, b), (lo, hi)))
            if lo == hi:
                rec.check(abs(d.atoms.get(lo, 0) - 1) < 1e-9, 'constant', case, lambda: (v.name, d.atoms, lo))
        else:
            # the gap to the neighbouring regions is filled, nothing beyond
            p = path[0]
            want = (p[0] if math.isfinite(p[0]) else lo, p[1] if math.isfinite(p[1]) else hi)
            eps = 1e-9 * (1 + abs(lo))
            rec.check(abs(a - want[0]) <= eps and abs(b - want[1]) <= 2 * eps, 'closed-hull', case, lambda: (v.name, (a, b), want, str(dist)))
            gaps = [(s[1], t[0]) for s, t in zip(sorted(support), sorted(support)[1:]) if s[1] < t[0] - eps]
            rec.check(not gaps, 'gap', case, lambda: (v.name, gaps, str(dist)))

    def job_fit(self, rec, schema, nmax, part, parts):
        names = [n for n, _, _ in tr.SCHEMAS[schema]]
        sts = C11().structures(names)
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            i = k // parts
            combos = [(sts[0], KNOBS[(i * 7 + n * 11) % len(KNOBS)]) for n in range(6)] + [(sts[(i + n) % len(sts)], KNOBS[(i + n) % len(KNOBS)]) for n in range(4)]
            for c, (st, kn) in enumerate(combos):
                self.fit_one(rec, schema, rows, st, kn, (c + i) % 2 == 0, (c + i) % 3 == 0)

    def fit_one(self, rec, schema, rows, st, kn, close, keep, form=0):
        case = [schema, [list(r) for r in rows], st, kn, close, keep]
        with rec.guard(case):
            j, ref = C11.model(self, schema, st, **kn)
            given = [list(r) for r in rows]
            before = copy.deepcopy(given)
            j.fit(rows=given, close_convex_gaps=close, keep_samples=keep)
            rec.check(given == before, 'data-modified', case)
            internal = [tuple(float(v.domain.values[x]) for v, x in zip(j.variables, r)) for r in rows]
            names = [v.name for v in j.variables]
            targets = st['targets'] or names
            features = st['features'] or ([n for n in names if n not in targets] if st['targets'] else names)
            self.verify(rec, case, j, internal, kn, features, close, keep)
            return j

    def job_patterns(self, rec, part, parts):
        st = dict(targets=None, features=None)
        for k, rows in tr.patterns(part, parts, 6):
            for c, kn in enumerate((dict(min_samples_leaf=1), dict(min_samples_leaf=2), dict(min_impurity_improvement=.3), dict(max_depth=2), dict(min_samples_leaf=.4))):
                self.fit_one(rec, 'pat', rows, st, kn, (k + c) % 2 == 0, c % 2 == 0)

    # ---- independence of row order, container and earlier fits -------------------------------------
    def signature(self, j):
        """What a model says, independent of node numbers."""
        vs = j.variables
        out = []
        for l in j.leaves.values():
            r = tr.RefLeaf(l, vs)
            path = tuple(sorted((n, tuple(p) if isinstance(p, list) else tuple(sorted(p))) for n, p in r.path.items()))
            ds = tuple((v.name, tuple(sorted(r.dist[v.name].atoms.items())), tuple(r.dist[v.name].segs)) if v.numeric else (v.name, tuple(r.dist[v.name])) for v in vs)
            out.append((path, round(l.prior, 12), l.samples, ds))
        pr = tuple((v.name, str(j.priors[v].cdf.pfmt()) if v.numeric else tuple(float(p) for p in j.priors[v].probabilities)) for v in vs)
        md = tuple((v.name, float(j.minimal_distances[v])) for v in vs if v.numeric)
        return tuple(sorted(out)), pr, md

    def job_order(self, rec, schema, nmax, part, parts):
        for k, rows in tr.datasets(schema, 2, nmax, part, parts):
            i = k // parts
            kn = KNOBS[i % len(KNOBS)] if i % 2 else {}
            want = None
            for p in sorted(set(itertools.permutations(rows))):
                case = [schema, [list(r) for r in p], kn]
                with rec.guard(case):
                    j, _ = C11.model(self, schema, dict(targets=None, features=None), **kn)
                    j.fit(rows=[list(r) for r in p])
                    rec.transitions += 1
                    rec.validated += 1
                    got = self.signature(j)
                    if want is None:
                        want = got
                    elif schema != 'big':              # inexact sums may break ties differently
                        rec.check(got == want, 'row-order', case, lambda: (got, want))
            rec.state((schema, want))

    def job_refit(self, rec, schema):
        """Fitting a used model equals fitting a fresh one; containers do not matter."""
        import numpy as np
        import pandas as pd
        from jpt.trees import JPT
        data = [list(map(list, rows)) for _, rows in tr.datasets(schema, 1, 3)]
        data = data[::max(1, len(data) // 24)]
        names = [n for n, _, _ in tr.SCHEMAS[schema]]
        fresh = {}
        vs = tr.variables(schema)
        for n, rows in enumerate(data):
            fresh[n] = self.signature(JPT(vs).fit(rows=rows))
        for a, b in itertools.product(range(len(data)), repeat=2):
            case = [schema, data[a], data[b]]
            with rec.guard(case):
                original = j = JPT(vs).fit(rows=data[a])
                if b % 3 == 0:
                    j.posterior([names[0]]), j.infer({names[-1]: data[a][0][-1]}), j.mpe()
                # models derived from another one are fitted without changing it
                how = (a + 2 * b + b // 7) % 5
                if how == 1:
                    j = original.copy()
                elif how == 2:
                    j = original.conditional_jpt(original.bind({names[-1]: data[a][0][-1]}))
                elif how == 3:
                    j = original.prune(0)
                elif how == 4:
                    j = JPT.from_json(json.loads(json.dumps(original.to_json())))
                rec.outcome('refit %s' % ['the model', 'a copy', 'a conditional model', 'a pruned model', 'a loaded model'][how])
                form = (a + b) % 4
                given = copy.deepcopy(data[b])
                if form == 1:
                    given = [list(c) for c in zip(*data[b])]
                    j.fit(columns=given)
                    rec.check(given == [list(c) for c in zip(*data[b])], 'data-modified', case)
                elif form == 2:
                    given = pd.DataFrame(data[b], columns=names)
                    cp = given.copy()
                    j.fit(given)
                    rec.check(given.equals(cp) and list(given.dtypes) == list(cp.dtypes), 'data-modified', case)
                elif form == 3:
                    given = np.array(data[b], dtype=object)
                    cp = given.copy()
                    j.fit(rows=given)
                    rec.check((given == cp).all(), 'data-modified', case)
                else:
                    j.fit(rows=given)
                    rec.check(given == data[b], 'data-modified', case)
                rec.transitions += 2
                rec.validated += 1
                got = self.signature(j)
                rec.state((schema, a, b))
                rec.check(got == fresh[b], 'refit', case, lambda: (got, fresh[b]))
                if j is not original:
                    rec.check(self.signature(original) == fresh[a], 'original-changed', case + [how])
                # data that are refused leave the model alone
                for k, bad in enumerate(self.refused(names, data[b])):
                    if (a + b + k) % 3:
                        continue
                    rec.transitions += 1
                    try:
                        j.fit(**bad())
                    except (ValueError, KeyError, TypeError, IndexError):
                        rec.outcome('refused data')
                        rec.check(self.signature(j) == fresh[b], 'refused-data', case + [k], lambda: (self.signature(j), fresh[b]))
                    else:
                        rec.check(False, 'bad-data-accepted', case + [k])

    def refused(self, names, rows):
        """Arguments for fitting that cannot be learned from."""
        import numpy as np
        import pandas as pd
        good, n = list(rows[0]), len(names)
        out = [lambda: dict(rows=[]), lambda: dict(rows=np.empty((0, n), dtype=object)), lambda: dict(data=pd.DataFrame({c: [] for c in names})), lambda: dict(),
               lambda: dict(rows=[good[:-1]] if n > 1 else [[]]), lambda: dict(rows=[list(rows[0])], columns=[[x] for x in rows[0]]),
               lambda: dict(data=pd.DataFrame([good], columns=['wrong%d' % i for i in range(n)]))]
        for i, x in enumerate(good):
            for wrong in ((float('nan'), float('inf')) if isinstance(x, float) else (99, 'no such label')):
                out.append(lambda i=i, wrong=wrong: dict(rows=[list(r) for r in rows] + [good[:i] + [wrong] + good[i + 1:]]))
        return out

    def job_adjacent(self, rec):
        """Observations that are neighbouring floats or huge: the split point still separates them."""
        from jpt.trees import JPT
        from jpt.variables import NumericVariable
        vals = [1., -1., 1e-200, 1e200, -1e200, 1e16, .1, 12345.678]
        cols = [(v, math.nextafter(v, INF)) for v in vals] + [(1.2e308, 1.7e308), (-1.7e308, -1.2e308), (-1e-200, 1e-200)]
        for a, b in cols:
            for rows in ([a, b], [a, a, b], [a, b, b], [b, a]):
                for close in (True, False):
                    case = ['adjacent', rows, close]
                    with rec.guard(case):
                        j = JPT([NumericVariable('x')]).fit(rows=[[x] for x in rows], close_convex_gaps=close)
                        leaves = [tr.RefLeaf(l, j.variables) for l in j.leaves.values()]
                        members = [[x for x in rows if l.contains({'x': x})] for l in leaves]
                        rec.transitions += 1
                        rec.validated += 1
                        rec.state((a, b, tuple(rows), close))
                        rec.check(all(abs(l.prior - len(m) / len(rows)) < 1e-12 for l, m in zip(leaves, members)), 'adjacent-rows', case, lambda: (members, str(j)))


CHECK = Check()
