"""C11: every split is the best admissible one, against exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as F

from vlib import trees as tr

TOL = 1e-9

tr.SCHEMAS.setdefault('st', [('s', 'sym', ['a', 'b', 'c']), ('t', 'sym', ['u', 'v'])])
tr.SCHEMAS.setdefault('xst', [('x', 'num', [0., 1.]), ('s', 'sym', ['a', 'b', 'c']), ('t', 'sym', ['u', 'v'])])
tr.SCHEMAS.setdefault('xyz', [('x', 'num', [0., 1.]), ('y', 'num', [0., 2.]), ('z', 'num', [0., 5.])])
tr.SCHEMAS.setdefault('big', [('x', 'num', [1e6 + .1, 1e6 + .3, 1e6 + .7]), ('y', 'num', [.1, .3])])
tr.SCHEMAS.setdefault('sk', [('s', 'sym', ['a']), ('x', 'num', [0., 1.]), ('t', 'sym', ['u', 'v', 'w'])])


class Ref:
    """Scores of all splits of a set of rows from the definitions, in exact arithmetic."""

    def __init__(self, vs, targets, features, deps):
        self.vs = vs
        self.names = [v.name for v in vs]
        t = [self.names.index(n) for n in targets]
        self.num = [i for i in t if vs[i].numeric or vs[i].integer]
        self.sym = [i for i in t if vs[i].symbolic]
        self.features = [self.names.index(f) for f in features]
        self.deps = {self.names.index(f): {self.names.index(x) for x in d} for f, d in deps.items()}
        self.cache = {}

    # how the improvements of several numeric targets are combined; see Check.calibrate
    mean = True

    def combine(self, imps):
        if self.mean:
            return sum(imps) / len(imps)
        acc = F(0)
        for d, x in enumerate(imps):
            acc = acc * d + x / (d + 1)
        return acc

    def stats(self, rows):
        """Variance of the numeric and normalized Gini index of the symbolic targets."""
        rows = tuple(sorted(rows))
        if rows not in self.cache:
            n, var, gini = len(rows), {}, {}
            for i in self.num:
                xs = [r[i] for r in rows]
                m = sum(xs) / n
                var[i] = sum((x - m) ** 2 for x in xs) / n
            for i in self.sym:
                k = self.vs[i].domain.n_values
                if k == 1:
                    gini[i] = F(0)
                    continue
                g = 1 - sum(F(sum(r[i] == v for r in rows), n) ** 2 for v in {r[i] for r in rows})
                gini[i] = g / (1 - F(1, k))
                if self.vs[i].invert_impurity:
                    gini[i] = 1 - gini[i]
            self.cache[rows] = var, gini
        return self.cache[rows]

    def score(self, f, rows, left, right):
        n, nl, nr = len(rows), len(left), len(right)
        v0, g0 = self.stats(rows)
        vl, gl = self.stats(left)
        vr, gr = self.stats(right)
        w = F(len(self.num), len(self.num) + len(self.sym))
        out = F(0)
        imps = [(v0[i] - (vl[i] * nl + vr[i] * nr) / n) / v0[i] if i in self.deps[f] else F(0)
                for i in self.num if i != f and v0[i] != 0]
        if imps:
            out += w * self.combine(imps)
        if self.sym:
            m0 = sum(g0.values())
            if m0:
                m1 = sum((gl[i] * nl + gr[i] * nr) / n if i in self.deps[f] else g0[i] for i in self.sym)
                out += (1 - w) * (m0 - m1) / m0
        return out

    def splits(self, rows, minleaf):
        """All admissible splits: (feature, key of the left side) -> score."""
        out = {}
        for f in self.features:
            vals = sorted({r[f] for r in rows})
            if len(vals) < 2:
                continue
            if self.vs[f].symbolic:
                cuts = [(v, [r for r in rows if r[f] == v], [r for r in rows if r[f] != v]) for v in vals]
            else:
                cuts = [(v, [r for r in rows if r[f] <= v], [r for r in rows if r[f] > v]) for v in vals[:-1]]
            for v, left, right in cuts:
                if len(left) >= minleaf and len(right) >= minleaf:
                    out[f, v] = self.score(f, rows, left, right)
        return out


def goes(split, x):
    if hasattr(split, 'contains_value'):
        return split.contains_value(float(x))
    return int(x) in {int(s) for s in split}


class Check:
    pid = 'C11'
    level = 'model_checking'
    technique = ('exhaustive enumeration of data sets x hyper-parameters (targets, features, dependencies, minimal improvement and leaf size, depth); every node of every '
                 'tree learned by the real code is compared with the exact rational scores of all its admissible splits; all histories of two calls of the split search')
    note = 'The split search is also driven directly on all ranges of rows, in all orders of two ranges, and its reported improvement compared.'
    space = 'all multisets of up to 4-5 rows of ten schemas with up to three variables; all target/feature choices; single-target dependencies'
    assumptions = ['scores within 1e-9 of each other count as ties']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 4, 6), ('xy', 4, 6), ('si', 3, 6), ('st', 4, 6), ('xst', 3, 8), ('xyz', 3, 4), ('big', 4, 6),
                                    ('sk', 4, 6), ('zs', 4, 4), ('bx', 4, 4), ('xsi', 3, 4)]:
            if t:
                nmax, parts = nmax + 1, parts * 8
            out += [['trees', schema, nmax, k, parts] for k in range(parts)]
            out += [['search', schema, nmax, k, 4 if not t else 16] for k in range(4 if not t else 16)]
        out += [['patterns', k, 8] for k in range(8)]
        return out

    def run(self, job, rec):
        self.calibrate(rec)
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def calibrate(self, rec):
        """Known finding: the improvements of several numeric targets are accumulated as acc * d + x / (d + 1) instead of
        averaged (missing parentheses).  One call tells which of the two the code does; everything else is judged by it,
        so that any further deviation is reported."""
        import numpy as np
        from jpt.learning.impurity import Impurity
        j, ref = self.model('xyz', dict(targets=['y', 'z'], features=['x']))
        rows = [(0., 0., 0.), (0., 0., 5.), (1., 2., 0.), (1., 2., 5.)]      # x explains all of y and nothing of z
        imp = Impurity.from_tree(j)
        imp.setup(np.array(rows, order='C'), np.arange(4, dtype=np.int64))
        got = imp.compute_best_split(0, 4)
        internal = self.internal(j.variables, rows)
        Ref.mean = True
        want = max(ref.splits(internal, 1).values())
        case = ['improvement of two numeric targets', rows]
        if not rec.check(abs(got - want) <= TOL, 'mean-improvement', case, lambda: (got, float(want))):
            Ref.mean = False

    # ---- hyper-parameters ------------------------------------------------------------------------
    def structures(self, names):
        """All target/feature choices, plus dependency maps."""
        subs = [list(c) for k in range(1, len(names) + 1) for c in itertools.combinations(names, k)]
        out = [dict(targets=None, features=None)]
        out += [dict(targets=s, features=f) for s in subs for f in subs]
        out += [dict(targets=s, features=None) for s in subs if len(s) < len(names)]
        for shift in range(len(names)):
            out.append(dict(targets=None, features=None, deps={n: [names[(i + shift) % len(names)]] for i, n in enumerate(names)}))
        return out

    def model(self, schema, st, inv=False, **kw):
        from jpt.trees import JPT
        vs = tr.variables(schema)
        if inv:
            for v in vs:
                if v.symbolic:
                    v.settings['invert_impurity'] = True
        by = {v.name: v for v in vs}
        if st.get('deps'):
            kw['dependencies'] = {by[f]: [by[d] for d in ds] for f, ds in st['deps'].items()}
        j = JPT(vs, targets=st['targets'], features=st['features'], **kw)
        names = [v.name for v in vs]
        targets = st['targets'] or names
        features = st['features'] or ([n for n in names if n not in targets] if st['targets'] else names)
        return j, Ref(vs, targets, features, st.get('deps') or {f: targets for f in features})

    def internal(self, vs, rows):
        return [tuple(F(float(v.domain.values[x])) for v, x in zip(vs, r)) for r in rows]

    # ---- trees -----------------------------------------------------------------------------------
    def job_trees(self, rec, schema, nmax, part, parts):
        names = [n for n, _, _ in tr.SCHEMAS[schema]]
        sts = self.structures(names)
        knobs = [dict(min_samples_leaf=m, min_impurity_improvement=g, max_depth=d)
                 for m in (1, 2, .3) for g in (None, .2, .6) for d in (None, 1, 2)] + [dict(max_depth=0), dict(min_samples_leaf=3), dict(min_samples_leaf=.5, max_depth=3)]
        for k, rows in tr.datasets(schema, 2, nmax, part, parts):
            i = k // parts
            # all structures with one knob setting, all knob settings with one structure
            combos = [(st, knobs[(i + n) % len(knobs)]) for n, st in enumerate(sts)] if len(sts) < 20 or i % 3 == 0 else []
            combos += [(sts[(i + n) % len(sts)], kn) for n, kn in enumerate(knobs)] if i % 3 == 1 or not combos else []
            if i % 3 == 2:
                combos += [(sts[0], knobs[0]), (sts[i % len(sts)], knobs[i % len(knobs)])]
            for c, (st, kn) in enumerate(combos):
                inv = (c + i) % 7 == 3
                case = [schema, [list(r) for r in rows], st, kn, inv]
                with rec.guard(case):
                    j, ref = self.model(schema, st, inv, **kn)
                    j.fit(rows=[list(r) for r in rows], close_convex_gaps=False)
                    self.tree(rec, case, j, ref, self.internal(j.variables, rows), kn)

    def job_patterns(self, rec, part, parts):
        for k, rows in tr.patterns(part, parts):
            for kn in (dict(min_samples_leaf=1), dict(min_samples_leaf=2), dict(min_impurity_improvement=.3), dict(max_depth=2)):
                case = ['pat', k, kn]
                with rec.guard(case):
                    j, ref = self.model('pat', dict(targets=None, features=None), **kn)
                    j.fit(rows=[list(r) for r in rows], close_convex_gaps=False)
                    self.tree(rec, case, j, ref, self.internal(j.variables, rows), kn)

    def tree(self, rec, case, j, ref, rows, kn):
        m = kn.get('min_samples_leaf', 1)
        minleaf = max(1, int(m * len(rows))) if isinstance(m, float) else m
        min_imp = kn.get('min_impurity_improvement') or 0
        maxd = math.inf if kn.get('max_depth') is None else kn['max_depth']
        names = [v.name for v in j.variables]
        rec.state((case[0], str(j)))
        stack = [(j.root, rows, 0)]
        while stack:
            node, rs, depth = stack.pop()
            rec.transitions += 1
            rec.validated += 1
            cand = ref.splits(rs, minleaf) if depth < maxd else {}
            best = max(cand.values(), default=None)
            if not getattr(node, 'children', None):
                rec.outcome('leaf')
                rec.check(best is None or best <= min_imp + TOL, 'not-split', case, lambda: (str(node), float(best), min_imp))
                continue
            rec.outcome('split on ' + node.variable.name)
            f = names.index(node.variable.name)
            sides = [[r for r in rs if goes(s, r[f])] for s in node.splits]
            if not rec.check(len(sides) == 2 and sum(map(len, sides)) == len(rs) and all(sides), 'sides', case, lambda: (str(node), sides)):
                return
            key = (f, max(r[f] for r in sides[0]))
            if not rec.check(key in cand and all(len(s) >= minleaf for s in sides), 'inadmissible', case, lambda: (str(node), sides)):
                return
            rec.check(cand[key] >= best - TOL, 'not-best', case,
                      lambda: (str(node), float(cand[key]), {(names[a], float(b)): float(c) for (a, b), c in cand.items()}))
            rec.check(cand[key] >= min_imp - TOL, 'too-little-improvement', case, lambda: (float(cand[key]), min_imp))
            for child, rs_ in zip(node.children, sides):
                stack.append((child, rs_, depth + 1))

    # ---- the split search ------------------------------------------------------------------------
    def job_search(self, rec, schema, nmax, part, parts):
        import numpy as np
        from jpt.learning.impurity import Impurity
        names = [n for n, _, _ in tr.SCHEMAS[schema]]
        sts = self.structures(names)
        for k, rows in tr.datasets(schema, 3, nmax, part, parts):
            i = k // parts
            rows = list(rows)
            rows = rows[i % len(rows):] + rows[:i % len(rows)]
            st = sts[i % len(sts)]
            ranges = [(a, b) for a in range(len(rows)) for b in range(a + 2, len(rows) + 1)]
            minleaf = 1 + i % 2
            case0 = [schema, [list(r) for r in rows], st, minleaf]
            with rec.guard(case0):
                j, ref = self.model(schema, st, min_samples_leaf=minleaf)
                internal = self.internal(j.variables, rows)
                data = np.array([[float(x) for x in r] for r in internal], order='C')
                for hist in itertools.product(ranges, repeat=2):
                    imp = Impurity.from_tree(j)
                    idx = np.arange(len(rows), dtype=np.int64)
                    imp.setup(data, idx)
                    for a, b in hist:
                        case = case0 + [hist]
                        got = imp.compute_best_split(a, b)
                        rec.transitions += 1
                        rec.validated += 1
                        idx = np.asarray(imp.indices)
                        if not rec.check(sorted(idx) == list(range(len(rows))), 'rows-lost', case, lambda: idx):
                            return
                        rs = [internal[x] for x in idx[a:b]]
                        cand = ref.splits(rs, minleaf)
                        best = max(cand.values(), default=None)
                        rec.state((case0, a, b, got))
                        if best is None:
                            rec.outcome('none')
                            rec.check(got == -math.inf, 'reported', case, lambda: got)
                            continue
                        rec.outcome('found')
                        rec.check(abs(got - best) <= TOL, 'reported', case, lambda: (got, float(best)))
                        f, p = imp.best_var, imp.best_split_pos
                        left, right = rs[:p + 1], rs[p + 1:]
                        ok = left and right and (all(r[f] == left[0][f] for r in left) and all(r[f] != left[0][f] for r in right)
                                                 if j.variables[f].symbolic else max(r[f] for r in left) < min(r[f] for r in right))
                        if rec.check(ok, 'position', case, lambda: (f, p, rs)):
                            key = f, max(r[f] for r in left)
                            rec.check(key in cand and cand[key] >= best - TOL, 'not-best', case, lambda: (f, p))
                    rec.n += 1


CHECK = Check()
