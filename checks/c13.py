"""C13: posterior distributions, expectations and moments against the mixture semantics."""
import itertools
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from checks.c12 import Check as Base, CONFIGS


class Check(Base):
    pid = 'C13'
    technique = ('exhaustive enumeration of models (all small data sets x hyper-parameters) and evidence over an event alphabet that includes single '
                 'values, split points and unions; every posterior is compared as a distribution with Bayes rule on the reference mixture')
    note = 'Distribution functions are compared at all breakpoints and between; expectations, moments and the requested variable subset are checked too.'
    space = 'all multisets of up to 3-4 rows for nine variable schemas, deep pattern trees, models with extreme leaf weights; evidence on up to two variables'

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 8), ('x', 4, 4), ('xy', 3, 8), ('xi', 3, 6), ('si', 3, 6), ('xsi', 3, 10), ('bx', 3, 4), ('zs', 3, 6), ('sx', 3, 4)]:
            if t:
                nmax, parts = nmax + 1, parts * 6
            out += [['data', schema, nmax, k, parts, True] for k in range(parts)]
        out += [['patterns', k, 8, t] for k in range(8)]
        out += [['weights', s] for s in ('xs', 'si', 'xy')]
        out += [['pruned', s] for s in ('xs', 'x', 'xy')]
        return out

    def run(self, job, rec):
        from jpt.variables import LabelAssignment
        self.LabelAssignment = LabelAssignment
        super().run(job, rec)

    def evidence(self, schema, j, rich=True):
        """Assignments of the alphabet plus events that touch the split points."""
        yield from tr.assignments(schema, rich, 2)
        for n, kind, a in tr.SCHEMAS[schema]:
            if kind in ('num', 'scaled'):
                yield {n: [(a[0], a[0], INC, INC), (a[1], a[1], INC, INC)]}
                yield {n: [(a[1], a[1], INC, INC), (a[0], (a[0] + a[1]) / 2, EXC, EXC)]}
        cuts = set()
        for l in j.leaves.values():
            for v, p in l.path.items():
                if v.numeric:
                    cuts |= {(v.name, float(c)) for t in tr.tuples(p) for c in t[:2] if math.isfinite(c)}
        for n, c in sorted(cuts):
            f = j.varnames[n].domain.labels
            c = float(f[c])
            for e in [[(c, c, INC, INC)], [(c - 1, c, INC, INC)], [(c, c + 1, EXC, INC)], [(c - 1, c, INC, EXC), (c + .25, c + .25, INC, INC)]]:
                yield {n: e}

    def explore(self, rec, key, schema, j, qs, es):
        m = tr.RefModel(j)
        rec.state((schema, [(l.prior, sorted((k, str(v)) for k, v in l.path.items())) for l in m.leaves]))
        for k, e in enumerate(self.evidence(schema, j, qs is not None) if es is None else es):
            case = [key, tr.show(e)]
            with rec.guard(case):
                self.posterior(rec, case, j, m, e, k)

    def posterior(self, rec, case, j, m, e, k):
        re_ = self.ref(j, e)
        ws = math.fsum(l.weight(re_) for l in m.leaves)
        rec.transitions += 1
        rec.validated += 1
        if 0 < ws <= 1e-12:
            return
        query = self.query(j, e)
        if ws == 0:
            try:
                r = j.posterior(evidence=query)
            except self.Unsat:
                r = None
            rec.outcome('refused')
            rec.check(r is None, 'impossible-evidence', case)
            rec.check(j.posterior(evidence=query, fail_on_unsatisfiability=False) is None, 'impossible-evidence', case)
            rec.check(j.expectation(evidence=query, fail_on_unsatisfiability=False) is None, 'impossible-evidence', case)
            return
        names = [v.name for v in j.variables]
        pick = None if k % 3 == 0 else names[:1] if k % 3 == 1 else [j.varnames[names[-1]]]
        post = j.posterior(pick, query)
        want_names = set(names) if pick is None else {n if isinstance(n, str) else n.name for n in pick}
        if not rec.check(set(v.name for v in post.keys()) == want_names, 'variables', case, lambda: str(post)):
            return
        exp = j.expectation(pick, query)
        moments = None
        if k % 3 == 0:
            center = self.LabelAssignment([(v, 1) for v in j.variables if not v.symbolic])
            moments = j.moment(2, (center if k % 4 == 1 else center.value_assignment()) if k % 2 else None, j.bind(query))
        rec.check(set(v.name for v in exp.keys()) == want_names, 'variables', case)
        tol = max(1e-7, 1e-14 / ws)
        for n in sorted(want_names):
            v = j.varnames[n]
            ref = m.posterior(n, re_)
            d = post[v]
            rec.check(type(d) is v.domain or d.__class__.__name__ == v.domain.__name__, 'type', case, lambda: type(d))
            if v.numeric:
                if not dm.valid_cdf(d.cdf, rec, case, tol=tol):
                    continue
                dm.same_cdf(d.cdf, ref, rec, case, 'posterior', tol=tol)
                f = lambda x: float(v.domain.labels[x])
                mean = ref.moment(1, 0, f)
                rec.check(abs(exp[v] - mean) <= tol * (1 + abs(mean)), 'expectation', case, lambda: (exp[v], mean))
                if moments is not None:
                    want = ref.moment(2, 1. if k % 2 else 0., f)
                    rec.check(abs(moments[v] - want) <= tol * 10 * (1 + abs(want)), 'moment', case, lambda: (moments[v], want))
                rec.outcome('%d atoms, %d segments' % (min(3, len(ref.atoms)), min(4, len(ref.segs))))
            else:
                got = [float(p) for p in d.probabilities]
                rec.check(len(got) == len(ref) and max(abs(a - b) for a, b in zip(got, ref)) <= tol, 'posterior', case, lambda: (n, got, ref))
                labels = [v.domain.labels[i] for i in range(len(ref))]
                if v.symbolic:
                    best = {l for l, p in zip(labels, got) if p == max(got)}
                    rec.check(exp[v] == best, 'expectation', case, lambda: (exp[v], best))
                else:
                    mean = math.fsum(l * p for l, p in zip(labels, ref))
                    rec.check(abs(exp[v] - mean) <= tol * 10, 'expectation', case, lambda: (exp[v], mean))
                    if moments is not None:
                        want = math.fsum((l - (1 if k % 2 else 0)) ** 2 * p for l, p in zip(labels, ref))
                        rec.check(abs(moments[v] - want) <= tol * 10 * (1 + want), 'moment', case, lambda: (moments[v], want))
                rec.outcome('%d of %d values' % (sum(p > 0 for p in got), len(got)))

    def job_data(self, rec, schema, nmax, part, parts, rich):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            cfg = CONFIGS[(k // parts) % 2 if len(rows) > 2 else 0]
            close = (k // parts) % 5 != 0
            j = tr.fit(schema, rows, close=close, **cfg)
            self.explore(rec, [schema, [list(r) for r in rows], cfg, close], schema, j, True, None)

    def job_patterns(self, rec, part, parts, full):
        x = [[(-INF, 2., EXC, EXC)], [(1.25, 3.75, INC, INC)], [(0., 1., INC, EXC), (3., 4.5, EXC, INC)], [(2.5, INF, INC, EXC)], [(2.5, 2.5, INC, INC)],
             [(1., 1., INC, INC)], [(0., .5, INC, INC)]]
        s = [frozenset('a'), frozenset('b')]
        i = [frozenset([0, 1]), frozenset([2, 3, 6]), frozenset([4])]
        es = [{}] + [{'x': a} for a in x] + [{'s': a} for a in s] + [{'i': a} for a in i] + \
             [{'x': a, 's': b} for a in x for b in s] + [{'x': a, 'i': b} for a in x for b in i] + [{'x': a, 'i': b, 's': c} for a in x for b in i for c in s]
        for k, rows in tr.patterns(part, parts):
            for ml in (1, 2):
                j = tr.fit('pat', rows, min_samples_leaf=ml)
                self.explore(rec, ['pat', k, ml], 'pat', j, None, es)

    def job_weights(self, rec, schema):
        done = 0
        for k, rows in tr.datasets(schema, 3, 3, 0, 6):
            j = tr.fit(schema, rows, min_samples_leaf=1)
            if len(j.leaves) < 2:
                continue
            done += 1
            for w in itertools.product([1., 1e-5, 1e-9, 0.], repeat=len(j.leaves)):
                if not any(w) or done > 8:
                    continue
                c = j.copy().multiply_by_leaf_prior(dict(zip(j.leaves, w)))
                self.explore(rec, [schema, [list(r) for r in rows], list(w)], schema, c, None, list(tr.assignments(schema, False, 2)))

    def job_pruned(self, rec, schema):
        """Leaves with several atoms and segments."""
        for k, rows in tr.datasets(schema, 2, 4, 0, 7):
            j = tr.fit(schema, rows, min_samples_leaf=1, close=k % 2 == 0)
            p = j.prune(0.)
            self.explore(rec, [schema, [list(r) for r in rows], 'pruned'], schema, p, True, None)


CHECK = Check()
