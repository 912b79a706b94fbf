"""C14: a conditioned model is the conditional distribution, and is itself a model."""
import itertools
import json
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from checks.c12 import Check as Base, CONFIGS
from checks.c13 import Check as C13


class Check(C13):
    pid = 'C14'
    technique = ('exhaustive enumeration of models, evidence and sequences of conditioning steps on the real code; every conditioned model is compared, leaf by leaf '
                 'and query by query, with the reference mixture conditioned by Bayes rule')
    note = 'Each conditioned model is also queried, conditioned again, stored, copied, printed and pruned; the original must stay as it was.'
    space = 'all multisets of up to 3 rows for nine variable schemas, deep pattern trees; evidence on up to two variables, all two-step sequences of an event alphabet'

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts, rich in [('xs', 3, 8, True), ('x', 3, 3, True), ('xy', 3, 8, False), ('xi', 3, 6, False), ('si', 3, 6, False),
                                          ('xsi', 3, 8, False), ('bx', 3, 4, True), ('zs', 3, 6, False), ('sx', 3, 4, False)]:
            if t:
                nmax, parts, rich = nmax + 1, parts * 6, True
            out += [['data', schema, nmax, k, parts, rich] for k in range(parts)]
            out += [['steps', schema, nmax, k, 3] for k in range(3)]
        out += [['patterns', k, 8, t] for k in range(8)]
        out += [['weights', s] for s in ('xs', 'si', 'xy')]
        return out

    def job_data(self, rec, schema, nmax, part, parts, rich):
        qs = list(tr.assignments(schema, False, 2, empty=False))
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            cfg = CONFIGS[(k // parts) % 2 if len(rows) > 2 else 0]
            close = (k // parts) % 5 != 0
            j = tr.fit(schema, rows, close=close, **cfg)
            es = list(self.evidence(schema, j, rich))
            if not rich:
                es = es[(k // parts) % 2::2]
            self.explore(rec, [schema, [list(r) for r in rows], cfg, close], schema, j, qs, es)

    def explore(self, rec, key, schema, j, qs, es):
        m = tr.RefModel(j)
        qs = qs or list(tr.assignments('xs' if schema == 'pat' else schema, False, 1, empty=False))
        for k, e in enumerate(es):
            case = [key, tr.show(e)]
            with rec.guard(case):
                self.one(rec, case, schema, j, m, e, qs, k)

    def one(self, rec, case, schema, j, m, e, qs, k):
        re_ = self.ref(j, e)
        rec.transitions += 1
        rec.validated += 1
        w = math.fsum(l.weight(re_) for l in m.leaves)
        if 0 < w <= 1e-12:
            return
        ev = self.query(j, e)
        if k % 3 == 1:
            ev = j.bind(ev)
        elif k % 3 == 2:
            ev = j.bind(ev).value_assignment()
        if w == 0:
            try:
                c = j.conditional_jpt(ev)
            except self.Unsat:
                c = None
            rec.outcome('refused')
            rec.check(c is None, 'impossible-evidence', case)
            rec.check(j.conditional_jpt(ev, fail_on_unsatisfiability=False) is None, 'impossible-evidence', case)
            return
        c = j.conditional_jpt(ev)
        ref = tr.condition(m, re_)
        self.same(rec, case, schema, c, ref, qs, k, w, priors=bool(e))
        return c, ref

    def same(self, rec, case, schema, c, ref, qs, k, w=1., priors=True):
        """A conditioned model against the conditioned reference."""
        tol = max(1e-7, 1e-14 / w)
        rec.outcome('%d leaves' % len(ref.leaves))
        rec.state((schema, [(l.idx, round(l.prior, 9)) for l in ref.leaves], case))
        rec.check(abs(math.fsum(l.prior for l in c.leaves.values()) - 1) < 1e-9, 'weights', case)
        # leaf by leaf (identified by their indices, which conditioning keeps)
        got = {i: l.prior for i, l in c.leaves.items()}
        want = {l.idx: l.prior for l in ref.leaves}
        if not rec.check(all(abs(got.get(i, 0) - want.get(i, 0)) <= tol for i in set(got) | set(want)), 'leaf-weights', case, lambda: (got, want)):
            return
        for v in c.variables:
            p = ref.posterior(v.name, {})
            d = c.priors[v] if priors else c.posterior([v])[v]
            if v.numeric:
                if dm.valid_cdf(d.cdf, rec, case, tol=tol):
                    dm.same_cdf(d.cdf, p, rec, case, 'prior', tol=tol)
                for l in ref.leaves:
                    if l.idx in c.leaves:
                        ld = c.leaves[l.idx].distributions[v]
                        if l.prior > 1e-9 and dm.valid_cdf(ld.cdf, rec, case, tol=tol):
                            dm.same_cdf(ld.cdf, l.dist[v.name], rec, case, 'leaf-distribution', tol=tol)
            else:
                rec.check(max(abs(a - b) for a, b in zip(d.probabilities, p)) <= tol, 'prior', case)
        for q in qs[k % 2::2]:
            rq = self.ref(c, q)
            r = c.infer(self.query(c, q))
            rec.transitions += 1
            rec.check(abs(r - ref.p(rq)) <= tol, 'query', case + [tr.show(q)], lambda: (r, ref.p(rq)))
        if k % 4 == 0:
            self.usable(rec, case, c, ref, qs, tol)

    def usable(self, rec, case, c, ref, qs, tol):
        """Stored, printed, copied, pruned and queried like any other model."""
        from jpt.trees import JPT
        str(c), repr(c), c.number_of_parameters(), c.depth()
        for l in c.leaves.values():
            l.format_path(), str(l)
        for n in c.innernodes.values():
            str(n)
        d = JPT.from_json(json.loads(json.dumps(c.to_json())))
        rec.check(d == c, 'json', case)
        rec.check(c.copy() == c, 'copy', case)
        p = c.prune(2.)
        rec.check(p == c, 'prune-nothing', case)
        p = c.prune(0.)
        rec.check(abs(math.fsum(l.prior for l in p.leaves.values()) - 1) < 1e-9, 'pruned-weights', case)
        for x in (d, p):
            q = qs[len(c.leaves) % len(qs)]
            r = x.infer(self.query(x, q))
            rec.check(abs(r - ref.p(self.ref(x, q))) <= tol, 'restored-query', case + [tr.show(q)], lambda: (r, ref.p(self.ref(x, q))))
        best, lik = c.mpe()
        rec.check(best and lik > 0, 'mpe', case)
        for n in c.variables:
            c.posterior([n])

    def negligible(self, m, r, e):
        """Evidence of a positive mass that is mere rounding: whether it is refused is not specified."""
        return 0 < math.fsum(l.weight(e) for l in m.leaves) < 1e-12

    def job_steps(self, rec, schema, nmax, part, parts):
        """Conditioning in two or three steps gives the model conditioned at once."""
        steps = list(tr.assignments(schema, False, 1, empty=False))
        for k, rows in tr.datasets(schema, 2, nmax, part, parts * 8):
            j = tr.fit(schema, rows, min_samples_leaf=1)
            m = tr.RefModel(j)
            before = m
            for e1 in steps:
                r1 = tr.condition(m, self.ref(j, e1))
                for e2 in steps:
                    case = [schema, [list(r) for r in rows], tr.show(e1), tr.show(e2)]
                    with rec.guard(case):
                        if r1 is None or self.negligible(m, r1, self.ref(j, e1)):
                            continue
                        c = j.conditional_jpt(self.query(j, e1))
                        e = self.ref(j, e2)
                        r2 = tr.condition(r1, e)
                        rec.transitions += 2
                        if r2 is not None and self.negligible(r1, r2, e):
                            continue
                        if r2 is None:
                            rec.check(c.conditional_jpt(self.query(j, e2), fail_on_unsatisfiability=False) is None, 'impossible-second', case)
                            rec.outcome('second step refused')
                            continue
                        c2 = c.conditional_jpt(self.query(j, e2))
                        self.same(rec, case, schema, c2, r2, steps, k)
                        both = {n: tr.event_to_api(self.iv, j.varnames[n], e1[n]) for n in e1}
                        for n in e2:
                            x = tr.event_to_api(self.iv, j.varnames[n], e2[n])
                            both[n] = both[n] & x if n in both else x
                        if any(n in e1 and tr.is_values(tr.meets(self.ref(j, e1)[n], e[n])) and not tr.is_values(e[n]) for n in e if isinstance(e[n], list)):
                            continue        # at once, this is evidence of single values, which counts with densities
                        c3 = j.conditional_jpt(both)
                        self.same(rec, case + ['at once'], schema, c3, r2, steps, k)
            rec.check(repr([(l.idx, l.prior) for l in tr.RefModel(j).leaves]) == repr([(l.idx, l.prior) for l in m.leaves]), 'original-changed', [schema, k])


CHECK = Check()
