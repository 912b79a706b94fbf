"""C12: probability queries against the mixture semantics computed from the leaves."""
import itertools
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC

CONFIGS = [dict(min_samples_leaf=1), dict(min_samples_leaf=2)]


class Check:
    pid = 'C12'
    level = 'model_checking'
    technique = ('exhaustive enumeration of models (all small data sets x hyper-parameters) and of all query/evidence pairs over an event '
                 'alphabet, answered by the real JPT.infer and by a mixture-of-products reference model read off the leaves')
    note = 'Also all ways of writing the same query, additivity over partitions, models with extreme leaf weights, and answers after conditioning.'
    space = 'all multisets of up to 3-4 rows for nine variable schemas, 64 deep pattern trees; all pairs of assignments to up to two variables'
    assumptions = ['evidence with probability below 1e-12 is not considered', 'the model is what its leaves state (regions, weights, distributions)']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts, rich in [('xs', 3, 8, True), ('x', 3, 2, True), ('xy', 3, 8, False), ('xi', 3, 6, False), ('si', 3, 6, False),
                                          ('xsi', 3, 8, False), ('bx', 3, 4, False), ('zs', 3, 6, True), ('sx', 3, 4, False)]:
            if t:
                nmax, rich, parts = nmax + 1, True, parts * 6
            out += [['data', schema, nmax, k, parts, rich] for k in range(parts)]
        out += [['patterns', k, 8 if not t else 32, t] for k in range(8 if not t else 32)]
        out += [['weights', s] for s in ('xs', 'si', 'xy')]
        out += [['writing', s] for s in ('xs', 'si', 'bx', 'zs', 'xi')]
        return out

    def run(self, job, rec):
        from jpt.base import intervals as iv
        from jpt.base.errors import Unsatisfiability
        self.iv, self.Unsat = iv, Unsatisfiability
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # --------------------------------------------------------------------------------------------
    def query(self, j, evs):
        return {n: tr.event_to_api(self.iv, j.varnames[n], e) for n, e in evs.items()}

    def ref(self, j, evs):
        return {n: tr.event_to_ref(j.varnames[n], e) for n, e in evs.items()}

    def compare(self, rec, case, j, m, q, e, pe=None):
        """One infer call against the reference."""
        rq, re_ = self.ref(j, q), self.ref(j, e)
        pe = m.p(re_) if pe is None else pe
        if 0 < pe <= 1e-12:
            return
        rec.transitions += 1
        rec.validated += 1
        if pe == 0:
            try:
                r = j.infer(self.query(j, q), self.query(j, e))
            except (ValueError, self.Unsat):
                r = None
            rec.outcome('refused')
            rec.check(r is None, 'impossible-evidence', case, lambda: r)
            return
        r = j.infer(self.query(j, q), self.query(j, e))
        want = m.p(m.joint(rq, re_)) / pe
        rec.outcome('0' if want == 0 else '1' if want >= 1 - 1e-12 else 'between')
        ok = isinstance(r, (int, float)) and abs(r - want) <= 1e-9 + 1e-7 * want + 1e-15 / pe and -1e-12 <= r <= 1 + 1e-9
        rec.check(ok, 'probability', case, lambda: (r, want, pe, str(j)))
        return r

    def explore(self, rec, key, schema, j, qs, es):
        m = tr.RefModel(j)
        rec.state((schema, [(l.prior, sorted((k, str(v)) for k, v in l.path.items())) for l in m.leaves]))
        rec.check(abs(math.fsum(l.prior for l in m.leaves) - 1) < 1e-9, 'priors', key)
        for e in es:
            re_ = self.ref(j, e)
            pe = m.p(re_)
            for q in qs if pe > 0 else qs[:3]:
                case = [key, tr.show(q), tr.show(e)]
                with rec.guard(case):
                    self.compare(rec, case, j, m, q, e, pe)

    def job_data(self, rec, schema, nmax, part, parts, rich):
        es = list(tr.assignments(schema, rich, 2))
        qs = es[1:]
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            cfg = CONFIGS[(k // parts) % 2 if len(rows) > 2 else 0]
            close = (k // parts) % 5 != 0
            j = tr.fit(schema, rows, close=close, **cfg)
            self.explore(rec, [schema, [list(r) for r in rows], cfg, close], schema, j, qs, es)

    def job_patterns(self, rec, part, parts, full):
        x = [[(-INF, 2., EXC, EXC)], [(1.25, 3.75, INC, INC)], [(0., 1., INC, EXC), (3., 4.5, EXC, INC)], [(2.5, INF, INC, EXC)]]
        s = [frozenset('a'), frozenset('b')]
        i = [frozenset([0, 1]), frozenset([2, 3, 6]), frozenset([4])]
        es = [{}] + [{'x': a} for a in x] + [{'s': a} for a in s] + [{'i': a} for a in i] + \
             [{'x': a, 's': b} for a in x for b in s] + [{'x': a, 'i': b} for a in x for b in i] + [{'x': a, 'i': b, 's': c} for a in x for b in i for c in s]
        for k, rows in tr.patterns(part, parts):
            j = tr.fit('pat', rows, min_samples_leaf=1 + k % 2)
            self.explore(rec, ['pat', k], 'pat', j, es[1:], es if full else es[::2])

    def job_weights(self, rec, schema):
        """Models whose leaves have extreme weights."""
        es = list(tr.assignments(schema, False, 2))
        done = 0
        for k, rows in tr.datasets(schema, 3, 3, 0, 6):
            j = tr.fit(schema, rows, min_samples_leaf=1)
            if len(j.leaves) < 2:
                continue
            done += 1
            for w in itertools.product([1., 1e-5, 1e-9, 0.], repeat=len(j.leaves)):
                if not any(w) or done > 12:
                    continue
                c = j.copy().multiply_by_leaf_prior(dict(zip(j.leaves, w)))
                self.explore(rec, [schema, [list(r) for r in rows], list(w)], schema, c, es[1:8], es[::3])

    def job_writing(self, rec, schema):
        """The answer does not depend on how the query is written."""
        from jpt.variables import LabelAssignment, ValueAssignment
        iv = self.iv
        es = list(tr.assignments(schema, True, 1, empty=False))
        for k, rows in tr.datasets(schema, 2, 3, 0, 9):
            j = tr.fit(schema, rows, min_samples_leaf=1)
            m = tr.RefModel(j)
            for q in es:
                for e in es[k % 3::3]:
                    if m.p(self.ref(j, e)) <= 1e-12:
                        continue
                    case = [schema, [list(r) for r in rows], tr.show(q), tr.show(e)]
                    with rec.guard(case):
                        want = self.compare(rec, case, j, m, q, e)
                        if want is None:
                            continue
                        for name, w in self.writings(j, q, LabelAssignment, ValueAssignment):
                            for name2, w2 in self.writings(j, e, LabelAssignment, ValueAssignment):
                                rec.transitions += 1
                                r = j.infer(w, w2)
                                rec.check(abs(r - want) < 1e-12, 'writing', case + [name, name2], lambda: (r, want))
                                rec.outcome('writing %s' % name)

    def writings(self, j, evs, LabelAssignment, ValueAssignment):
        iv = self.iv
        (n, e), = evs.items()
        v = j.varnames[n]
        api = tr.event_to_api(iv, v, e)
        out = [('name', {n: api}), ('variable', {v: api}), ('bound', j.bind({n: api})), ('keywords', j.bind(**{n: api})),
               ('label assignment', LabelAssignment([(v, api)])), ('value assignment', j.bind({n: api}).value_assignment())]
        if v.numeric:
            if len(e) == 1 and math.isfinite(e[0][0]) and math.isfinite(e[0][1]) and e[0][2] == e[0][3] == INC:
                if e[0][0] < e[0][1]:
                    out.append(('list', {n: [e[0][0], e[0][1]]}))
                else:
                    out += [('number', {n: e[0][0]}), ('number assigned', LabelAssignment([(v, e[0][0])]))]
            out.append(('parsed', {n: iv.RealSet([iv.ContinuousSet(*t) for t in e])}))
        else:
            out.append(('list', {n: list(api)}) if v.symbolic else ('set', {n: set(api)}))
            if len(api) == 1:
                x = next(iter(api))
                out += [('single', {n: x}), ('single assigned', LabelAssignment([(v, x)])), ('single bound', j.bind({n: x}))]
        return out


CHECK = Check()
