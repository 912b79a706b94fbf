"""C18: impossible evidence and invalid queries are always reported."""
import itertools
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from .c12 import CONFIGS
from .c13 import Check as Base


class Check(Base):
    pid = 'C18'
    level = 'model_checking'
    technique = ('exhaustive enumeration of models and of evidence including events outside the support, in its gaps, on split points, empty events and never observed values; '
                 'every kind of query is put with both ways of reporting and compared with the probability of the evidence in the reference model; '
                 'exhaustive product of malformed assignments and query kinds')
    note = 'After each refused query the model must give its former answers.'
    space = 'all multisets of up to 3 rows of nine schemas, 64 pattern trees, re-weighted models; about 100 pieces of evidence each; 45 malformed assignments x 14 queries'
    assumptions = ['infer() reports impossible evidence by a ValueError, all other queries by an Unsatisfiability error',
                   'evidence of weight below 1e-12 is not considered', 'evidence made of single continuous values is weighted by its density where queries support that']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 6), ('x', 3, 3), ('xy', 3, 6), ('xi', 3, 4), ('si', 3, 4), ('xsi', 3, 6), ('bx', 3, 4), ('zs', 3, 5), ('sx', 3, 4)]:
            if t:
                nmax, parts = nmax + 1, parts * 5
            out += [['data', schema, nmax, k, parts, t] for k in range(parts)]
        out += [['patterns', k, 8 if not t else 32, t] for k in range(8 if not t else 32)]
        out += [['weights', s] for s in ('xs', 'si', 'xy')]
        out += [['pdf', s] for s in tr.SCHEMAS if s in ('xs', 'xi', 'si', 'xsi', 'bx', 'zs', 'xy')]
        out += [['invalid', s] for s in tr.SCHEMAS if s in ('xs', 'xi', 'si', 'xsi', 'bx', 'zs')]
        return out

    def evidence(self, schema, j, rich=True):
        yield from super().evidence(schema, j, rich)
        for n, kind, a in tr.SCHEMAS[schema]:
            if kind in ('num', 'scaled'):
                yield {n: [(a[-1], INF, EXC, EXC)]}
                yield {n: [(-INF, a[0], EXC, EXC)]}
                yield {n: [(1e300, 1e301, INC, INC)]}
                yield {n: []}
                yield {n: [(a[-1] + 3, a[-1] + 3, INC, INC)]}
                yield {n: [(-INF, INF, EXC, EXC)]}
            else:
                yield {n: frozenset()}

    def queries(self, j, api, q):
        """(kind, call with fail flag)"""
        names = [v.name for v in j.variables]
        out = [
            ('infer', lambda f: j.infer(dict(q), dict(api), f)),
            ('posterior', lambda f: j.posterior(None, dict(api), f)),
            ('posterior one', lambda f: j.posterior([names[0]], dict(api), f)),
            ('posterior reasons', lambda f: j.posterior(None, dict(api), f, report_inconsistencies=True)),
            ('expectation', lambda f: j.expectation(None, dict(api), f)),
            ('moment', lambda f: j.moment(1, None, dict(api) and j.bind(dict(api)), f)),
            ('mpe', lambda f: j.mpe(dict(api), f)),
            ('kmpe', lambda f: self.listed(j.kmpe(dict(api), f, k=2))),
            ('conditional', lambda f: j.conditional_jpt(dict(api), f)),
        ]
        return out

    def listed(self, it):
        return None if it is None else list(it) or None

    def posterior(self, rec, case, j, m, e, k):
        """(called by the exploration of C13 for every model and piece of evidence)"""
        from jpt.base.errors import Unsatisfiability
        ref = {n: tr.event_to_ref(j.varnames[n], ev) for n, ev in e.items()}
        api = {n: self.api(j.varnames[n], ev) for n, ev in e.items()}
        p, w = m.p(ref), math.fsum(l.weight(ref) for l in m.leaves)
        if 0 < p <= 1e-12 or 0 < w <= 1e-12:
            return
        q = {j.variables[-1].name: self.whole(j.variables[-1])}
        got = j.infer(dict(api))
        rec.transitions += 1
        rec.check(abs(got - p) <= 1e-9 + 1e-7 * p and (got == 0) == (p == 0), 'probability', case, lambda: (got, p))
        for i, (name, f) in enumerate(self.queries(j, api, q)):
            pos = (p if name == 'infer' else w) > 0
            if pos and w > 0 and (i + k) % 9 not in (0, 1, 5):
                continue
            for flag in (True, False) if k % 5 == 0 else (k % 2 == 0,):
                rec.transitions += 1
                rec.validated += 1
                try:
                    r = f(flag)
                    r = 'nothing' if r is None else 'answer'
                except (ValueError if name == 'infer' else Unsatisfiability) as x:
                    r = 'refused'
                    if isinstance(x, Unsatisfiability):
                        self.reasons(rec, case + [name], j, m, x, ref, name)
                rec.outcome('%s: %s' % (name, r))
                want = 'answer' if pos else 'refused' if flag else 'nothing'
                rec.check(r == want, 'reporting', case + [name, flag], lambda: (r, want, p, w))

    def reasons(self, rec, case, j, m, error, ref, name):
        """The reasons given are impossible themselves in one of the leaves."""
        rs = list(error.reasons)
        if name == 'posterior reasons':
            for lk, a in rs:
                rec.check(lk >= 0, 'reasons', case, lambda: rs)
                rec.check({v.name for v in a.keys()} <= set(ref), 'reasons', case, lambda: rs)
                bad = [l for l in m.leaves if all(l.weight({v.name: ref[v.name]}) < 1e-9 for v in a.keys())]
                rec.check(bad, 'reasons', case, lambda: rs)

    def whole(self, v):
        if v.numeric:
            return self.iv.ContinuousSet(-1e9, 1e9)
        return set(v.domain.labels.values()) if v.symbolic else set(range(v.domain.lmin, v.domain.lmax + 1))

    def api(self, v, ev):
        return self.iv.RealSet([]) if v.numeric and not ev else tr.event_to_api(self.iv, v, ev)

    def job_data(self, rec, schema, nmax, part, parts, full=False):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            n = k // parts
            if not full and len(rows) == nmax and n % 3 and len(tr.SCHEMAS[schema]) > 1:
                continue
            cfg = CONFIGS[n % 2 if len(rows) > 2 else 0]
            close = n % 3 != 0
            j = tr.fit(schema, rows, close=close, **cfg)
            before = self.answers(j)
            self.explore(rec, [schema, [list(r) for r in rows], cfg, close], schema, j, True, None)
            rec.check(self.answers(j) == before, 'unusable', [schema, [list(r) for r in rows]])

    def answers(self, j):
        return [j.infer({v.name: self.whole(v)}) for v in j.variables], [str(d.cdf) if v.numeric else list(d.probabilities) for v, d in j.posterior().items()], str(j.mpe())

    # ------------------------------------------------------------------------------------------------------------------
    def malformed(self, schema, j):
        from jpt.variables import LabelAssignment, ValueAssignment, SymbolicVariable, NumericVariable
        iv = self.iv
        other = tr.variables(schema)
        out = [('unknown name', {'nope': 1}), ('unknown key', {3: 1}), ('none key', {None: 1}),
               ('unknown variable', {NumericVariable('nope'): iv.ContinuousSet(0, 1)}),
               ('unknown among known', {j.variables[0].name: None, 'nope': 1})]
        foreign = LabelAssignment()
        for v, (n, kind, a) in zip(other, tr.SCHEMAS[schema]):
            foreign[v] = iv.ContinuousSet(a[0], a[1]) if v.numeric else {a[0]}
            one = LabelAssignment()
            one[v] = foreign[v]
            out.append(('foreign %s' % n, one))
            out.append(('foreign value %s' % n, one.value_assignment()))
            bad = ['wrong', object(), (0, 1), {'wrong'}] if v.numeric else [object(), (a[0],), 'wrong', {a[0], 'wrong'}, iv.ContinuousSet(0, 1)]
            if v.numeric:
                bad += [[0, 1, 2], [1, 0], [], [1], ['a', 'b'], {0.}, b'x', 1j]
            elif kind == 'int':
                lo, hi = v.domain.lmin, v.domain.lmax
                bad += [lo - 1, hi + 1, {lo, hi + 1}, [lo - 1, hi], .5, [0, 1, 2], 'x', float('nan')]
            else:
                bad += [['wrong'], [a[0], 'wrong'], frozenset([a[0]]), 99]
                if kind == 'sym':
                    bad += [0, {0}, [0], True]
            out += [('%s=%s' % (n, str(b) if type(b) is not object else 'object'), {n: b}) for b in bad]
        out.append(('all foreign', foreign))
        return out

    def job_pdf(self, rec, schema):
        """A density is defined at points only: whatever else is fixed, a region must not be accepted."""
        from jpt.base.intervals import ContinuousSet
        from jpt.variables import LabelAssignment, ValueAssignment
        for no, (k, rows) in enumerate(tr.datasets(schema, 3, 4, 1, 11)):
            if no > 2:
                break
            j = tr.fit(schema, rows, min_samples_leaf=1)
            key = [schema, [list(r) for r in rows]]
            choices = []
            for i, (n, kind, a) in enumerate(tr.SCHEMAS[schema]):
                x = rows[0][i]
                if kind in ('num', 'scaled'):
                    wide = [[a[0], a[-1]], ContinuousSet(a[0], a[-1]), ContinuousSet(a[0] - 2, a[0] - 1)]
                    one = [x, ContinuousSet(x, x)]
                else:
                    v = j.varnames[n]
                    labels = sorted(v.domain.labels.values(), key=str)
                    wide = [set(labels)] + ([set(labels[:2])] if len(labels) > 2 else []) if len(labels) > 1 else []
                    one = [x, {x}]
                choices.append([(n, o, False) for o in one] + [(n, w, True) for w in wide])
            for combo in itertools.product(*choices):
                for m in range(1, len(combo) + 1):
                    for part in itertools.permutations(combo, m):
                        b = {n: e for n, e, _ in part}
                        case = [key, {n: str(e) for n, e in b.items()}]
                        rec.tick(case)
                        rec.state((schema, no, tuple((n, str(e)) for n, e in b.items())))
                        rec.transitions += 1
                        rec.validated += 1
                        forms = {'bound': lambda: j.bind(b, allow_singular_values=True), 'labels': lambda: LabelAssignment(b.items(), variables=j.variables),
                                 'values': lambda: LabelAssignment(b.items(), variables=j.variables).value_assignment()}
                        for form, f in forms.items():
                            try:
                                q = f()
                            except (ValueError, TypeError, AttributeError):
                                continue
                            try:
                                r = j.pdf(q)
                                ok = True
                            except Exception as x:
                                r = repr(x)
                                ok = False
                            wide = any(w for _, _, w in part)
                            rec.outcome('pdf of a %s: %s' % ('region' if wide else 'point', ok))
                            rec.check(ok != wide, 'pdf-of-region' if wide else 'pdf-of-point', case + [form], lambda: r)

    def job_invalid(self, rec, schema):
        done = 0
        for k, rows in tr.datasets(schema, 3, 4, 1, 11):
            j = tr.fit(schema, rows, min_samples_leaf=1)
            done += 1
            if done > 6:
                break
            key = [schema, [list(r) for r in rows]]
            before = self.answers(j)
            good = j.bind({j.variables[0].name: self.whole(j.variables[0])})
            kinds = [
                ('query', lambda b, f: j.infer(b)),
                ('evidence', lambda b, f: j.infer(good, b, f)),
                ('both', lambda b, f: j.infer(b, b, f)),
                ('posterior', lambda b, f: j.posterior(None, b, f)),
                ('posterior of one', lambda b, f: j.posterior([j.variables[0]], b, f)),
                ('expectation', lambda b, f: j.expectation(None, b, f)),
                ('moment', lambda b, f: j.moment(1, None, b, f)),
                ('mpe', lambda b, f: j.mpe(b, f)),
                ('kmpe', lambda b, f: list(j.kmpe(b, f))),
                ('conditional', lambda b, f: j.conditional_jpt(b, f)),
                ('pdf', lambda b, f: j.pdf(j.bind(b, allow_singular_values=True) if isinstance(b, dict) else b)),
                ('reverse', lambda b, f: j.reverse(b) if isinstance(b, dict) else 1 / 0),
            ]
            for (name, b), (kind, f), flag in itertools.product(self.malformed(schema, j), kinds, (True, False)):
                case = [key, name, kind, flag]
                if kind == 'reverse' and ('unknown' in name or 'key' in name) or kind == 'pdf' and name == 'none key':
                    continue                         # several models may be asked at once
                rec.tick(case)
                rec.state((schema, k, name, kind, flag))
                rec.transitions += 1
                rec.validated += 1
                try:
                    r = f(b, flag)
                    ok = False
                except Exception as x:
                    r = type(x).__name__
                    ok = r != 'Unsatisfiability'
                rec.outcome('%s: %s' % (kind, r if ok else 'answered'))
                rec.check(ok, 'accepted', case, lambda: r)
            rec.check(self.answers(j) == before, 'unusable', key)
            for v in (None, ):
                a = j.infer({j.variables[0].name: None})
                rec.check(a == 1, 'none', key, lambda: a)


CHECK = Check()
