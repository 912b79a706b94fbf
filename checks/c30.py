"""C30: single-value evidence on a blurred variable stands for the interval of that much prior probability around it."""
import itertools
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC, Measure


class Check:
    pid = 'C30'
    level = 'model_checking'
    technique = ('exhaustive enumeration of small learned models, blur settings and evidence values on the real code; the interval that stands for a value is judged by the quantiles of the '
                 'prior measure, and every query with the value is compared with the same query with the interval')
    note = 'Scaled and unscaled variables, label and value space, values inside and outside the data, point masses and gaps, all kinds of queries, later queries unaffected.'
    space = 'all multisets of up to 4 rows (5 thorough) over two numeric alphabets, five blur widths, nine evidence values'
    assumptions = ['outside the observed range the interval is extrapolated and must contain the value; no other constraint is checked there']

    def jobs(self, tier):
        t = tier == 'thorough'
        return [['models', kind, k, 12 * (1 + 2 * t), t] for kind in ('num', 'scaled') for k in range(12 * (1 + 2 * t))]

    def run(self, job, rec):
        from jpt.base import intervals as iv
        from jpt import JPT
        from jpt.variables import NumericVariable, SymbolicVariable
        from jpt.distributions import NumericType, SymbolicType, Numeric
        self.iv, self.JPT = iv, JPT
        self.NV, self.SV, self.NT, self.ST, self.N = NumericVariable, SymbolicVariable, NumericType, SymbolicType, Numeric
        self.job_models(rec, *job[1:])

    def job_models(self, rec, kind, part, parts, t):
        alpha = [0., 1., 3., 4.]
        cells = list(itertools.product(alpha, 'ab'))
        no = -1
        for n in range(1, 5 + t):
            combos = list(itertools.combinations_with_replacement(cells, n))
            for k, rows in enumerate(combos):
                if n == 4 and k % (1 if t else 3) or n == 5 and k % 7:
                    continue
                no += 1
                if no % parts != part:
                    continue
                for b in (0, .05, .2, .5, 1.) if n < 4 or t else (.2, .5):
                    for leaf in (1, 2) if n > 1 else (1,):
                        case = {'kind': kind, 'rows': rows, 'blur': b, 'min_samples_leaf': leaf}
                        with rec.guard(case):
                            rec.state(case)
                            dom = self.NT('C30', alpha) if kind == 'scaled' else self.N
                            x = self.NV('x', dom, blur=b, precision=.001)
                            y = self.NV('y', precision=.001)
                            s = self.SV('s', self.ST('C30S', ['a', 'b']))
                            j = self.JPT([x, y, s], min_samples_leaf=leaf).fit(rows=[[u, u * .5 + (w == 'a'), w] for u, w in rows])
                            self.judge(rec, case, j, x, b, [u for u, _ in rows])

    def judge(self, rec, case, j, x, b, data):
        CS = self.iv.ContinuousSet
        m = Measure.of_cdf(j.priors[x].cdf)
        to = x.domain.label2value
        lo, hi = min(data), max(data)
        for v in (-1., 0., .25, 1., 2., 3., 3.5, 4., 6.):
            c = {**case, 'value': v}
            got = j.bind({'x': v})['x']
            rec.transitions += 1
            if not rec.check(isinstance(got, CS), 'interval', c, lambda: got):
                continue
            l, u = got.lower, got.upper
            eps = 1e-6
            if b == 0:
                rec.check((l, u) == (v, v), 'unblurred', c, lambda: got)
                continue
            rec.check(l - 1e-9 <= v <= u + 1e-9, 'contains', c, lambda: got)
            bl = j.bind({'x': v}, allow_singular_values=True)['x']
            rec.check(bl == v, 'singular', c, lambda: bl)
            w = j.bind({'x': float(to(v))}, space='values')['x']
            rec.check(abs(w.lower - to(l)) < 1e-7 and abs(w.upper - to(u)) < 1e-7, 'values', c, lambda: (w, got))
            r = j.bind({'x': CS(0, 1, INC, EXC), 'y': v, 's': 'a'})
            rec.check(tr.tup(r['x']) == (0, 1, INC, EXC) and (r['y'].lower, r['y'].upper) == (v, v), 'others', c, lambda: r)
            if lo <= v <= hi:
                F, L = lambda z: m.cdf(float(to(z))), lambda z: m.left(float(to(z)))
                q = F(v)
                bad = []
                if not L(l - eps) - 1e-4 <= max(q - b / 2, 0) <= F(l + eps) + 1e-4:
                    bad.append(('lower', l, L(l), max(q - b / 2, 0), F(l)))
                if not L(u - eps) - 1e-4 <= min(q + b / 2, 1) <= F(u + eps) + 1e-4:
                    bad.append(('upper', u, L(u), min(q + b / 2, 1), F(u)))
                rec.check(not bad, 'quantiles', c, lambda: (bad, got, j.priors[x].cdf.pfmt()))
            self.queries(rec, c, j, v, CS(l, u))
            rec.validated += 1

    def queries(self, rec, case, j, v, interval):
        """All kinds of queries with the value and with the interval."""
        def ask(f, *a):
            try:
                return f(*a)
            except Exception as e:
                return type(e).__name__
        asks = {
            'infer s': lambda e: j.infer({'s': 'a'}, e), 'infer y': lambda e: j.infer({'y': self.iv.ContinuousSet(.4, 1.7)}, e), 'infer x': lambda e: j.infer({'x': self.iv.ContinuousSet(.5, 3.2)}, e),
            'evidence as query': lambda e: j.infer(e, {'s': 'a'}), 'probability': lambda e: j.infer(e),
            'posterior': lambda e: [(v.name, list(map(float, d.probabilities)) if v.symbolic else dm.snapshot(d.cdf)) for v, d in j.posterior(evidence=e).items()],
            'expectation': lambda e: [(v.name, x) for v, x in j.expectation(['y', 'x'], e).items()],
            'conditional': lambda e: [(l.idx, l.prior) for l in j.conditional_jpt(j.bind(e)).leaves.values()],
            'mpe': lambda e: str(j.mpe(j.bind(e))),
        }
        for name, f in asks.items():
            a, b = ask(f, {'x': v}), ask(f, {'x': interval})
            rec.transitions += 1
            rec.check(close(a, b), 'query', {**case, 'query': name}, lambda: (a, b, interval))


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) < 1e-9 or math.isnan(a) and math.isnan(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(close, a, b))
    return a == b


CHECK = Check()
