"""C16: most probable explanations are optimal, complete, correctly weighted and ordered."""
import itertools
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC, Measure
from checks.c12 import CONFIGS
from checks.c13 import Check as C13


def close(a, b, tol=1e-6):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def levels(d):
    """Likelihood levels of a reference distribution, most likely first: [(likelihood, sample points / values)]."""
    if isinstance(d, Measure):
        if d.atoms and not d.segs:
            return [(INF, sorted(d.atoms))]
        out = []
        for a, b, q in sorted(d.segs, key=lambda s: -s[2]):
            if out and close(out[-1][0], q):
                out[-1][1].append((a + b) / 2)
            else:
                out.append((q, [(a + b) / 2]))
        return out
    out = []
    for v, p in sorted(enumerate(d), key=lambda t: -t[1]):
        if p > 0:
            if out and out[-1][0] == p:
                out[-1][1].append(v)
            else:
                out.append((p, [v]))
    return out


def inside(s, x):
    """Sample points are midpoints of pieces or point masses; translation into labels and back may round."""
    if hasattr(s, 'contains_value'):
        return any(lo - 1e-9 * (1 + abs(x)) <= x <= hi + 1e-9 * (1 + abs(x)) for lo, hi, _, _ in tr.tuples(s))
    return x in s


class Check(C13):
    pid = 'C16'
    technique = ('exhaustive enumeration of models, evidence and k on the real code, and of all products of small distributions for the branch-and-bound solver; results '
                 'are compared with the full enumeration of all atomic states of the reference mixture')
    note = 'Order, completeness, multiplicity, likelihood and termination of the k-MPE enumeration; optimality, likelihood and all maximizers of the MPE.'
    space = 'all multisets of up to 3 rows for nine schemas, deep pattern trees, extreme leaf weights; evidence on up to two variables; every k; solver: up to 4 variables'

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 8), ('x', 4, 4), ('xy', 3, 8), ('xi', 3, 6), ('si', 3, 6), ('xsi', 3, 10), ('bx', 3, 4), ('zs', 3, 6), ('sx', 3, 4)]:
            if t:
                nmax, parts = nmax + 1, parts * 6
            out += [['data', schema, nmax, k, parts, t] for k in range(parts)]
        out += [['patterns', k, 8, t] for k in range(8)]
        out += [['weights', s] for s in ('xs', 'si', 'xy')]
        out += [['solver', n, k, 8] for n in ((1, 2, 3) if not t else (1, 2, 3, 4)) for k in range(8)]
        return out

    def job_data(self, rec, schema, nmax, part, parts, rich):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            cfg = CONFIGS[(k // parts) % 2 if len(rows) > 2 else 0]
            close_ = (k // parts) % 5 != 0
            j = tr.fit(schema, rows, close=close_, **cfg)
            es = list(self.evidence(schema, j, True))
            if not rich:
                es = es[:1] + es[1 + k % 6::6]
            self.explore(rec, [schema, [list(r) for r in rows], cfg, close_], schema, j, None, es)

    def job_patterns(self, rec, part, parts, full):
        es = list(tr.assignments('pat', False, 1))
        for k, rows in tr.patterns(part, parts):
            j = tr.fit('pat', rows, min_samples_leaf=1 + k % 2)
            self.explore(rec, ['pat', k], 'pat', j, None, es if full else es[:1] + es[1 + k % 9::9])

    def explore(self, rec, key, schema, j, qs, es):
        m = tr.RefModel(j)
        for k, e in enumerate(es):
            case = [key, tr.show(e)]
            with rec.guard(case):
                self.explain(rec, case, j, m, e, k)

    def explain(self, rec, case, j, m, e, k):
        re_ = self.ref(j, e)
        w = math.fsum(l.weight(re_) for l in m.leaves)
        rec.transitions += 2
        rec.validated += 1
        if 0 < w <= 1e-12:
            return
        ev = self.query(j, e)
        if k % 2:
            ev = j.bind(ev)
        if w == 0:
            for f in (j.mpe, lambda x: list(j.kmpe(x))):
                try:
                    r = f(ev)
                except self.Unsat:
                    r = None
                rec.check(r is None, 'impossible-evidence', case, lambda: r)
            rec.check(j.mpe(ev, fail_on_unsatisfiability=False) is None, 'impossible-evidence', case)
            rec.outcome('refused')
            return
        ref = tr.condition(m, re_)
        names = [v.name for v in j.variables]
        prior = {l.idx: l.prior for l in m.leaves}
        if any(l.prior * w <= 1e-12 * prior[l.idx] or any(isinstance(d, Measure) and any((b - a) * q < 1e-12 for a, b, q in d.segs) for d in l.dist.values())
               for l in ref.leaves):                       # leaves or pieces cut down to rounding noise
            rec.outcome('noise')
            return
        lv = {l.idx: {n: levels(l.dist[n]) for n in names} for l in ref.leaves}
        md = j.minimal_distances
        # -- MPE --------------------------------------------------------------------------------
        best = {}
        for l in ref.leaves:
            q = l.prior
            for v in j.variables:
                x = lv[l.idx][v.name][0][0]
                q *= md[v] if x == INF else x
            best[l.idx] = q
        top = max(best.values())
        states, lik = j.mpe(ev)
        rec.state((case, len(states)))
        rec.check(close(lik, top), 'mpe-likelihood', case, lambda: (lik, best, str(states)))
        cands = [l for l in ref.leaves if close(best[l.idx], top)]
        matched = []
        for st in states:
            val = st.value_assignment()
            hit = [l.idx for l in cands if all(self.matches(j.varnames[n], val[n], lv[l.idx][n][0]) for n in names)]
            rec.check(set(v.name for v in st.keys()) == set(names) and hit, 'mpe-state', case, lambda: (str(st), best))
            matched += hit
        # every leaf that attains the maximum contributes its state (ties up to rounding are decided by the leaves' own numbers)
        c = j.conditional_jpt(self.query(j, e)) if e else j
        own = {l.idx: l.mpe(md) for l in c.leaves.values()}
        hi = max(q for _, q in own.values())
        rec.check(len(states) == sum(q == hi for _, q in own.values()), 'mpe-complete', case, lambda: (len(states), [q for _, q in own.values()]))
        for l in cands:
            if own[l.idx][1] == hi:
                rec.check(l.idx in matched, 'mpe-missing', case, lambda: (l.idx, matched))
        # -- k-MPE ------------------------------------------------------------------------------
        want = []
        for l in ref.leaves:
            for combo in itertools.product(*[lv[l.idx][n] for n in names]):
                want.append((l.prior * math.prod(x for x, _ in combo), l.idx, combo))
        n = sum(math.prod(len(l.distributions[v].k_mpe()) for v in j.variables) for l in c.leaves.values() if l.prior > 0)
        got = []
        for st, q in j.kmpe(ev):
            got.append((st, q))
            if len(got) > n + 5:
                break
        if not rec.check(len(got) == n, 'kmpe-count', case, lambda: (len(got), n, len(want))):
            return
        rec.outcome('%d states' % min(n, 20))
        rec.check(all(a[1] >= b[1] * (1 - 1e-9) for a, b in zip(got, got[1:])), 'kmpe-order', case, lambda: [q for _, q in got])
        # every atomic state of the reference appears, with its likelihood; equal levels may be split by rounding
        todo = list(want)
        for st, q in got:
            val = st.value_assignment()
            hit = [w for w in want if close(q, w[0], 1e-5) and all(self.touches(j.varnames[x], val[x], cl) for x, cl in zip(names, w[2]))]
            if not rec.check(hit, 'kmpe-state', case, lambda: (str(st), q, want)):
                return
            for w_ in hit:
                if w_ in todo:
                    todo.remove(w_)
                    break
        rec.check(not todo, 'kmpe-missing', case, lambda: (todo, [str(s) for s, _ in got]))
        if len({(q, str(s)) for s, q in got}) < len(got):
            rec.outcome('same state in several leaves')
        kk = (1, 2, len(got), len(got) + 2)[k % 4]
        pre = list(j.kmpe(ev, k=kk))
        rec.check([q for _, q in pre] == [q for _, q in got[:kk]] and len(pre) == min(kk, len(got)), 'kmpe-k', case + [kk], lambda: (len(pre), kk))

    @staticmethod
    def matches(var, state, level):
        """The state is exactly the given likelihood level (of the sample points)."""
        return all(inside(state, x) for x in level[1]) and (var.numeric or set(state) == set(level[1])) if not var.numeric \
            else any(inside(state, x) for x in level[1])

    @staticmethod
    def touches(var, state, level):
        return any(inside(state, x) for x in level[1]) if var.numeric else {int(x) for x in state} == set(level[1])

    # ---- the solver ------------------------------------------------------------------------------
    def job_solver(self, rec, n, part, parts):
        import numpy as np
        from jpt.inference.mpe import MPESolver
        from jpt.distributions import Numeric, SymbolicType, IntegerType
        from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable, VariableMap
        S2, S3, I3 = SymbolicType('S2', ['a', 'b']), SymbolicType('S3', ['a', 'b', 'c']), IntegerType('I3', 1, 3)
        pool = []
        for p in [(.5, .5), (.7, .3), (1., 0.), (.3, .7), (1 - 1e-12, 1e-12)]:
            pool.append(('sym', p, lambda nm: SymbolicVariable(nm, S2), S2))
        for p in [(.2, .3, .5), (.25, .25, .5), (.6, 0., .4), (1 / 3, 1 / 3, 1 / 3)]:
            pool.append(('sym', p, lambda nm: SymbolicVariable(nm, S3), S3))
        for p in [(.2, .3, .5), (.1, .1, .8), (0., 1., 0.)]:
            pool.append(('int', p, lambda nm: IntegerVariable(nm, I3), I3))
        for data in [(0., 1.), (0., 1., 4.), (2., 2.), (0., 1., 1.5, 5.), (0., 100., 1e4)]:
            pool.append(('num', data, lambda nm: NumericVariable(nm), None))
        if n == 4:
            pool = pool[1:4] + pool[5:8] + pool[10:11] + pool[12:16]
        for i, combo in enumerate(itertools.combinations(pool, n) if n > 2 else itertools.product(pool, repeat=n)):
            if i % parts != part:
                continue
            case = ['solver', [c[:2] for c in combo]]
            with rec.guard(case):
                vs = [c[2]('v%d' % q) for q, c in enumerate(combo)]
                ds = {}
                for v, (kind, p, _, T) in zip(vs, combo):
                    if kind == 'num':
                        ds[v] = Numeric(precision=.001)._fit(np.array([[x] for x in p]), col=0)
                    else:
                        ds[v] = T().set(list(p))
                dists = VariableMap(ds)
                lv = [d._k_mpe() for d in ds.values()]
                want = sorted((math.prod(q for _, q in c) for c in itertools.product(*lv)), reverse=True)
                for div in (None, max([q for l, (k_, *_) in zip(lv, combo) if k_ == 'num' for _, q in l if q != INF], default=1) * 3):
                    got = []
                    for a, q in MPESolver(dists, likelihood_divisor=div).solve():
                        got.append((a, q))
                        if len(got) > len(want) + 5:
                            break
                    rec.transitions += len(got)
                    rec.validated += 1
                    rec.state((case, len(got)))
                    if not rec.check(len(got) == len(want), 'solver-count', case, lambda: (len(got), len(want))):
                        continue
                    rec.check(all(close(a[1], b, 1e-9) for a, b in zip(got, want)), 'solver-order', case, lambda: ([q for _, q in got], want))
                    keys = {tuple(str(sorted(a[v], key=str)) if not v.numeric else str(a[v]) for v in vs) for a, _ in got}
                    rec.check(len(keys) == len(want), 'solver-duplicates', case, lambda: (len(keys), len(want)))
                    for a, q in got:
                        lik = 1.
                        for v, l in zip(vs, lv):
                            m = [y for s, y in l if (s == a[v] if v.numeric else set(s) == set(a[v]))]
                            lik = lik * m[0] if m else None
                            if lik is None:
                                break
                        rec.check(lik is not None and close(lik, q, 1e-9), 'solver-likelihood', case, lambda: (str(a), q, lik))
                for k in range(1, len(want) + 2):
                    pre = list(MPESolver(dists).solve(k=k))
                    rec.transitions += 1
                    rec.check(len(pre) == min(k, len(want)) and all(close(a[1], b, 1e-9) for a, b in zip(pre, want)), 'solver-k', case + [k])


CHECK = Check()
