"""C19: densities, likelihoods and leaf assignment describe the same model."""
import itertools
import math

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from .c12 import CONFIGS

INNER_REL = 1e-6


class Check:
    pid = 'C19'
    level = 'model_checking'
    technique = ('exhaustive enumeration of models and of every world on a grid of data values, breakpoints, split points, their neighbouring floating point numbers and '
                 'outside values; density, row likelihood, leaf assignment and applicability of the real model against a hand computation from the leaves')
    note = 'Worlds are asked one by one, in batches, in any container and row order; models include pruned, conditioned, copied and re-weighted ones.'
    space = 'all multisets of up to 3-4 rows of nine schemas and 64 pattern trees; up to several hundred worlds and 60 pieces of evidence per model'
    assumptions = ['the density of a point mass is infinite; the row likelihood replaces it by two over the minimal distance of the data, as documented']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 6), ('x', 3, 3), ('xy', 3, 6), ('xi', 3, 4), ('si', 3, 4), ('xsi', 3, 6), ('bx', 3, 4), ('zs', 3, 5), ('sx', 3, 4)]:
            if t:
                nmax, parts = nmax + 1, parts * 5
            out += [['data', schema, nmax, k, parts, t] for k in range(parts)]
        out += [['patterns', k, 8 if not t else 32] for k in range(8 if not t else 32)]
        out += [['edited', s, k] for s in ('xs', 'xy', 'si', 'zs') for k in range(2)]
        return out

    def run(self, job, rec):
        from jpt.base import intervals as iv
        self.iv = iv
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def axis(self, j, v, rich, split=True):
        """Label-space values of a variable to be explored."""
        if not v.numeric:
            return list(v.domain.labels.values()) if v.symbolic else list(range(v.domain.lmin, v.domain.lmax + 1))
        xs, cuts = set(), set()
        for l in j.leaves.values():
            for i in l.distributions[v].cdf.intervals:
                xs |= {float(i.lower), float(i.upper)}
            for w, p in l.path.items():
                if w is v or w.name == v.name:
                    cuts |= {c for t in tr.tuples(p) for c in t[:2]}
        xs = sorted(x for x in xs if math.isfinite(x))
        cuts = sorted(c for c in cuts if math.isfinite(c))
        out = set(cuts)
        for c in cuts:
            out |= {math.nextafter(c, -INF), math.nextafter(c, INF)} if rich else {math.nextafter(c, -INF)}
        out |= set(xs if rich else xs[:1] + xs[-1:])
        out |= {(a + b) / 2 for a, b in zip(xs, xs[1:]) if b - a > 1e-6}
        out |= {xs[0] - 1., xs[-1] + 1.} if rich else {xs[-1] + 1.}
        f = v.domain.labels
        return sorted({float(f[x]) for x in out})

    def densities(self, j, m, world):
        """(leaf the world belongs to, density by hand, row likelihood by hand)"""
        inside = [l for l in m.leaves if l.contains({v.name: tr.value_of(v, world[v.name]) for v in j.variables})]
        if len(inside) != 1:
            return inside, None, None
        leaf = j.leaves[inside[0].idx]
        d = r = leaf.prior
        for v in j.variables:
            x = tr.value_of(v, world[v.name])
            if v.numeric:
                p = leaf.distributions[v].pdf.eval(float(x))
                q = 2. / j.minimal_distances[v] if math.isinf(p) else p
            else:
                p = q = float(leaf.distributions[v].probabilities[int(x)])
            d = 0 if p == 0 or d == 0 else d * p
            r *= q
        return inside, d, r

    def explore(self, rec, key, schema, j, rich=True, rows=(), learned=True):
        import numpy as np
        import pandas as pd
        m = tr.RefModel(j)
        names = [v.name for v in j.variables]
        rec.state((schema, [(l.prior, sorted((k, str(v)) for k, v in l.path.items())) for l in m.leaves]))
        axes = [self.axis(j, v, rich and len(names) < 3) for v in j.variables]
        worlds = [dict(zip(names, w)) for w in itertools.product(*axes)]
        if len(worlds) > 700:
            worlds = worlds[::len(worlds) // 700 + 1]
        worlds += [dict(zip(names, r)) for r in rows]
        wants, ok = [], True
        for w in worlds:
            case = [key, [w[n] for n in names]]
            with rec.guard(case):
                rec.transitions += 4
                rec.validated += 4
                inside, d, r = self.densities(j, m, w)
                wants.append((inside, d, r))
                if not rec.check(len(inside) == 1, 'regions', case, lambda: [l.idx for l in inside]):
                    continue
                rec.outcome('density %s' % ('0' if d == 0 else 'infinite' if math.isinf(d) else 'positive'))
                q = j.bind(dict(w), allow_singular_values=True)
                got = j.pdf(q)
                rec.check(self.near(got, d), 'pdf', case, lambda: (got, d))
                self.inner(rec, case, j, m, w, inside[0], got)
                row = [[w[n] for n in names]]
                got = j.likelihood(row)
                rec.check(len(got) == 1 and self.near(got[0], r), 'likelihood', case, lambda: (got, r))
                enc = j.encode(np.array(row, dtype=object))
                rec.check(list(enc) == [inside[0].idx], 'encode', case, lambda: (list(enc), inside[0].idx))
                leaves = [l.idx for l in j.apply({n: tr_set(self.iv, j.varnames[n], w[n]) for n in names})]
                rec.check(leaves == [inside[0].idx], 'apply', case, lambda: (leaves, inside[0].idx))
                leaves = [l.idx for l in j.apply(q)]
                rec.check(leaves == [inside[0].idx], 'apply-scalars', case, lambda: (leaves, inside[0].idx))
        if len(wants) != len(worlds) or any(r is None for _, _, r in wants):
            return
        # batches, containers and row orders
        table = [[w[n] for n in names] for w in worlds]
        lik = [r for _, _, r in wants]
        ids = [i[0].idx for i, _, _ in wants]
        with rec.guard([key, 'batch']):
            rec.transitions += 6
            frame = pd.DataFrame(table, columns=names)
            arr = np.array(table, dtype=object)
            for name, t in (('list', table), ('array', arr), ('frame', frame)):
                got = j.likelihood(t)
                rec.check(len(got) == len(lik) and all(map(self.near, got, lik)), 'batch-likelihood', [key, name], lambda: [(w, a, b) for w, a, b in zip(table, got, lik) if not self.near(a, b)][:5])
                if name != 'list':
                    got = list(j.encode(t))
                    rec.check(got == ids, 'batch-encode', [key, name], lambda: [(w, a, b) for w, a, b in zip(table, got, ids) if a != b][:5])
            got = j.likelihood(table[::-1])
            rec.check(all(map(self.near, got, lik[::-1])), 'reversed-likelihood', [key])
            perm = frame[names[::-1]]
            try:
                got = j.likelihood(perm)
            except ValueError:                        # the order of columns is checked
                got = lik
            rec.check(all(map(self.near, got, lik)), 'permuted-columns', [key], lambda: [(w, a, b) for w, a, b in zip(table, got, lik) if not self.near(a, b)][:5])
            md = {v: .5 for v in j.variables if v.numeric}
            if md:
                from jpt.variables import VariableMap
                got = j.likelihood(table, dirac_scaling=3., min_distances=VariableMap(md.items()))
                want = [self.scaled(j, w, i[0], 3., .5) for w, (i, _, _) in zip(worlds, wants)]
                rec.check(all(map(self.near, got, want)), 'given-distances', [key], lambda: [(w, a, b) for w, a, b in zip(table, got, want) if not self.near(a, b)][:5])
        for r in rows if learned else ():
            with rec.guard([key, list(r)]):
                got = j.likelihood([list(r)])
                rec.check(got[0] > 0, 'training-row', [key, list(r)], lambda: (got, str(j)))
                got = j.pdf(j.bind(dict(zip(names, r)), allow_singular_values=True))
                rec.check(got > 0, 'training-row-density', [key, list(r)], lambda: (got, str(j)))
        self.evidence(rec, key, schema, j, m)

    def scaled(self, j, w, leaf, scaling, dist):
        l = j.leaves[leaf.idx]
        r = l.prior
        for v in j.variables:
            x = tr.value_of(v, w[v.name])
            p = l.distributions[v].pdf.eval(float(x)) if v.numeric else float(l.distributions[v].probabilities[int(x)])
            r *= scaling / dist if math.isinf(p) else p
        return r

    def inner(self, rec, case, j, m, w, leaf, got):
        """Away from breakpoints the density is the limit of probabilities over lengths."""
        want = leaf.prior
        for v in j.variables:
            x, d = float(tr.value_of(v, w[v.name])), leaf.dist[v.name]
            if isinstance(d, dm.Measure):
                if any(abs(x - p) < 1e-6 for p in d.points()):
                    return
                want *= d.density(x)
            else:
                want *= d[int(x)]
        rec.outcome('inner %s' % ('zero' if want == 0 else 'positive'))
        rec.check(abs(got - want) <= INNER_REL * (abs(want) + 1e-9), 'density-of-mass', case, lambda: (got, want))

    def near(self, a, b):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-15

    def evidence(self, rec, key, schema, j, m):
        """Leaves applicable to evidence; leaves matching a query with some confidence."""
        for e in tr.assignments(schema, True, 2):
            case = [key, tr.show(e)]
            with rec.guard(case):
                rec.transitions += 1
                ref = {n: tr.event_to_ref(j.varnames[n], ev) for n, ev in e.items()}
                api = {n: tr.event_to_api(self.iv, j.varnames[n], ev) for n, ev in e.items()}
                want = sorted(l.idx for l in m.leaves if l.meets(ref))
                got = sorted(l.idx for l in j.apply(dict(api)))
                rec.check(got == want, 'applicable', case, lambda: (got, want))
                rec.outcome('%d of %d leaves' % (len(want), len(m.leaves)) if len(m.leaves) < 4 else 'many leaves')
                if not e:
                    continue
                ps = {l.idx: min(l.p1(n, ev) for n, ev in ref.items()) for l in m.leaves}
                for c in (.05, .4, .99):
                    if any(abs(p - c) < 1e-9 for p in ps.values()):
                        continue
                    got = j.reverse(dict(api), c)
                    want = sorted(i for i, p in ps.items() if p >= c)
                    rec.check(sorted(l.idx for _, l in got) == want, 'reverse', case + [c], lambda: (got, want, ps))
                    for conf, l in got:
                        r = [rl for rl in m.leaves if rl.idx == l.idx][0]
                        for n, ev in ref.items():
                            rec.check(abs(conf[j.varnames[n]] - r.p1(n, ev)) < 1e-9, 'confidence', case + [c], lambda: (conf, r.p1(n, ev)))
                    sums = [sum(conf.values()) for conf, _ in got]
                    rec.check(all(a >= b - 1e-12 for a, b in zip(sums, sums[1:])), 'reverse-order', case + [c], lambda: sums)

    # ------------------------------------------------------------------------------------------------------------------
    def job_data(self, rec, schema, nmax, part, parts, full):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            n = k // parts
            if not full and len(rows) == nmax and n % 3 and schema not in ('x', 'sx'):
                continue
            cfg = CONFIGS[n % 2 if len(rows) > 2 else 0]
            close = n % 5 != 0
            j = tr.fit(schema, rows, close=close, **cfg)
            self.explore(rec, [schema, [list(r) for r in rows], cfg, close], schema, j, True, rows)

    def job_patterns(self, rec, part, parts):
        for k, rows in tr.patterns(part, parts):
            j = tr.fit('pat', rows, min_samples_leaf=1 + k % 2, close=k % 3 > 0)
            self.explore(rec, ['pat', k], 'pat', j, False, rows)

    def job_edited(self, rec, schema, part):
        for k, rows in tr.datasets(schema, 2, 3, part, 8):
            key = [schema, [list(r) for r in rows]]
            j = tr.fit(schema, rows, min_samples_leaf=1, close=k % 3 > 0)
            self.explore(rec, key + ['pruned'], schema, j.prune(0.), False, rows, False)   # merged point masses have no density
            c = j.copy()
            self.explore(rec, key + ['copied'], schema, c, False, rows)
            if len(j.leaves) > 1:
                c.multiply_by_leaf_prior({i: .5 + n for n, i in enumerate(c.leaves)})
                self.explore(rec, key + ['weighted'], schema, c, False, rows)
            for n, e in enumerate(tr.assignments(schema, False, 1, empty=False)):
                if (n + k) % 3:
                    continue
                c = j.conditional_jpt({n: tr.event_to_api(self.iv, j.varnames[n], ev) for n, ev in e.items()}, fail_on_unsatisfiability=False)
                if c is not None:
                    self.explore_conditional(rec, key + [tr.show(e)], schema, j, c)

    def explore_conditional(self, rec, key, schema, j, c):
        """Worlds inside the regions of a conditioned model."""
        m = tr.RefModel(c)
        names = [v.name for v in c.variables]
        rec.state(('conditional', [(l.prior, str(l.path)) for l in m.leaves]))
        for w in itertools.product(*[self.axis(j, v, False) for v in j.variables]):
            w = dict(zip(names, w))
            inside, d, r = self.densities(c, m, w)
            if len(inside) != 1:
                continue
            case = [key, list(w.values())]
            with rec.guard(case):
                rec.transitions += 2
                got = c.pdf(c.bind(dict(w), allow_singular_values=True))
                rec.check(self.near(got, d), 'pdf-conditional', case, lambda: (got, d))
                got = c.likelihood([list(w.values())])
                rec.check(self.near(got[0], r), 'likelihood-conditional', case, lambda: (got, r))


def tr_set(iv, v, x):
    return iv.ContinuousSet(x, x) if v.numeric else {x}


CHECK = Check()
