"""C22: sequence models give the exact marginals of the chain they encode."""
import itertools
import json
import math
from fractions import Fraction

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC, Measure

# columns of the sequences: (name, kind, alphabet)
SEQ = {
    'x': [('x', 'num', [0., 1., 2.])],
    's': [('s', 'sym', ['b', 'a', 'c'])],
    'xs': [('x', 'num', [0., 1.]), ('s', 'sym', ['a', 'b'])],
    'i': [('i', 'int', [0, 1, 2])],
    'si': [('s', 'sym', ['a', 'b']), ('i', 'int', [0, 1])],
}


class Check:
    pid = 'C22'
    level = 'model_checking'
    technique = ('exhaustive enumeration of training sequences and evidence sequences on the real code; leaf weights, distributions and transition frequencies are recounted by hand, and '
                 'marginals are compared with a sum over all leaf sequences (a forward-backward recursion for long ones)')
    note = 'One factor per step (leaf probabilities given the evidence of the step) and one per transition (observed leaf-to-leaf frequencies), as documented.'
    space = ('all single sequences of length 3-5 and pairs of sequences over five column sets; template trees with targets, minimal leaf sizes, 2-3 joint steps; all evidence sequences '
             'up to length 3, periodic ones up to length 130')
    assumptions = ['sequences are at least as long as the number of jointly modelled time steps']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, n, parts in [('x', 5, 8), ('s', 5, 8), ('xs', 3, 6), ('i', 5, 8), ('si', 3, 6)]:
            parts = parts * 4 if t else parts
            out += [['single', schema, n + t, k, parts, t] for k in range(parts)]
            out += [['pairs', schema, k, 4, t] for k in range(4)]
        out += [['long', k, 9, t] for k in range(9)]
        out += [['many', k, 4, t] for k in range(4)]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.base import intervals as iv
        from jpt.base.errors import Unsatisfiability
        from jpt.sequential_trees import SequentialJPT
        from jpt.trees import JPT
        from jpt.variables import VariableMap
        self.np, self.iv, self.Unsat, self.SequentialJPT, self.JPT, self.VariableMap = np, iv, Unsatisfiability, SequentialJPT, JPT, VariableMap
        for k, v in SEQ.items():
            tr.SCHEMAS['seq' + k] = v
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def table(self, schema, rows):
        kinds = {k for _, k, _ in SEQ[schema]}
        return self.np.array([list(r) for r in rows], dtype=object if 'sym' in kinds else None)

    def model(self, schema, seqs, timesteps=2, **kw):
        vs = tr.variables('seq' + schema)
        j = self.JPT(vs, **kw)
        s = self.SequentialJPT(j)
        s.fit([self.table(schema, q) for q in seqs], timesteps)
        return s

    def windows(self, seqs, timesteps):
        return [q[i:i + timesteps] for q in seqs for i in range(len(q) - timesteps + 1)]

    def leaf_of(self, m, vs, row):
        w = {v.name: tr.value_of(v, x) for v, x in zip(vs, row)}
        return [l.idx for l in m.leaves if l.contains(w)]

    def learned(self, rec, case, schema, s, seqs, timesteps):
        """Leaf weights, leaf distributions, transition frequencies."""
        j = s.template_tree
        vs = list(j.variables)
        m = tr.RefModel(j)
        wins = self.windows(seqs, timesteps)
        ids = [l.idx for l in m.leaves]
        ok = rec.check(abs(math.fsum(l.prior for l in m.leaves) - 1) < 1e-9, 'initial-weights', case, lambda: [l.prior for l in m.leaves])
        ok &= rec.check(s.transition_model.shape == (len(ids), len(ids)), 'transition-shape', case, lambda: (s.transition_model, ids))
        for row in {r for q in seqs for r in q}:
            ok &= rec.check(len(self.leaf_of(m, vs, row)) == 1, 'regions', case, lambda: (row, self.leaf_of(m, vs, row)))
        if not ok:
            return None
        at = lambda r: self.leaf_of(m, vs, r)[0]
        n = len(wins)
        for l in m.leaves:
            mine = [w[0] for w in wins if at(w[0]) == l.idx]
            ok &= rec.check(abs(l.prior - len(mine) / n) < 1e-9, 'leaf-weight', case, lambda: (l.idx, l.prior, len(mine), n))
            for k, v in enumerate(vs):
                d = l.dist[v.name]
                if not v.numeric and mine:
                    for x in range(len(d)):
                        want = sum(int(tr.value_of(v, r[k])) == x for r in mine) / len(mine)
                        ok &= rec.check(abs(d[x] - want) < 1e-9, 'leaf-distribution', case, lambda: (l.idx, v.name, d, want))
                elif mine:
                    lo, hi = min(r[k] for r in mine), max(r[k] for r in mine)
                    p = d.p((lo - 1e-9, hi + 1e-9, INC, INC))
                    ok &= rec.check(p > 0 and abs(d.total() - 1) < 1e-6, 'leaf-distribution', case, lambda: (l.idx, v.name, d.segs, d.atoms))
        counts, total = {}, 0
        for q in seqs:
            for a, b in zip(q, q[1:]):
                counts[at(a), at(b)] = counts.get((at(a), at(b)), 0) + 1
                total += 1
        for i, a in enumerate(ids):
            for k, b in enumerate(ids):
                want = counts.get((a, b), 0) / total
                ok &= rec.check(abs(s.transition_model[i][k] - want) < 1e-12, 'transition', case, lambda: (a, b, s.transition_model.tolist(), want, ids))
        rec.validated += 1
        rec.outcome('%d leaves' % len(ids))
        return (m, ids, {(a, b): Fraction(c, total) for (a, b), c in counts.items()}) if ok else None

    def marginals(self, m, ids, T, steps, brute):
        """Exact leaf marginals; None if the evidence is impossible.  steps: reference evidence per time step."""
        phi = []
        for e in steps:
            w = [Fraction(l.weight(e)) for l in m.leaves]
            if not sum(w):
                return None
            phi.append([x / sum(w) for x in w])
        n, L = len(steps), len(ids)
        t = [[T.get((a, b), Fraction(0)) for b in ids] for a in ids]
        if brute:
            out = [[Fraction(0)] * L for _ in range(n)]
            for path in itertools.product(range(L), repeat=n):
                w = Fraction(1)
                for k, l in enumerate(path):
                    w *= phi[k][l]
                    if k:
                        w *= t[path[k - 1]][l]
                    if not w:
                        break
                if w:
                    for k, l in enumerate(path):
                        out[k][l] += w
            z = sum(out[0])
            return [[x / z for x in o] for o in out] if z else None
        t = [[float(x) for x in r] for r in t]
        phi = [[float(x) for x in r] for r in phi]
        norm = lambda v: [x / sum(v) for x in v] if sum(v) else None
        f = [norm(phi[0])]
        for k in range(1, n):
            f.append(norm([phi[k][b] * sum(f[-1][a] * t[a][b] for a in range(L)) for b in range(L)]))
            if f[-1] is None:
                return None
        b = [[1.] * L]
        for k in range(n - 1, 0, -1):
            b.append(norm([sum(t[a][c] * phi[k][c] * b[-1][c] for c in range(L)) for a in range(L)]))
        b.reverse()
        return [norm([x * y for x, y in zip(p, q)]) for p, q in zip(f, b)]

    def query(self, rec, case, schema, s, learned, evidence, form=0):
        """One evidence sequence (label-space events per step)."""
        m, ids, T = learned
        j = s.template_tree
        n = len(evidence)
        ref = [{v: tr.event_to_ref(j.varnames[v], e) for v, e in ev.items()} for ev in evidence]
        want = self.marginals(m, ids, T, ref, len(ids) ** n <= 300)
        api = [{v: tr.event_to_api(self.iv, j.varnames[v], e) for v, e in ev.items()} for ev in evidence]
        if form == 1:
            api = [j.bind(a) for a in api]
        elif form == 2:
            api = [j.bind(a).value_assignment() for a in api]
        elif form == 3:
            api = [a or None for a in api]
        rec.transitions += 1
        rec.validated += 1
        before = str(j), s.transition_model.tolist()
        try:
            got = s.independent_marginals(api)
        except self.Unsat:
            got = None
        rec.outcome('impossible' if want is None else 'possible')
        rec.check((str(j), s.transition_model.tolist()) == before, 'model-changed', case)
        if want is None:
            return rec.check(got is None, 'impossible-evidence', case)
        if not rec.check(got is not None and len(got) == n, 'refused', case, lambda: got):
            return False
        for t, (tree, w) in enumerate(zip(got, want)):
            p = {i: tree.leaves[i].prior if i in tree.leaves else 0. for i in ids}
            if not rec.check(all(abs(p[i] - float(x)) < 1e-7 for i, x in zip(ids, w)) and set(tree.leaves) <= set(ids), 'leaf-marginal', case + [t], lambda: (p, dict(zip(ids, map(float, w))))):
                return False
            rec.check(abs(math.fsum(l.prior for l in tree.leaves.values()) - 1) < 1e-9, 'weights', case + [t])
            if n > 12 and t not in (0, 9, 10, n - 1):
                continue
            post = tree.posterior()
            for v in j.variables:
                ds = [l.restricted(v.name, ref[t][v.name]) if v.name in ref[t] else l.dist[v.name] for l, x in zip(m.leaves, w) if x > 1e-12]
                ws = [float(x) for x in w if x > 1e-12]
                if v.numeric:
                    dm.same_cdf(post[v].cdf, dm.mixture(ds, ws), rec, case + [t, v.name], 'marginal')
                else:
                    want_ = [math.fsum(a * d[x] for a, d in zip(ws, ds)) for x in range(len(ds[0]))]
                    rec.check(max(abs(a - b) for a, b in zip(post[v].probabilities, want_)) < 1e-7, 'marginal', case + [t, v.name], lambda: (list(post[v].probabilities), want_))
        return True

    def events(self, schema):
        out = [{}]
        for n, kind, a in SEQ[schema]:
            if kind == 'num':
                out += [{n: [(-INF, (a[0] + a[1]) / 2, EXC, EXC)]}, {n: [(a[0] + .25, INF, INC, EXC)]}, {n: [(a[-1] - .25, a[-1], INC, INC)]}]
            else:
                out += [{n: frozenset([a[0]])}, {n: frozenset(a[1:])}] + ([{n: frozenset(a[:2])}] if len(a) > 2 else [])
        return out

    def explore(self, rec, key, schema, seqs, timesteps=2, nmax=2, kw=None, long=False):
        with rec.guard([key]):
            s = self.model(schema, seqs, timesteps, **(kw or {'min_samples_leaf': 1}))
            learned = self.learned(rec, [key], schema, s, seqs, timesteps)
            if learned is None:
                return
            rec.state((schema, [(l.prior, str(l.path)) for l in learned[0].leaves], s.transition_model.tolist()))
            evs = self.events(schema)
            k = 0
            for n in range(1, nmax + 1):
                for es in itertools.product(evs, repeat=n):
                    k += 1
                    case = [key, [tr.show(e) for e in es]]
                    with rec.guard(case):
                        self.query(rec, case, schema, s, learned, es, k % 4)
            if long:
                for n in (10, 11, 12, 40, 130):
                    for p in itertools.chain([(e,) for e in evs], [(evs[1], {}, {}), ({}, evs[-1]), (evs[-1],) + ({},) * 10, ({},) * 10 + (evs[1],)]):
                        if n > 12 and len(p) == 1 and p[0]:
                            continue
                        es = [p[i % len(p)] for i in range(n)]
                        case = [key, n, [tr.show(e) for e in p]]
                        with rec.guard(case):
                            self.query(rec, case, schema, s, learned, es)
                # evidence at a single step only
                for at in range(12):
                    es = [evs[1] if i == at else {} for i in range(12)]
                    with rec.guard([key, 'at', at]):
                        self.query(rec, [key, 'at', at], schema, s, learned, es)
            with rec.guard([key, 'json']):
                c = self.SequentialJPT.from_json(json.loads(json.dumps(s.to_json())))
                rec.check(c.template_tree == s.template_tree and (c.transition_model == s.transition_model).all(), 'json', [key])
                m = tr.RefModel(c.template_tree)
                self.query(rec, [key, 'json'], schema, c, (m, [l.idx for l in m.leaves], learned[2]), [evs[1], {}, evs[-1]][:max(2, nmax)])
            return s

    # ------------------------------------------------------------------------------------------------------------------
    def cells(self, schema):
        return list(itertools.product(*[a for _, _, a in SEQ[schema]]))

    def job_single(self, rec, schema, n, part, parts, full):
        k = 0
        for ln in range(3, n + 1):
            for seq in itertools.product(self.cells(schema), repeat=ln):
                k += 1
                if k % parts != part or (not full and ln == n and ln > 3 and k // parts % 3):
                    continue
                i = k // parts
                kw = [dict(min_samples_leaf=1), dict(min_samples_leaf=2), dict(min_samples_leaf=.4), dict(max_depth=1)][i % 4]
                if i % 5 == 4 and len(SEQ[schema]) > 1:
                    kw = dict(min_samples_leaf=1, targets=[SEQ[schema][-1][0]])
                self.explore(rec, [schema, list(map(list, seq)), 2 + (i % 3 == 2), kw], schema, [seq], 2 + (i % 3 == 2), 2 if not (full and i % 6 == 0) else 3, kw)

    def job_pairs(self, rec, schema, part, parts, full):
        cells = self.cells(schema)[:3]
        seqs = [s for n in (2, 3) for s in itertools.product(cells, repeat=n)]
        k = 0
        for a, b in itertools.product(seqs, repeat=2):
            k += 1
            if k % parts != part or (k // parts) % (3 if full else 7):
                continue
            self.explore(rec, [schema, list(map(list, a)), list(map(list, b))], schema, [a, b], 2, 2)

    def job_long(self, rec, part, parts, full):
        """Longer training sequences, long evidence."""
        for k, f in enumerate(itertools.product((0, 1, 2), repeat=4)):
            if k % parts != part or (not full and k // parts % 3):
                continue
            for schema in ('x', 's', 'i'):
                a = self.cells(schema)
                seq = [a[x] for x in (f + (0, 1, 2, 2, 1) + f)]
                self.explore(rec, [schema, 'long', list(f)], schema, [seq, [a[x] for x in f]], 2, 1 if not full else 2, dict(min_samples_leaf=1 + k % 2), long=True)

    def job_many(self, rec, part, parts, full):
        """Many leaves (indices beyond 10, irregular trees); refitting a model."""
        for k in range(8):
            if k % parts != part:
                continue
            tr.SCHEMAS['seqbig'] = SEQ['big'] = [('x', 'num', [float(i) for i in range(14)])]
            seq = [(float((i * (2 * k + 1) + i // 3) % 14),) for i in range(30)]
            SEQ['big'][0][2][:] = [float(i) for i in range(14)]
            s = self.explore(rec, ['big', k], 'big', [seq], 2, 2, dict(min_samples_leaf=1), long=k % 4 == 0)
            with rec.guard(['refit', k]):
                # fit again with other data
                other = [(float(i % 3),) for i in range(6 + k)]
                s.fit([self.table('big', other)])
                learned = self.learned(rec, ['refit', k], 'big', s, [other], 2)
                if learned:
                    for es in itertools.product(self.events('big'), repeat=2):
                        self.query(rec, ['refit', k, [tr.show(e) for e in es]], 'big', s, learned, es)
            with rec.guard(['fitted-template', k]):
                # a template that is a fitted model already
                j = tr.fit('seqbig', seq, min_samples_leaf=1)
                s = self.SequentialJPT(j)
                s.fit([self.table('big', other)])
                learned = self.learned(rec, ['fitted-template', k], 'big', s, [other], 2)
                if learned:
                    for es in itertools.product(self.events('big'), repeat=2):
                        self.query(rec, ['fitted-template', k, [tr.show(e) for e in es]], 'big', s, learned, es)


CHECK = Check()
