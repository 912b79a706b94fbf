"""C21: structural edits leave a valid model."""
import itertools
import json
import math
import pickle

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from checks.c12 import Check as Base, CONFIGS


class Check(Base):
    pid = 'C21'
    technique = ('exhaustive exploration of all sequences of structural edits (pruning at several thresholds, re-weighting, normalizing, conditioning, copying, storing) up to a '
                 'bounded depth on real models; each reached model is checked node by node and compared with the edit applied to the reference mixture')
    note = 'Links, paths, regions and indices of every node, leaf weights, sample bookkeeping, exactness of merged leaves, the set of merged leaves, and untouched originals.'
    space = 'all multisets of up to 3 rows of nine schemas and 64 pattern trees, all trees induced by the labels of 8 rows (10: thorough) with six thresholds, and with twice as many leaves; all edit sequences of length 2 (3 for a part), 10 edits each'
    assumptions = ['which siblings are similar is decided by the domain\'s own similarity (checked in C26)']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 8), ('x', 4, 4), ('xy', 3, 8), ('xi', 3, 6), ('si', 3, 6), ('xsi', 3, 8), ('bx', 3, 4), ('zs', 3, 4), ('sx', 3, 4)]:
            if t:
                nmax, parts = nmax + 1, parts * 6
            out += [['data', schema, nmax, k, parts, t] for k in range(parts)]
        out += [['patterns', k, 8 if not t else 32, t] for k in range(8 if not t else 32)]
        out += [['shapes', k, 8, t] for k in range(8)]
        return out

    # ------------------------------------------------------------------------------------------------------------------
    def restriction(self, v, x):
        return tr.tuples(x) if v.numeric else frozenset(int(y) for y in x)

    def structure(self, rec, case, j, conditioned):
        """Nodes, links, paths, regions, weights of one model."""
        bad = []
        seen_l, seen_i, regions = {}, {}, []
        stack = [(j.root, None, {})]
        while stack:
            n, parent, region = stack.pop()
            if n is None:
                bad.append('missing node below %s' % (parent and parent.idx))
                continue
            if n.parent is not parent:
                bad.append('parent of #%s is %s, not %s' % (n.idx, n.parent and n.parent.idx, parent and parent.idx))
            if n.idx in seen_l or n.idx in seen_i:
                bad.append('two nodes #%s' % n.idx)
            path = {v.name: self.restriction(v, x) for v, x in n.path.items()}
            if {k: self.norm(x) for k, x in path.items()} != {k: self.norm(x) for k, x in region.items()}:
                bad.append('path of #%s is %s, region %s' % (n.idx, path, region))
            if hasattr(n, 'distributions'):
                seen_l[n.idx] = n
                regions.append((n, region))
                continue
            seen_i[n.idx] = n
            if len(n.children) != len(n.splits) or not n.children:
                bad.append('children of #%s: %s for %s' % (n.idx, n.children, n.splits))
            for c, s in zip(n.children, n.splits):
                r = dict(region)
                s = self.restriction(n.variable, s)
                if n.variable.name in r:
                    s = tr.meets(r[n.variable.name], s) if n.variable.numeric else r[n.variable.name] & s
                r[n.variable.name] = s
                stack.append((c, n, r))
        if {i: id(l) for i, l in seen_l.items()} != {i: id(l) for i, l in j.leaves.items()}:
            bad.append('leaves %s, reachable %s' % (sorted(j.leaves), sorted(seen_l)))
        if {i: id(l) for i, l in seen_i.items()} != {i: id(l) for i, l in j.innernodes.items()}:
            bad.append('inner nodes %s, reachable %s' % (sorted(j.innernodes), sorted(seen_i)))
        if set(j.allnodes) != set(seen_l) | set(seen_i):
            bad.append('all nodes %s' % sorted(j.allnodes))
        ws = [l.prior for l in j.leaves.values()]
        if not all(w >= 0 for w in ws) or abs(math.fsum(ws) - 1) > 1e-9:
            bad.append('weights %s' % ws)
        for a, b in itertools.combinations(regions, 2):
            if not any(n in b[1] and not (tr.meets(x, b[1][n]) if isinstance(x, list) else x & b[1][n]) for n, x in a[1].items()):
                bad.append('regions of #%s and #%s overlap' % (a[0].idx, b[0].idx))
        if not conditioned and not bad:
            bad += self.covered(j, regions)
        if j.depth() != max(self.length(l) for l in j.leaves.values()):
            bad.append('depth %s' % j.depth())
        for l in j.leaves.values():
            if set(v.name for v in l.distributions) != set(j.varnames):
                bad.append('distributions of #%s' % l.idx)
            for v, d in l.distributions.items():
                if v.numeric:
                    dm.valid_cdf(d.cdf, rec, case + ['leaf', l.idx], tol=1e-7)
                elif abs(math.fsum(d.probabilities) - 1) > 1e-7 or min(d.probabilities) < 0:
                    bad.append('probabilities of #%s: %s' % (l.idx, d.probabilities))
        return rec.check(not bad, 'structure', case, lambda: '%s in %s' % (bad[:4], j))

    def length(self, n):
        k = 0
        while n.parent is not None:
            n = n.parent
            k += 1
        return k

    def norm(self, x):
        return sorted(x) if isinstance(x, frozenset) else sorted((a, b, l, r) for a, b, l, r in x)

    def covered(self, j, regions):
        """Every point lies in some region."""
        axes = []
        names = sorted({n for _, r in regions for n in r})
        for n in names:
            v = j.varnames[n]
            if v.numeric:
                cuts = sorted({c for _, r in regions for t in r.get(n, []) for c in t[:2] if math.isfinite(c)})
                pts = set(cuts)
                for c in cuts:
                    pts |= {math.nextafter(c, INF), math.nextafter(c, -INF), c - 1e9, c + 1e9}
                pts |= {(a + b) / 2 for a, b in zip(cuts, cuts[1:])}
                axes.append(sorted(pts))
            else:
                axes.append(range(v.domain.n_values))
        for w in itertools.product(*axes) if math.prod(map(len, axes)) < 20000 else ():
            w = dict(zip(names, w))
            if not any(all((any(dm.inside(w[n], t) for t in x) if isinstance(x, list) else w[n] in x) for n, x in r.items()) for _, r in regions):
                return ['no region contains %s' % w]
        return []

    def same(self, rec, kind, case, j, want, qs, tol=1e-7):
        """The real model answers queries like the reference."""
        got = tr.RefModel(j)
        for q in qs:
            rq = self.ref(j, q)
            w = want.p(rq)
            rec.transitions += 1
            rec.validated += 1
            r = j.infer(self.query(j, q))
            if not rec.check(abs(r - w) <= tol and abs(got.p(rq) - w) <= tol, kind, case + [tr.show(q)], lambda: (r, got.p(rq), w)):
                return

    # ---- edits ---------------------------------------------------------------------------------------------------------
    def edits(self, schema, j):
        out = [('prune', t) for t in (0., .3, 1., 1.5)] + [('copy',), ('json',), ('pickle',), ('scaled',)]
        ids = list(j.leaves)
        if len(ids) > 1:
            out += [('weights', [.25 + k for k in range(len(ids))]), ('weights', [0.] + [1.] * (len(ids) - 1)), ('weights', [1e-9] + [3.] * (len(ids) - 1))]
        es = list(tr.assignments('xs' if schema == 'pat' else schema, False, 1, empty=False))
        out += [('condition', e) for e in es[::max(1, len(es) // 3)]]
        return out

    def merged(self, j, th):
        """Paths of the leaves that pruning must leave; None if a similarity is too close to the threshold."""
        def go(n):
            if hasattr(n, 'distributions'):
                return [([], n.prior, n.distributions)]
            below = [go(c) for c in n.children]
            if any(b is None for b in below):
                return None
            if len(n.children) == 2 and all(len(b) == 1 and not b[0][0] for b in below):
                (_, p, l), (_, q, r) = below[0][0], below[1][0]
                sims = [v.domain.jaccard_similarity(l[v], r[v]) for v in j.variables if v is not n.variable]
                if sims:
                    s = math.fsum(sims) / len(sims)
                    if abs(s - th) < 1e-9 and th and (s != th or any(not hasattr(c, 'distributions') for c in n.children)):
                        return None             # rounding decides
                    if s >= th:
                        ws = [p / (p + q), q / (p + q)] if p + q else [.5, .5]
                        return [([], p + q, {v: v.domain.merge([l[v], r[v]], ws) for v in j.variables})]
            return [([(n.idx, k)] + path, p, d) for k, b in enumerate(below) for path, p, d in b]
        out = go(j.root)
        return out

    def routes(self, j):
        out = []
        stack = [(j.root, [])]
        while stack:
            n, r = stack.pop()
            if hasattr(n, 'distributions'):
                out.append((r, n))
            else:
                stack += [(c, r + [(n.idx, k)]) for k, c in enumerate(n.children)]
        return out

    def apply(self, rec, case, schema, j, op, qs, rows):
        """Apply one edit to a model; returns the edited model (None if the edit does not apply)."""
        m = tr.RefModel(j)
        before = repr([(l.idx, l.prior, str(l.path)) for l in j.leaves.values()]), str(j)
        kind = op[0]
        if kind == 'prune':
            want = self.merged(j, op[1])
            r = j.prune(op[1])
            self.same(rec, 'pruned-marginals', case, r, m, [q for q in qs if len(q) < 2])
            if want is not None:
                got = {tuple(p): l for p, l in self.routes(r)}
                if rec.check(set(got) == {tuple(p) for p, _, _ in want}, 'merged-leaves', case, lambda: (sorted(got), [p for p, _, _ in want], str(j))):
                    for p, w, ds in want:
                        l = got[tuple(p)]
                        rec.check(abs(l.prior - w) < 1e-12, 'merged-weight', case, lambda: (l.prior, w))
                        for v in j.variables:
                            if v.numeric:
                                dm.same_cdf(l.distributions[v].cdf, dm.Measure.of_cdf(ds[v].cdf), rec, case + [v.name], 'merged-distribution')
                            else:
                                rec.check(max(abs(a - b) for a, b in zip(l.distributions[v].probabilities, ds[v].probabilities)) < 1e-9, 'merged-distribution', case)
                rec.outcome('%d of %d leaves after pruning' % (len(r.leaves), len(j.leaves)) if len(j.leaves) < 5 else 'pruned')
            rec.check(r.total_samples() == j.total_samples(), 'sample-count', case, lambda: (r.total_samples(), j.total_samples()))
            if rows is not None:
                ids = sorted(int(i) for l in r.leaves.values() for i in l.s_indices)
                rec.check(ids == sorted(int(i) for l in j.leaves.values() for i in l.s_indices), 'sample-indices', case, lambda: ids)
                ix = {v: i for i, v in enumerate(r.variables)}
                for l in r.leaves.values():
                    rec.check(len(l.s_indices) == l.samples, 'samples-of-leaf', case, lambda: (list(l.s_indices), l.samples))
                    rl = [x for x in tr.RefModel(r).leaves if x.idx == l.idx][0]
                    for i in l.s_indices:
                        w = {v.name: tr.value_of(v, rows[int(i)][ix[v]]) for v in r.variables}
                        rec.check(rl.contains(w), 'sample-in-leaf', case, lambda: (l.idx, w))
        elif kind in ('copy', 'json', 'pickle'):
            r = j.copy() if kind == 'copy' else type(j).from_json(json.loads(json.dumps(j.to_json()))) if kind == 'json' else pickle.loads(pickle.dumps(j))
            rec.check(r == j, 'equal', case)
            self.same(rec, kind, case, r, m, qs[:8])
        elif kind == 'scaled':
            r = j.copy()
            for l in r.leaves.values():
                l.prior *= 3.
            rec.check(r.normalize() is r, 'in-place', case)
            self.same(rec, 'normalized', case, r, m, qs[:8])
        elif kind == 'weights':
            r = j.copy()
            ws = dict(zip(r.leaves, op[1]))
            t = math.fsum(ws[l.idx] * l.prior for l in m.leaves)
            if t <= 1e-12:
                return None
            for l in m.leaves:
                l.prior *= ws[l.idx] / t
            given = dict(ws)
            rec.check(r.multiply_by_leaf_prior(ws) is r, 'in-place', case)
            rec.check(ws == given, 'argument-changed', case)
            got = {l.idx: l.prior for l in r.leaves.values()}
            rec.check(all(abs(got[l.idx] - l.prior) < 1e-9 for l in m.leaves) and len(got) == len(m.leaves), 'weights', case, lambda: (got, [(l.idx, l.prior) for l in m.leaves]))
            self.same(rec, 'weighted', case, r, m, qs)
        else:
            ref = self.ref(j, op[1])
            if math.fsum(l.weight(ref) for l in m.leaves) <= 1e-9:
                return None
            r = j.conditional_jpt(self.query(j, op[1]))
            want = tr.condition(m, ref)
            self.same(rec, 'conditioned', case, r, want, qs)
        after = repr([(l.idx, l.prior, str(l.path)) for l in j.leaves.values()]), str(j)
        rec.check(before == after, 'original-changed', case, lambda: (before, after))
        return r

    def explore(self, rec, key, schema, j, depth, rows, qs, every=1):
        self.structure(rec, [key], j, False)
        todo = [(j, [], False)]
        n = 0
        while todo:
            j, ops, cond = todo.pop()
            for op in self.edits(schema, j):
                n += 1
                if len(ops) and every > 1 and (n + len(str(key))) % every:
                    continue
                case = [key, ops + [[op[0]] + [tr.show(x) if isinstance(x, dict) else x for x in op[1:]]]]
                with rec.guard(case):
                    rec.transitions += 1
                    # after the first edit, a quarter of the queries, in turn
                    r = self.apply(rec, case, schema, j, op, qs if not ops else qs[n % 4::4], rows)
                    if r is None:
                        continue
                    c = cond or op[0] == 'condition'
                    self.structure(rec, case, r, c)
                    rec.state((schema, [(l.idx, round(l.prior, 9), str(l.path)) for l in r.leaves.values()], str(key)))
                    if len(case[1]) < depth and not (op[0] in ('copy', 'json', 'pickle') and ops and ops[-1][0] in ('copy', 'json', 'pickle')):
                        todo.append((r, case[1], c))
                    elif len(r.leaves) > 1 or True:
                        rec.check(type(r).from_json(json.loads(json.dumps(r.to_json()))) == r, 'json', case)
                        str(r), r.number_of_parameters(), r.mpe(), r.posterior()
                        for l in r.leaves.values():
                            l.format_path()

    # ------------------------------------------------------------------------------------------------------------------
    def job_data(self, rec, schema, nmax, part, parts, full):
        qs = list(tr.assignments(schema, False, 2))
        for k, rows in tr.datasets(schema, 2, nmax, part, parts):
            n = k // parts
            if not full and len(rows) == nmax and n % 3:
                continue
            cfg = CONFIGS[n % 2 if len(rows) > 3 else 0]
            keep = n % 2 == 0
            with rec.guard([schema, [list(r) for r in rows]]):
                j = tr.fit(schema, rows, close=n % 3 > 0, keep=keep, **cfg)
                self.explore(rec, [schema, [list(r) for r in rows]], schema, j, 2, rows if keep else None, qs, every=1 if full else 2)
                if n % 9 == 0:
                    self.explore(rec, [schema, [list(r) for r in rows], 3], schema, j, 3, rows if keep else None, qs[:6], every=2 if full else 6)

    def job_patterns(self, rec, part, parts, full):
        qs = list(tr.assignments('xs', False, 2)) + [{'i': frozenset([0, 1, 2])}, {'i': frozenset([3]), 's': frozenset(['a'])}]
        for k, rows in tr.patterns(part, parts):
            with rec.guard(['pat', k]):
                j = tr.fit('pat', rows, min_samples_leaf=1 + k % 2, keep=True)
                self.explore(rec, ['pat', k], 'pat', j, 2, rows, qs, every=2 if full else 6)

    def job_shapes(self, rec, part, parts, full):
        """Larger trees of all shapes that the labels of eight (ten) rows induce, pruned once and twice."""
        n = 10 if full else 8
        qs = [{}, {'s': frozenset(['a'])}] + list(tr.assignments('xs', False, 1, empty=False))[::4]
        for k, labels in enumerate(itertools.product('ab', repeat=n - 1)):
            if k % parts != part:
                continue
            rows = [[float(i), c] for i, c in enumerate(('a',) + labels)]
            with rec.guard(['shape', ''.join(('a',) + labels), 'pairs']):
                # twice as many leaves
                rows2 = [[float(i), rows[i // 2][1]] for i in range(2 * n)]
                j = tr.fit('xs', rows2, keep=True, min_samples_leaf=1, targets=['s'])
                for t in (.1, .7):
                    case = ['shape', ''.join(('a',) + labels), 'pairs', t]
                    rec.transitions += 1
                    r = self.apply(rec, case, 'xs', j, ('prune', t), qs[:4], rows2)
                    self.structure(rec, case, r, False)
                    rec.state(('shape', str(r)))
            with rec.guard(['shape', ''.join(('a',) + labels)]):
                for cfg in ({'min_samples_leaf': 1}, {'min_samples_leaf': 1, 'targets': ['s']}):
                    j = tr.fit('xs', rows, keep=True, **cfg)
                    for t in (0., .2, .4, .6, .8, 1.):
                        case = ['shape', ''.join(('a',) + labels), sorted(cfg), t]
                        rec.transitions += 1
                        r = self.apply(rec, case, 'xs', j, ('prune', t), qs, rows)
                        self.structure(rec, case, r, False)
                        rec.state(('shape', str(r)))
                        if t in (.4, .8) and len(r.leaves) > 2:
                            self.structure(rec, case + ['again'], self.apply(rec, case + ['again'], 'xs', r, ('prune', t - .2), qs, rows), False)


CHECK = Check()
