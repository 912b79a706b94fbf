"""C15: queries never change a model, its copies or the caller's arguments."""
import copy
import itertools
import json
import math
import re
import pickle

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC

MODELS = {
    'xs': [[(0., 'a'), (1., 'b')], [(0., 'a'), (1., 'a'), (2., 'b'), (2., 'a')]],
    'xy': [[(0., 0.), (1., 1.), (2., 1.), (2., 0.)]],
    'si': [[('a', 1), ('b', 2), ('b', 3), ('c', 1)]],
    'xsi': [[(0., 'a', 0), (1., 'b', 1), (1., 'a', 1), (0., 'b', 1)]],
    'zs': [[(0., 'a'), (1., 'b'), (4., 'b'), (4., 'a')]],
    'bx': [[(True, 0.), (False, 1.), (True, 2.), (False, 2.)]],
}


def freeze(x, seen=None):
    """Structural value of query arguments and results."""
    if isinstance(x, (str, int, float, bool)) or x is None:
        return repr(x)
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, dict):
        return ('dict', tuple((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if hasattr(x, 'intervals') and not hasattr(x, 'functions'):
        return ('set of intervals', tuple(tr.tup(i) for i in x.intervals))
    if hasattr(x, 'distributions') and hasattr(x, 'idx'):
        return ('leaf', x.idx, repr(x.prior), freeze(x.distributions))
    if type(x).__name__ == 'VariableMap' or hasattr(x, 'items') and hasattr(x, 'variables'):
        return (type(x).__name__, tuple((getattr(k, 'name', str(k)), freeze(v)) for k, v in x.items()))
    if hasattr(x, 'lower') and hasattr(x, 'upper'):
        return ('interval',) + tr.tup(x)
    if hasattr(x, 'tolist'):
        return ('array', freeze(x.tolist()))
    if hasattr(x, 'probabilities'):
        return ('discrete', tuple(float(p) for p in x.probabilities))
    if hasattr(x, 'cdf') and hasattr(x, 'to_json'):
        try:
            return ('numeric', tuple((tr.tup(i), dm.coeffs(f)) for i, f in zip(x.cdf.intervals, x.cdf.functions)))
        except Exception:
            return repr(x)
    if hasattr(x, 'leaves') and hasattr(x, 'to_json'):
        return ('model', json.dumps(x.to_json(), sort_keys=True))
    if hasattr(x, 'items'):
        return (type(x).__name__, tuple((getattr(k, 'name', str(k)), freeze(v)) for k, v in x.items()))
    return re.sub(r' at 0x[0-9a-f]+', '', repr(x))


def vandalize(x, seen):
    """Change everything that can be reached from a result, except variables and types."""
    import numpy as np
    from jpt.variables import Variable, VariableMap
    if x is None or isinstance(x, (str, bytes, int, float, bool, type, Variable, frozenset)) or id(x) in seen or callable(x) and not hasattr(x, 'eval'):
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        if x.dtype != object and x.flags.writeable:
            x.fill(7)
        return
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
        for v in list(x):
            vandalize(v, seen)
        if not isinstance(x, tuple):
            x.clear()
        return
    if isinstance(x, set):
        x.clear()
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            vandalize(v, seen)
        x.clear()
        return
    if isinstance(x, VariableMap):
        for v in list(x.values()):
            vandalize(v, seen)
        for k in list(x.keys()):
            try:
                del x[k]
            except Exception:
                pass
        return
    mod = type(x).__module__ or ''
    if not mod.startswith('jpt'):
        return
    for a in ('intervals', 'functions', '_params', 'probabilities', 'splits', 'distributions', 'path', '_path', 's_indices', 'children', 'leaves', 'innernodes',
              'priors', 'minimal_distances', 'dependencies', 'targets', 'features', '_quantile', '_cdf', '_ppf', 'cdf', 'ppf', 'pdf', 'root', 'cache'):
        try:
            v = getattr(x, a)
        except Exception:
            continue
        vandalize(v, seen)
    for a, v in (('lower', -77.), ('upper', 77.), ('m', 3.), ('c', 3.), ('value', 3.), ('prior', 5.), ('samples', 99), ('root', None)):
        try:
            setattr(x, a, v)
        except Exception:
            pass


class Check:
    pid = 'C15'
    level = 'model_checking'
    technique = ('exhaustive exploration of all sequences of queries (up to the depth bound) over an alphabet of successful and failing operations on real models; after '
                 'every operation the complete state of the model, its copies and all arguments is compared, and results are destroyed')
    note = 'Everything reachable from a result is overwritten after each step, so that shared state shows up in the next comparison.'
    space = 'seven models over six schemas; about 45 operations; all sequences of length 2 (quick) / 3 (thorough)'
    assumptions = ['variables and domain types are shared on purpose', 'leaves() and apply()/reverse() hand out the leaves themselves']

    def jobs(self, tier):
        t = tier == 'thorough'
        return [['hist', s, n, k, 24 if t else 6, 3 if t else 2] for s in MODELS for n in range(len(MODELS[s])) for k in range(24 if t else 6)]

    def run(self, job, rec):
        from jpt.base import intervals as iv
        self.iv = iv
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def ops(self, j, schema, rows):
        """(name, function, arguments, may the result be destroyed)"""
        import numpy as np
        import pandas as pd
        from jpt.trees import JPT
        from jpt.variables import LabelAssignment, VariableMap
        iv = self.iv
        names = [v.name for v in j.variables]
        num = [v.name for v in j.variables if v.numeric]
        dis = [v.name for v in j.variables if not v.numeric]
        evs = []
        for n, kind, a in tr.SCHEMAS[schema]:
            if kind in ('num', 'scaled'):
                evs += [{n: iv.ContinuousSet(a[0], a[1])}, {n: iv.RealSet(['[%s,%s]' % (a[0], (a[0] + a[1]) / 2), '[%s,%s]' % (a[-1], a[-1] + 1)])}, {n: a[-1]}, {n: [a[0], a[-1]]}]
            else:
                evs += [{n: a[0]}, {n: set(a[:2])}, {n: [a[-1]] if kind != 'int' else [a[0], a[1]]}]
        both = {names[0]: evs[0][names[0]], names[1]: [e for e in evs if names[1] in e][0][names[1]]}
        impossible = {num[0]: iv.ContinuousSet(1e6, 2e6)} if num else {dis[-1]: {tr.DOMAIN_EXTRA['si']['i'][1]}}
        bound = j.bind({k: v for k, v in both.items()})
        value = bound.value_assignment()
        world = [list(r) for r in rows]
        frame = pd.DataFrame(world, columns=names)
        out = []

        def add(name, f, *args, own=True):
            out.append((name, f, args, own))

        e1, e2, e3 = evs[0], evs[len(evs) // 2], evs[-1]
        add('infer', lambda m, q, e: m.infer(q, e), e2, e1)
        add('infer value', lambda m, q: m.infer(q), evs[2])
        add('infer bound', lambda m, q: m.infer(q, q), bound)
        add('infer internal', lambda m, q: m.infer(q), value)
        add('infer impossible', lambda m, q, e: m.infer(q, e), e1, impossible)
        add('infer unknown', lambda m, q: m.infer(q), {'nope': 1})
        add('posterior', lambda m: m.posterior())
        add('posterior evidence', lambda m, e: m.posterior(None, e), e1)
        add('posterior subset', lambda m, v, e: m.posterior(v, e), [names[0]], e3)
        add('posterior bound', lambda m, e: m.posterior(evidence=e), bound)
        add('posterior internal', lambda m, e: m.posterior(evidence=e), value)
        add('posterior impossible', lambda m, e: m.posterior(evidence=e), impossible)
        add('posterior none', lambda m, e: m.posterior(evidence=e, fail_on_unsatisfiability=False), impossible)
        add('expectation', lambda m, e: m.expectation(evidence=e), e1)
        add('expectation all', lambda m: m.expectation())
        add('moment', lambda m, e: m.moment(2, evidence=e), e3)
        add('mpe', lambda m: m.mpe())
        add('mpe evidence', lambda m, e: m.mpe(e), e2)
        add('mpe bound', lambda m, e: m.mpe(e), bound)
        add('mpe impossible', lambda m, e: m.mpe(e), impossible)
        add('kmpe', lambda m: list(m.kmpe(k=3)))
        add('kmpe half', lambda m, e: next(m.kmpe(e)), e1)
        add('conditional', lambda m, e: m.conditional_jpt(e), e1)
        add('conditional value', lambda m, e: m.conditional_jpt(e), e3)
        add('conditional bound', lambda m, e: m.conditional_jpt(e), bound)
        add('conditional internal', lambda m, e: m.conditional_jpt(e), value)
        add('conditional empty', lambda m: m.conditional_jpt({}))
        add('conditional impossible', lambda m, e: m.conditional_jpt(e), impossible)
        add('conditional twice', lambda m, e, f: m.conditional_jpt(e).conditional_jpt(f), e1, e2)
        add('copy', lambda m: m.copy())
        add('copy queried', lambda m, e: (lambda c: (c.infer(e), c.prune(0.), c))(m.copy()), e2)
        add('deepcopy', lambda m: copy.deepcopy(m))
        add('pickle', lambda m: pickle.loads(pickle.dumps(m)))
        add('json', lambda m: m.to_json())
        add('from json', lambda m: type(m).from_json(m.to_json()))
        add('from json variables', lambda m: type(m).from_json(m.to_json(), variables=m.variables))
        add('prune', lambda m: m.prune(.1))
        add('prune all', lambda m: m.prune(0.))
        add('likelihood', lambda m, w: m.likelihood(w), world)
        add('likelihood frame', lambda m, w: m.likelihood(w), frame)
        add('encode', lambda m, w: m.encode(w), np.array(world, dtype=object))
        add('pdf', lambda m, w: m.pdf(m.bind(w, allow_singular_values=True)), dict(zip(names, world[0])))
        add('sample', lambda m: m.sample(3))
        add('apply', lambda m, e: list(m.apply(e)), e1, own=False)
        add('reverse', lambda m, e: m.reverse(e), e1, own=False)
        add('bind', lambda m, e: m.bind(e), both)
        add('bind invalid', lambda m: m.bind({names[0]: object()}))
        add('print', lambda m: (str(m), repr(m), m.pfmt(), m.number_of_parameters(), [l.format_path() for l in m.leaves.values()], [str(l) for l in m.leaves.values()]))
        add('leaf', lambda m, e: [(l.copy(), l.probability(e.value_assignment()), l.conditional_leaf(e.value_assignment()) if l.probability(e.value_assignment()) > 0 else None, l.number_of_parameters()) for l in m.leaves.values()], bound)
        add('leaf mpe', lambda m: [l.mpe(m.minimal_distances) for l in m.leaves.values()])
        add('fit other', lambda m, w: JPT(m.variables, min_samples_leaf=1).fit(rows=w), world[:2])
        add('equality', lambda m: (m == m.copy(), m != 1, m == None, hash(m) if type(m).__hash__ else 0))
        add('paths', lambda m: [copy.deepcopy(dict(l.path.items())) for l in m.leaves.values()])
        return out

    def snapshot(self, j):
        """Complete state of a model."""
        return (json.dumps(j.to_json(), sort_keys=True), [freeze(j.priors[v]) for v in j.variables],
                [(i, id(l), freeze(l.distributions), freeze(l.path), repr(l.prior), l.samples, [int(x) for x in l.s_indices], id(l.parent)) for i, l in j.leaves.items()],
                [(i, id(n), freeze(n.splits), [id(c) for c in n.children], n.variable.name, freeze(n.path), n.samples) for i, n in j.innernodes.items()],
                freeze(j.minimal_distances), id(j.root), [(k.name, [v.name for v in vs]) for k, vs in j.dependencies.items()],
                [v.name for v in j.targets], [v.name for v in j.features], [id(v) for v in j.variables], str(j))

    def answers(self, j, ops):
        return [self.do(j, o)[1] for o in ops]

    def do(self, j, op):
        import numpy as np
        np.random.seed(1)
        import random
        random.seed(1)
        try:
            r = op[1](j, *op[2])
        except Exception as e:
            return None, ('raised', type(e).__name__)
        return r, freeze(r)

    def job_hist(self, rec, schema, n, part, parts, depth):
        rows = MODELS[schema][n]
        j = tr.fit(schema, rows, keep=True, min_samples_leaf=1)
        fresh = tr.fit(schema, rows, vs=j.variables, keep=True, min_samples_leaf=1)
        twin = j.copy()
        ops = self.ops(j, schema, rows)
        wanted = [self.do(fresh, o)[1] for o in ops]
        args = [freeze(o[2]) for o in ops]
        before, before_twin = self.snapshot(j), self.snapshot(twin)
        for w, o in zip(wanted, ops):
            rec.outcome('%s: %s' % (o[0], w[1] if w and w[0] == 'raised' else 'answered'))
        for i, hist in enumerate(itertools.product(range(len(ops)), repeat=depth)):
            if i % parts != part:
                continue
            case = [schema, n, [ops[h][0] for h in hist]]
            rec.tick(case)
            rec.state((schema, n, hist))
            bad = False
            for h in hist:
                name, _, arg, own = ops[h]
                r, got = self.do(j, ops[h])
                rec.transitions += 1
                rec.validated += 1
                bad |= not rec.check(got == wanted[h], 'different-answer', case, lambda: (name, str(got)[:600], str(wanted[h])[:600]))
                if own and r is not None:
                    seen = {id(a): a for a in arg}
                    for a in arg:
                        if isinstance(a, dict):
                            seen.update({id(v): v for v in a.values()})
                        if hasattr(a, 'items') and not hasattr(a, 'columns'):
                            seen.update({id(v): v for _, v in a.items()})
                    vandalize(r, seen)
                now = self.snapshot(j)
                bad |= not rec.check(now == before, 'model-changed', case, lambda: (name, [(str(a)[:400], str(b)[:400]) for a, b in zip(now, before) if a != b]))
                bad |= not rec.check(freeze(arg) == args[h], 'argument-changed', case, lambda: (name, args[h], freeze(arg)))
                if bad:
                    break
            bad |= not rec.check(self.snapshot(twin) == before_twin, 'copy-changed', case)
            if bad:                                   # start over with undamaged objects
                if rec.nfails > 12:
                    return
                j = tr.fit(schema, rows, keep=True, min_samples_leaf=1)
                twin = j.copy()
                ops = self.ops(j, schema, rows)
                args = [freeze(o[2]) for o in ops]
                before, before_twin = self.snapshot(j), self.snapshot(twin)


CHECK = Check()
