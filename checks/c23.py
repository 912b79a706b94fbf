"""C23: variable maps and assignments behave as ordered dictionaries of variables."""
import copy
import itertools
import json
import math
import pickle

from vlib import trees as tr


class Refused(Exception):
    pass


class Check:
    pid = 'C23'
    level = 'model_checking'
    technique = ('explicit-state exploration of the real VariableMap/LabelAssignment/ValueAssignment objects: every reachable state of a pair of maps under all operations up to a bounded '
                 'depth (states identified by contents and by internal state), each compared with ordered dictionaries; all candidate values of all domains for acceptance and conversion')
    note = 'Reading by name and variable, iteration order, equality/hash/JSON, refused operations leave the map unchanged, copies independent, lossless conversion.'
    space = ('two maps, two or three variables, two values each, 30-45 operations, depth 5 (12 thorough) or until no new state appears; all subsets of labels/values plus foreign ones for '
             'ten domains, set by name, by variable, constructors, += and update')
    assumptions = ['two different variables with one name are not mixed in one map', 'setting by name a variable that was deleted may be refused or accepted']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['graph', cls, dec, 0, 1, 12 if t else 5] for cls in ('LabelAssignment', 'ValueAssignment', 'VariableMap') for dec in (2, 1, 0)]
        out += [['domains', k, 6, t] for k in range(6)]
        out += [['pairs', k, 6, t] for k in range(6)]
        out += [['copies'], ['models']]
        return out

    def run(self, job, rec):
        from jpt import variables as jv
        from jpt.base import intervals as iv
        from jpt.distributions import Bool, NumericType, SymbolicType, IntegerType, ScaledNumeric
        self.jv, self.iv = jv, iv
        self.A = jv.NumericVariable('A')
        self.S = jv.SymbolicVariable('S', SymbolicType('S23', ['b', 'a', 'c']))
        self.I = jv.IntegerVariable('I', IntegerType('I23', 2, 4))
        self.N = jv.SymbolicVariable('N', SymbolicType('N23', [3, 1, 2]))
        self.B = jv.SymbolicVariable('B', Bool)
        self.J = jv.IntegerVariable('J', IntegerType('J23', -1, 1))
        self.One = jv.SymbolicVariable('One', SymbolicType('One23', ['only']))
        self.T = jv.SymbolicVariable('T', SymbolicType('T23', ['a', 'ab', 'b', '']))
        self.D = jv.NumericVariable('D', NumericType('D23', [0., 4., 8.]))
        self.K = jv.IntegerVariable('K', IntegerType('K23', 7, 7))
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    # exploration of histories
    def values(self, cls, v):
        c = self.iv.ContinuousSet
        if cls == 'VariableMap':
            return ['p', 'q']
        if v is self.A:
            return [1.5, c(0, 1)]
        if v is self.S:
            return ['a', {'b', 'c'}] if cls == 'LabelAssignment' else [1, {0, 2}]
        return [2, {3, 4}] if cls == 'LabelAssignment' else [0, {1, 2}]

    def foreign(self, cls, v):
        """A value that the assignment has to refuse."""
        if v is self.A:
            return 'zz'
        if v is self.S:
            return {'a', 'zz'} if cls == 'LabelAssignment' else {0, 9}
        return None

    def operations(self, cls, vs):
        ops = []
        for m in (0, 1):
            for v in range(len(vs)):
                for x in (0, 1):
                    ops += [('set', m, v, x)]
                ops += [('name', m, v, 1), ('del', m, v), ('delname', m, v), ('isub', m, v), ('isubname', m, v)]
                if cls != 'VariableMap' and self.foreign(cls, vs[v]) is not None:
                    ops += [('bad', m, v), ('badname', m, v)]
            ops += [('update', m, 1 - m), ('iadd', m, 1 - m), ('isubmap', m, 1 - m), ('copy', m), ('deep', m), ('pickle', m), ('rebuild', m)]
        ops += [('iadd', 0, 0), ('isubmap', 0, 0), ('update', 0, 0), ('unknown', 0), ('novar', 0), ('foreigntype', 0)]
        return ops

    def start(self, cls, dec, vs):
        typ = getattr(self.jv, cls)
        maps = [typ(variables=vs[:k] if dec == 2 else (vs if dec == 1 else None)) for k in (1, 2)]
        names = [{v.name for v in (vs[:k] if dec == 2 else (vs if dec == 1 else []))} for k in (1, 2)]
        return maps, [dict(), dict()], names

    def apply(self, cls, vs, st, op):
        """Perform one operation on the maps and on the dictionaries; returns a complaint or None."""
        maps, refs, names = st
        kind, m = op[0], op[1]
        M, R, K = maps[m], refs[m], names[m]
        typ = type(M)
        vals = lambda v, x: copy.deepcopy(self.values(cls, vs[v])[x])
        want = None              # expected kinds of exception, or None
        optional = False
        todo = None
        if kind in ('set', 'name'):
            _, _, v, x = op
            key = vs[v] if kind == 'set' else vs[v].name
            todo = lambda: M.__setitem__(key, vals(v, x))
            if kind == 'name' and vs[v].name not in K:
                want, optional = ValueError, ('deleted', vs[v].name) in K
            if want is None or optional:
                effect = lambda: (R.__setitem__(vs[v].name, vals(v, x)), K.add(vs[v].name))
        elif kind in ('del', 'delname', 'isub', 'isubname'):
            v = vs[op[2]]
            key = v.name if kind.endswith('name') else v
            todo = (lambda: M.__delitem__(key)) if kind.startswith('del') else (lambda: M.__isub__(key))
            if v.name not in R:
                want = KeyError
            effect = lambda: (R.pop(v.name), K.discard(v.name), K.add(('deleted', v.name)))
        elif kind in ('bad', 'badname'):
            v = vs[op[2]]
            key = v if kind == 'bad' else v.name
            todo = lambda: M.__setitem__(key, self.foreign(cls, v))
            want = (TypeError, ValueError)
        elif kind in ('update', 'iadd'):
            o = op[2]
            todo = lambda: M.update(maps[o]) if kind == 'update' else M.__iadd__(maps[o])

            def effect():
                R.update(copy.deepcopy(refs[o]))
                K.update(refs[o])
                if kind == 'update':
                    # whether names that are only declared in the other map become known here is left open
                    K.update(('deleted', n) for n in names[o] if isinstance(n, str) and n not in K)
        elif kind == 'isubmap':
            o = op[2]
            todo = lambda: M.__isub__(maps[o])

            def effect():
                for n in list(refs[o]):
                    if n in R:
                        del R[n]
                        K.discard(n)
                        K.add(('deleted', n))
        elif kind in ('copy', 'deep', 'pickle', 'rebuild'):
            byname = {v.name: v for v in vs}

            def todo():
                if kind == 'rebuild':
                    new = typ([(byname[n], copy.deepcopy(x)) for n, x in R.items()], variables=[byname[n] for n in sorted(n for n in K if isinstance(n, str))])
                else:
                    new = M.copy(deep=True) if kind == 'deep' else M.copy() if kind == 'copy' else pickle.loads(pickle.dumps(M))
                alike = new == M or kind == 'rebuild' and list(new.items()) == list(M.items())     # (declared names may differ)
                if not alike or new is M or hash(new) != hash(M):
                    raise AssertionError('copy differs: %r %r' % (new, M))
                maps[1 - m] = new
                return M

            def effect():
                refs[1 - m] = copy.deepcopy(R)
                names[1 - m] = set(K)
        elif kind == 'unknown':
            todo = lambda: M.__setitem__('nobody', 1.5)
            want = ValueError
        elif kind == 'novar':
            todo = lambda: M.__setitem__(5, 1.5)
            want = (ValueError, TypeError)
        else:
            todo = lambda: M.__iadd__({'A': 1.5})
            want = TypeError
        try:
            res = todo()
        except AssertionError as e:
            return str(e)
        except Exception as e:
            if want is None or not isinstance(e, want):
                return '%s raised %s: %s' % (op, type(e).__name__, e)
        else:
            if want is not None and not optional:
                return '%s was not refused' % (op,)
            if kind in ('iadd', 'isub', 'isubname', 'isubmap') and res is not M:
                return '%s returned %r' % (op, res)
            effect()
        return None

    def same(self, a, b):
        if self.is_set(a) != self.is_set(b):
            return False
        return type(a) is type(b) and a == b

    def is_set(self, x):
        return isinstance(x, (set, frozenset))

    def compare(self, cls, vs, st):
        """All observations of both maps against the dictionaries."""
        maps, refs, names = st
        for m in (0, 1):
            M, R, K = maps[m], refs[m], names[m]
            known = [v.name for v in M]
            if [v.name for v in M] != list(R) or [v.name for v in M.keys()] != list(R):
                return 'iteration', (m, known, list(R))
            if any(v is not w and v != w for v, w in zip(M, [next(w for w in vs if w.name == n) for n in R])):
                return 'variables', (m, list(M))
            if len(M) != len(R) or bool(M) != bool(R):
                return 'length', (m, len(M), bool(M))
            if len(list(M.values())) != len(R) or not all(self.same(a, b) for a, b in zip(M.values(), R.values())):
                return 'values', (m, list(M.values()), R)
            if [(v.name, repr(x)) for v, x in M.items()] != [(v.name, repr(x)) for v, x in zip(M.keys(), M.values())]:
                return 'items', (m, list(M.items()))
            for v in vs:
                twin = copy.copy(v)
                for key in (v, v.name, twin):
                    if (key in M) != (v.name in R):
                        return 'contains', (m, v.name)
                    if v.name in R:
                        if not self.same(M[key], R[v.name]) or not self.same(M.get(key), R[v.name]) or not self.same(M.get(key, 77), R[v.name]):
                            return 'get', (m, v.name, M[key], R[v.name])
                    else:
                        if M.get(key) is not None or M.get(key, 77) != 77:
                            return 'get-default', (m, v.name, M.get(key))
                        try:
                            M[key]
                            return 'missing', (m, v.name)
                        except KeyError:
                            pass
            if 'nobody' in M:
                return 'contains', (m, 'nobody')
            vars_ = {v.name for v in M.variables}
            if not set(R) <= vars_ or {n for n, v in M.varnames.items()} != vars_ or any(n != v.name for n, v in M.varnames.items()):
                return 'variables', (m, vars_, R)
            repr(M), str(M)
            js = json.loads(json.dumps(M.to_json()))
            if set(js) != set(R):
                return 'json', (m, js)
            byname = {v.name: v for v in vs}
            back = type(M).from_json(vs, js)
            if list(v.name for v in back) != list(R) or not all(self.same(back[n], R[n]) for n in R):
                return 'json', (m, js, back)
        equal = list(refs[0]) and set(refs[0]) == set(refs[1]) and all(self.same(refs[0][n], refs[1][n]) for n in refs[0]) or not refs[0] and not refs[1]
        a, b = maps
        if (a == b) != (b == a) or (a != b) != (not a == b):
            return 'equality', 'symmetry'
        if a == b and (not equal or hash(a) != hash(b)):
            return 'equality', (repr(a), repr(b), hash(a), hash(b))
        if equal and not a == b and {v.name for v in a.variables} == {v.name for v in b.variables}:
            return 'equality', (repr(a), repr(b))
        if not a == a or a == dict(refs[0]) and refs[0] or hash(a) != hash(a):
            return 'equality', 'reflexive'
        return None

    def key(self, st):
        maps, refs, names = st
        fr = lambda x: tuple(sorted(map(repr, x))) if isinstance(x, (set, frozenset)) else repr(x)
        ref = tuple((tuple((n, fr(x)) for n, x in R.items()), tuple(sorted(map(str, K)))) for R, K in zip(refs, names))
        def inner(x, depth=0):
            if isinstance(x, dict):
                return tuple((str(getattr(k, 'name', k)), inner(v, depth + 1)) for k, v in x.items())
            if isinstance(x, (list, tuple)):
                return tuple(inner(v, depth + 1) for v in x)
            return getattr(x, 'name', None) or fr(x)
        return ref, tuple(inner(vars(M)) for M in maps)

    def job_graph(self, rec, cls, dec, part, parts, depth):
        vs = [self.A, self.S] if cls != 'ValueAssignment' else [self.S, self.I]
        ops = self.operations(cls, vs)
        build = lambda path: self.replay(cls, dec, vs, path)
        first = [ops[k] for k in range(len(ops)) if k % parts == part]
        seen = set()
        frontier = [()]
        for d in range(depth):
            nxt = []
            for path in frontier:
                for op in (first if d == 0 else ops):
                    case = {'class': cls, 'declared': dec, 'operations': path + (op,)}
                    with rec.guard(case):
                        st = build(path)
                        bad = self.apply(cls, vs, st, op)
                        rec.transitions += 1
                        if bad:
                            rec.fail('operation', case, bad)
                            continue
                        k = self.key(st)
                        if k in seen:
                            continue
                        seen.add(k)
                        rec.state((cls, dec, k))
                        bad = self.compare(cls, vs, st)
                        rec.validated += 1
                        if bad:
                            rec.fail(bad[0], case, repr(bad[1]))
                            continue
                        nxt.append(path + (op,))
                    if rec.nfails > 20:
                        return
            frontier = nxt
            if not frontier:
                rec.outcome('fixpoint reached')
                break
        else:
            rec.outcome('depth bound reached')

    def replay(self, cls, dec, vs, path):
        st = self.start(cls, dec, vs)
        for op in path:
            self.apply(cls, vs, st, op)
        return st

    # ------------------------------------------------------------------------------------------------------------------
    # which values are accepted, and what they are converted to
    def domain_of(self, v):
        """{label: value} of a discrete variable, from the order of its declaration."""
        return {'S': {'a': 1, 'b': 0, 'c': 2}, 'N': {1: 0, 2: 1, 3: 2}, 'I': {2: 0, 3: 1, 4: 2}, 'J': {-1: 0, 0: 1, 1: 2}, 'One': {'only': 0}, 'K': {7: 0}, 'B': {False: 0, True: 1},
                'T': {'a': 1, 'ab': 2, 'b': 3, '': 0}}[v.name]

    def candidates(self, v, labels):
        d = self.domain_of(v)
        dom = list(d) if labels else list(d.values())
        if v is self.B:
            if not labels:
                other = [2, -1, 'True', 5]
            else:
                other = ['True', 2, -1, 'x']
        elif all(isinstance(x, str) for x in dom):
            other = ['zz', 0, 1, 'c ' if v is self.S else 'bc', 'abc'] if labels else []
        else:
            other = [x for x in (9, -7, 'a') if x not in dom]
            if labels and v.symbolic:
                other += [0]
        if not labels:
            other = [x for x in (len(d), -1, 17, 'a') if x not in dom]
        return dom, other

    def job_domains(self, rec, part, parts, t):
        jv = self.jv
        discrete = [self.S, self.N, self.I, self.J, self.One, self.K, self.B, self.T]
        n = -1
        for v in discrete:
            d = self.domain_of(v)
            if v.symbolic:
                lab = {k: x for k, x in d.items()}
                rec.check({v.domain.label2value(k) for k in lab} == set(range(len(lab))), 'domain', {'variable': v.name}, lambda: repr(v.domain.values))
                # the internal values are those of the type, in whatever order it defines
                d = {k: v.domain.label2value(k) for k in lab}
            for labels in (True, False):
                cls = jv.LabelAssignment if labels else jv.ValueAssignment
                dom, other = self.candidates(v, labels)
                alphabet = dom + other
                cand = [('scalar', x) for x in alphabet]
                for r in range(0, min(len(alphabet), 4 if not t else 5) + 1):
                    for c in itertools.combinations(alphabet, r):
                        cand.append(('set', set(c)))
                for form, x in cand:
                    n += 1
                    if n % parts != part:
                        continue
                    elems = x if form == 'set' else {x}
                    inside = all(any(e == y and isinstance(e, str) == isinstance(y, str) for y in dom) for e in elems)
                    for how in ('variable', 'name', 'list', 'dict', 'iadd', 'update', 'overwrite', 'kwarg'):
                        case = {'variable': v.name, 'labels': labels, 'value': x, 'how': how}
                        with rec.guard(case):
                            self.accept(rec, case, cls, v, x, inside, how, labels, {k: d[k] for k in d})
        if part == 0:
            self.numeric(rec)

    def accept(self, rec, case, cls, v, x, inside, how, labels, d):
        jv = self.jv
        a = cls(variables=[v, self.A])
        if how == 'overwrite':
            a[v] = next(iter(d)) if labels else 0
        given = copy.deepcopy(x)
        raw = jv.VariableMap([(v, given)])

        def put():
            nonlocal a
            if how in ('variable', 'overwrite'):
                a[v] = given
            elif how == 'name':
                a[v.name] = given
            elif how == 'list':
                a = cls([(v, given)])
            elif how == 'dict':
                a = cls({v.name: given}, variables=[v])
            elif how == 'kwarg':
                a = cls({v: given}, variables=[v])
            elif how == 'iadd':
                a += raw
            else:
                a.update(raw)
        try:
            put()
        except (TypeError, ValueError):
            rec.check(not inside, 'refused', case, lambda: 'a value of the domain was refused')
            rec.outcome('refused')
            if how == 'overwrite':
                rec.check(a[v] == (next(iter(d)) if labels else 0), 'partly-set', case, lambda: repr(a))
            elif how in ('variable', 'name', 'iadd', 'update'):
                rec.check(v not in a, 'partly-set', case, lambda: repr(a))
            return
        if not inside:
            if v.symbolic:
                rec.fail('accepted', case, repr(a))
                return
            try:                                   # integers may also be refused when they are converted
                (a.value_assignment() if labels else a.label_assignment())
            except (TypeError, ValueError):
                rec.outcome('refused on conversion')
                return
            rec.fail('accepted', case, repr(a))
            return
        rec.outcome('accepted')
        rec.validated += 1
        b = a.value_assignment() if labels else a.label_assignment()
        m = d if labels else {y: k for k, y in d.items()}
        conv = {m[e] for e in x} if self.is_set(x) else m[x]
        ok = type(b) is (jv.ValueAssignment if labels else jv.LabelAssignment) and list(b) == [v] and b[v] == conv and self.is_set(b[v]) == self.is_set(x)
        rec.check(ok, 'converted', case, lambda: (repr(b), conv))
        c = b.label_assignment() if labels else b.value_assignment()
        rec.check(type(c) is cls and list(c) == [v] and c[v] == x and self.is_set(c[v]) == self.is_set(x), 'lossless', case, lambda: (repr(c), x))
        rec.check(a[v] == x, 'changed', case, lambda: repr(a))
        s = a.scalar2sets()
        rec.check(type(s) is cls and s[v] == (set(x) if self.is_set(x) else {x}) and self.same(a[v], x), 'scalar2sets', case, lambda: (repr(s), repr(a)))
        for m_ in (a, b):
            js = json.loads(json.dumps(m_.to_json()))
            back = type(m_).from_json([v, self.A], js)
            rec.check(list(back) == [v] and self.is_set(back[v]) == self.is_set(m_[v]) and back[v] == m_[v], 'json', case, lambda: (js, repr(back)))

    def numeric(self, rec):
        jv, iv = self.jv, self.iv
        c = iv.ContinuousSet
        inf = float('inf')
        good = [0, 1.5, -3.25, c(0, 1), c(0, 4, 2, 1), c(-inf, 4, 2, 2), c(2, 2), iv.RealSet([c(0, 1), c(2, 3, 2, 1)]), iv.RealSet([c(-inf, 0, 2, 1), c(4, inf, 1, 2)]), 10 ** 6]
        bad = ['a', None, {1, 2}, [1, 2], (1, 2), 'b']
        tup = lambda x: [tuple(map(float, tr.tup(i))) for i in x.intervals] if hasattr(x, 'intervals') else tuple(map(float, tr.tup(x))) if hasattr(x, 'lower') else float(x)

        def near(x, y):
            if isinstance(x, list):
                return isinstance(y, list) and len(x) == len(y) and all(near(p, q) for p, q in zip(x, y))
            if isinstance(x, tuple):
                return isinstance(y, tuple) and all(near(p, q) for p, q in zip(x, y))
            return not isinstance(y, (tuple, list)) and (x == y or abs(x - y) < 1e-9 * max(1, abs(x)))
        for v in (self.A, self.D):
            mean, std = (0, 1) if v is self.A else (4, math.sqrt(32 / 3))
            for labels in (True, False):
                cls = jv.LabelAssignment if labels else jv.ValueAssignment
                for how in ('variable', 'name', 'list', 'iadd', 'update'):
                    for x in good + bad:
                        case = {'variable': v.name, 'labels': labels, 'value': str(x), 'how': how}
                        with rec.guard(case):
                            a = cls(variables=[v])
                            try:
                                if how in ('variable', 'name'):
                                    a[v if how == 'variable' else v.name] = x
                                elif how == 'list':
                                    a = cls([(v, x)])
                                elif how == 'iadd':
                                    a += jv.VariableMap([(v, x)])
                                else:
                                    a.update(jv.VariableMap([(v, x)]))
                            except (TypeError, ValueError):
                                rec.check(x in bad and v not in a, 'refused', case, repr(a))
                                continue
                            if not rec.check(not any(x is y for y in bad), 'accepted', case, lambda: repr(a)):
                                continue
                            rec.validated += 1
                            b = a.value_assignment() if labels else a.label_assignment()
                            f = (lambda y: (y - mean) / std) if labels else (lambda y: y * std + mean)

                            def conv(t):
                                if isinstance(t, list):
                                    return [conv(i) for i in t]
                                if isinstance(t, tuple):
                                    return (f(t[0]), f(t[1])) + t[2:]
                                return f(t)
                            rec.check(near(conv(tup(x)), tup(b[v])), 'converted', case, lambda: (repr(b), conv(tup(x))))
                            back = b.label_assignment() if labels else b.value_assignment()
                            rec.check(near(tup(x), tup(back[v])), 'lossless', case, lambda: repr(back))
                            s = a.scalar2sets()
                            want = x if hasattr(x, 'lower') or hasattr(x, 'intervals') else c(x, x)
                            rec.check(near(tup(want), tup(s[v])) and near(tup(a[v]), tup(x)), 'scalar2sets', case, lambda: repr(s))
                            js = json.loads(json.dumps(a.to_json()))
                            r = cls.from_json([self.S, v], js)
                            rec.check(list(r) == [v] and near(tup(r[v]), tup(x)) and hasattr(r[v], 'lower') == hasattr(x, 'lower'), 'json', case, lambda: (js, repr(r)))

    # ------------------------------------------------------------------------------------------------------------------
    def job_pairs(self, rec, part, parts, t):
        """Equality and hash over all pairs of small assignments; conversion of assignments to several variables."""
        jv, c = self.jv, self.iv.ContinuousSet
        vs = [self.S, self.A, self.I]
        dom = {'S': [None, 'a', 'b', {'a'}, {'b', 'a'}, {'a', 'b', 'c'}], 'A': [None, 0., 1, c(0, 1), c(0, 1, 2, 1)], 'I': [None, 2, {2}, {2, 3}]}
        every = []
        for combo in itertools.product(*[range(len(dom[v.name])) for v in vs]):
            items = [(v, dom[v.name][k]) for v, k in zip(vs, combo) if k]
            for perm in itertools.permutations(items) if len(items) < 3 or t else [items, items[::-1]]:
                every.append((combo, list(perm)))
        mk = lambda items, cls=jv.LabelAssignment: cls([(v, copy.copy(x)) for v, x in items])
        objs = [(combo, items, mk(items)) for combo, items in every]
        for k, (combo, items, a) in enumerate(objs):
            if k % parts != part:
                continue
            case = {'items': [(v.name, str(x)) for v, x in items]}
            with rec.guard(case):
                rec.state(case['items'])
                for combo2, items2, b in objs:
                    eq = combo == combo2
                    ok = (a == b) == eq and (a != b) == (not eq) and (not eq or hash(a) == hash(b))
                    if not rec.check(ok, 'equality', {**case, 'other': [(v.name, str(x)) for v, x in items2]}, lambda: (a == b, eq, hash(a), hash(b))):
                        break
                val = a.value_assignment()
                rec.check(a != val and not a == val or not items and type(a) is not type(val), 'equality', case, 'label and value assignments are equal')
                rec.check(a == jv.LabelAssignment({v.name: x for v, x in items}, variables=[v for v, _ in items]), 'dict-constructor', case)
                rec.check([v.name for v in val] == [v.name for v, _ in items], 'conversion-order', case, lambda: repr(val))
                back = val.label_assignment()
                rec.check(back == a and hash(back) == hash(a) and [v.name for v in back] == [v.name for v, _ in items], 'lossless', case, lambda: repr(back))
                rec.check(len({a, back, mk(items)}) == 1, 'hash', case)
                rec.validated += 1

    def job_copies(self, rec):
        """Deep copies share no mutable value; shallow copies share no structure."""
        jv, iv = self.jv, self.iv
        c = iv.ContinuousSet

        def values():
            return [{1, 2}, [1, 2], {'k': 1}, c(0, 1), iv.RealSet([c(0, 1), c(2, 3)])]

        def mutate(x):
            if isinstance(x, set):
                x.add(99)
            elif isinstance(x, list):
                x.append(99)
            elif isinstance(x, dict):
                x['z'] = 99
            elif hasattr(x, 'intervals'):
                x.intervals.append(c(8, 9))
            else:
                x.lower = -99
        vs = [self.A, self.S, self.I]
        for dec in (0, 1):
            for i, j in itertools.product(range(5), repeat=2):
                for deep in (False, True):
                    for order in (0, 1):
                        case = {'declared': dec, 'values': [str(values()[i]), str(values()[j])], 'deep': deep, 'mutate original': order}
                        with rec.guard(case):
                            m = jv.VariableMap([(self.A, values()[i]), (self.S, values()[j])], variables=vs if dec else None)
                            rep = repr(m)
                            k = m.copy(deep=deep)
                            rec.check(k == m and type(k) is type(m) and repr(k) == rep and {v.name for v in k.variables} == {v.name for v in m.variables}, 'copy', case, lambda: repr(k))
                            x, y = (m, k) if order else (k, m)
                            if deep:
                                for v in list(x.values()):
                                    mutate(v)
                            x[self.S] = 5
                            x[self.I] = 6
                            del x[self.A]
                            rec.check(repr(y) == rep and len(y) == 2 and self.A in y, 'independent', case, lambda: (repr(y), rep))
                            if dec:
                                y['I'] = 7
                                rec.check(y[self.I] == 7 and x[self.I] == 6, 'independent', case)
                            rec.validated += 1
                            rec.state(case)

    def job_models(self, rec):
        """Assignments that models return and take: JSON and conversion keep their meaning."""
        jv = self.jv
        from jpt.trees import JPT
        for schema in ('xs', 'xsi', 'zs', 'bx', 'si'):
            rows = list(itertools.product(*[a[:2] for _, _, a in tr.SCHEMAS[schema]]))
            for sub in itertools.combinations(rows, 3):
                case = {'schema': schema, 'rows': sub}
                with rec.guard(case):
                    j = tr.learn(schema, sub) if hasattr(tr, 'learn') else None
                    if j is None:
                        vs = tr.variables(schema)
                        j = JPT(vs, min_samples_leaf=1)
                        import pandas as pd
                        j.fit(pd.DataFrame([list(r) for r in sub], columns=[v.name for v in vs]))
                    sol, p = j.mpe()
                    for a in sol:
                        js = json.loads(json.dumps(a.to_json()))
                        b = jv.LabelAssignment.from_json(j.variables, js)
                        rec.check(b == a and hash(b) == hash(a), 'json', case, lambda: (js, repr(a), repr(b)))
                        q = a.value_assignment().label_assignment()
                        rec.check(abs(j.infer(q) - j.infer(a)) < 1e-9 and abs(j.infer(b) - j.infer(a)) < 1e-9, 'meaning', case, lambda: (repr(a), repr(q), repr(b)))
                    rec.validated += 1
                    rec.state(case)


CHECK = Check()
