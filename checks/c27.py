"""C27: learning sees the same data whatever its container."""
import itertools
import json
import math

from vlib import distmodel as dm, trees as tr

INF = math.inf


class Check:
    pid = 'C27'
    level = 'model_checking'
    technique = ('exhaustive enumeration of small tables over mixed column types in every container, index labelling, column order and with every kind of foreign cell at every position, on the '
                 'real code; models are compared with the model learned from plain rows and with counts made from the table')
    note = 'Frames, row lists, tuples, arrays, column lists; encodings; type inference with all settings; malformed tables refused; caller\'s tables unchanged.'
    space = ('all multisets of up to 3 rows of seven schemas in 14 containers; all column orders; every foreign cell value at every position; all column type combinations of up to two columns '
             'with all inference settings')
    assumptions = ['columns of a frame in another order than the variables may be refused', 'missing and infinite values are foreign to every domain']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = []
        for schema, nmax, parts in [('xs', 3, 4), ('zs', 3, 4), ('xsi', 2, 2), ('bx', 3, 2), ('xy', 3, 4), ('si', 2, 2), ('sx', 3, 2)]:
            if t:
                nmax, parts = nmax + 1, parts * 4
            out += [['containers', schema, nmax, k, parts] for k in range(parts)]
            out += [['foreign', schema, k, 2, t] for k in range(2)]
        out += [['infer', k, 4, t] for k in range(4)]
        return out

    def run(self, job, rec):
        import numpy as np
        import pandas as pd
        from jpt import JPT
        from jpt.base import intervals as iv
        self.np, self.pd, self.JPT, self.iv = np, pd, JPT, iv
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def frame(self, schema, rows, **kw):
        cols = {}
        for k, (name, kind, _) in enumerate(tr.SCHEMAS[schema]):
            cols[name] = self.pd.Series([r[k] for r in rows], dtype={'num': float, 'scaled': float, 'int': int, 'bool': bool}.get(kind, object), **kw)
        return self.pd.DataFrame(cols)

    def containers(self, schema, rows):
        """(label, keyword, object, copy for comparison) of one table."""
        np, n = self.np, len(rows)
        f = self.frame(schema, rows)
        yield 'frame', 'data', f
        yield 'frame with reversed index', 'data', self.frame(schema, rows, index=list(range(n))[::-1])
        yield 'frame with shifted index', 'data', self.frame(schema, rows, index=[i + 1 for i in range(n)])
        yield 'frame with repeated index', 'data', self.frame(schema, rows, index=[0] * n)
        yield 'frame with names as index', 'data', self.frame(schema, rows, index=['r%d' % (i % 2) for i in range(n)])
        yield 'frame of objects', 'data', f.astype(object)
        yield 'slice of a frame', 'data', self.pd.concat([f, f])[:n]
        yield 'rows in data', 'data', [list(r) for r in rows]
        yield 'tuples', 'rows', [tuple(r) for r in rows]
        yield 'columns', 'columns', [list(c) for c in zip(*rows)]
        yield 'object array', 'rows', np.array([list(r) for r in rows], dtype=object)
        yield 'object array in data', 'data', np.array([list(r) for r in rows], dtype=object)
        yield 'array of columns', 'columns', np.array([list(c) for c in zip(*rows)], dtype=object)
        if all(kind in ('num', 'scaled') for _, kind, _ in tr.SCHEMAS[schema]):
            yield 'float array', 'rows', np.array(rows, dtype=float)
            yield 'fortran array', 'data', np.asfortranarray(np.array(rows, dtype=float))
            yield 'strided array', 'data', np.repeat(np.array(rows, dtype=float), 2, axis=0)[::2]
            yield 'read-only array', 'data', self.readonly(np.array(rows, dtype=float))
            yield 'integer array', 'data', np.array(rows, dtype=int) if all(float(x).is_integer() for r in rows for x in r) else np.array(rows, dtype=float)
            yield 'frame of integers', 'data', f.astype(int) if all(float(x).is_integer() for r in rows for x in r) else f

    def readonly(self, a):
        a.setflags(write=False)
        return a

    def same(self, a, b):
        if isinstance(a, self.pd.DataFrame):
            return a.equals(b) and list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and list(a.dtypes) == list(b.dtypes)
        if isinstance(a, self.np.ndarray):
            return a.shape == b.shape and a.dtype == b.dtype and (a == b).all()
        return a == b and str(a) == str(b)

    def content(self, j):
        d = j.to_json()
        return json.dumps(d, sort_keys=True)

    def fit(self, schema, kw, obj, **settings):
        return self.JPT(tr.variables(schema), **{'min_samples_leaf': 1, **settings}).fit(**{kw: obj})

    def copy(self, x):
        return x.copy() if hasattr(x, 'copy') and not isinstance(x, list) else [type(r)(r) for r in x]

    def job_containers(self, rec, schema, nmax, part, parts):
        names = [n for n, _, _ in tr.SCHEMAS[schema]]
        kinds = [k for _, k, _ in tr.SCHEMAS[schema]]
        for _, rows in tr.datasets(schema, 1, nmax, part, parts):
            rows = [tuple(r) for r in rows]
            for order in (rows, rows[::-1]) if len(rows) > 1 else (rows,):
                base = None
                case = {'schema': schema, 'rows': order}
                with rec.guard(case):
                    rec.state(case)
                    first = [list(r) for r in order]
                    j = self.fit(schema, 'rows', first)
                    base = self.content(j)
                    rec.check(first == [list(r) for r in order], 'changed', case)
                    self.encoding(rec, case, j, schema, order)
                    like = [float(x) for x in j.likelihood([list(r) for r in order])]
                    enc = [int(x) for x in j.encode([list(r) for r in order])]
                if base is None:
                    continue
                for label, kw, obj in self.containers(schema, order):
                    case = {'schema': schema, 'rows': order, 'container': label}
                    with rec.guard(case):
                        before = self.copy(obj)
                        m = self.fit(schema, kw, obj)
                        rec.transitions += 1
                        rec.check(self.same(obj, before), 'changed', case)
                        rec.check(m == j and self.content(m) == base, 'model', case)
                        if kw != 'columns':
                            got = [float(x) for x in m.likelihood(obj)]
                            rec.check(got == like and self.same(obj, before), 'likelihood', case, lambda: (got, like))
                            got2 = [int(x) for x in m.encode(obj)]
                            rec.check(got2 == enc and self.same(obj, before), 'encode', case, lambda: (got2, enc))
                        rec.validated += 1
                # the columns of a frame in another order
                f = self.frame(schema, order)
                for perm in itertools.permutations(names):
                    if list(perm) == names:
                        continue
                    case = {'schema': schema, 'rows': order, 'columns': perm}
                    with rec.guard(case):
                        rec.transitions += 1
                        try:
                            m = self.fit(schema, 'data', f[list(perm)])
                        except ValueError:
                            continue
                        rec.check(m == j and self.content(m) == base, 'column-order', case)

    def encoding(self, rec, case, j, schema, rows):
        """What the model says about single columns is what the table says."""
        n = len(rows)
        for k, (name, kind, alpha) in enumerate(tr.SCHEMAS[schema]):
            col = [r[k] for r in rows]
            v = j.varnames[name]
            if kind in ('num', 'scaled'):
                lo, hi = min(col), max(col)
                eps = 1e-6
                p = j.infer({name: self.iv.ContinuousSet(lo - eps, hi + eps)})
                rec.check(abs(p - 1) < 1e-9, 'support', {**case, 'variable': name}, lambda: p)
                if lo < hi:
                    q = j.infer({name: self.iv.ContinuousSet(lo + (hi - lo) * .05, hi + 1)}), j.infer({name: self.iv.ContinuousSet(lo - 1, hi - (hi - lo) * .05)})
                    rec.check(max(q) < 1, 'support', {**case, 'variable': name}, lambda: q)
            else:
                for x in alpha:
                    got = j.infer({name: x})
                    rec.check(abs(got - col.count(x) / n) < 1e-9, 'frequency', {**case, 'variable': name, 'value': x}, lambda: (got, col.count(x) / n))
                    got2 = j.priors[v].p(x)
                    rec.check(abs(got2 - col.count(x) / n) < 1e-9, 'prior', {**case, 'variable': name, 'value': x}, lambda: got2)

    # ------------------------------------------------------------------------------------------------------------------
    def refused(self, rec, case, f):
        rec.transitions += 1
        try:
            j = f()
        except (ValueError, KeyError, TypeError, IndexError):
            return True
        rec.check(False, 'accepted', case, lambda: str(j))

    def job_foreign(self, rec, schema, part, parts, t):
        np, pd = self.np, self.pd
        kinds = [k for _, k, _ in tr.SCHEMAS[schema]]
        foreign = {'num': [float('nan'), INF, -INF, 'a', None], 'scaled': [float('nan'), INF, -INF, 'a', None], 'sym': ['zz', None, 7, float('nan'), '', 'A', 'a '],
                   'int': [99, -99, 0.5, 'a', None, float('nan')], 'bool': ['True', 2, None, 'yes', .5]}
        tables = [[c[i % len(c)] if i else c[0] for i in range(2)] for c in [tr.cells(schema)]] + [tr.cells(schema)[:3], tr.cells(schema)[-3:], tr.cells(schema)[1::2][:3]]
        no = -1
        for table in tables:
            n = len(table)
            for r, k in itertools.product(range(n), range(len(kinds))):
                no += 1
                if no % parts != part:
                    continue
                for x in foreign[kinds[k]]:
                    rows = [list(row) for row in table]
                    rows[r][k] = x
                    case = {'schema': schema, 'rows': rows}
                    rec.state(case)
                    cols = [list(c) for c in zip(*rows)]
                    obj = np.empty((n, len(kinds)), dtype=object)
                    for i, j in itertools.product(range(n), range(len(kinds))):
                        obj[i, j] = rows[i][j]
                    frame = pd.DataFrame({name: pd.Series([row[c] for row in rows], dtype=object) for c, (name, _, _) in enumerate(tr.SCHEMAS[schema])})
                    forms = [('rows', 'rows', rows), ('columns', 'columns', cols), ('array', 'data', obj), ('frame', 'data', frame)]
                    try:
                        forms.append(('typed frame', 'data', pd.DataFrame({name: [row[c] for row in rows] for c, (name, _, _) in enumerate(tr.SCHEMAS[schema])})))
                    except Exception:
                        pass
                    for label, kw, o in forms:
                        c = {**case, 'container': label}
                        with rec.guard(c):
                            before = self.copy(o)
                            self.refused(rec, c, lambda: self.fit(schema, kw, o))
                            rec.check(str(o) == str(before), 'changed', c)
                            # the refusal leaves a model usable
                            m = self.JPT(tr.variables(schema), min_samples_leaf=1)
                            try:
                                m.fit(**{kw: o})
                            except Exception:
                                pass
                            m.fit(rows=[list(row) for row in table])
                            rec.check(m == self.fit(schema, 'rows', [list(row) for row in table]), 'unusable', c)
        # malformed tables
        table = [list(r) for r in tables[0]]
        ncol = len(kinds)
        malformed = [('empty rows', 'rows', []), ('empty data', 'data', []), ('empty columns', 'columns', []), ('no rows', 'columns', [[] for _ in kinds]),
                     ('missing column', 'rows', [r[:-1] for r in table]), ('extra column', 'rows', [r + [0.] for r in table]),
                     ('missing columns', 'columns', [list(c) for c in zip(*table)][:-1]), ('extra columns', 'columns', [list(c) for c in zip(*table)] + [[0.] * len(table)]),
                     ('ragged rows', 'rows', [table[0], table[1][:-1]]), ('ragged rows 2', 'rows', [table[0], table[1] + [1.]]),
                     ('uneven columns', 'columns', [list(c)[:1 if k else None] for k, c in enumerate(zip(*table))]),
                     ('uneven columns 2', 'columns', [list(c)[:None if k else 1] for k, c in enumerate(zip(*table))]),
                     ('narrow array', 'data', np.array([r[:-1] for r in table], dtype=object)), ('wide array', 'data', np.array([r + [0.] for r in table], dtype=object)),
                     ('empty frame', 'data', self.frame(schema, [])), ('frame with missing column', 'data', self.frame(schema, table).iloc[:, :-1]),
                     ('frame with extra column', 'data', self.frame(schema, table).assign(extra=1.)),
                     ('frame with renamed column', 'data', self.frame(schema, table).rename(columns={tr.SCHEMAS[schema][0][0]: 'other'}))]
        for label, kw, o in malformed if part == 0 else ():
            c = {'schema': schema, 'malformed': label}
            with rec.guard(c):
                self.refused(rec, c, lambda: self.fit(schema, kw, o))
        if part == 0:
            c = {'schema': schema, 'malformed': 'both rows and data'}
            with rec.guard(c):
                self.refused(rec, c, lambda: self.JPT(tr.variables(schema)).fit(data=table, rows=table))
                self.refused(rec, {**c, 'malformed': 'nothing'}, lambda: self.JPT(tr.variables(schema)).fit())

    # ------------------------------------------------------------------------------------------------------------------
    def job_infer(self, rec, part, parts, t):
        np, pd = self.np, self.pd
        from jpt.variables import infer_from_dataframe, NumericVariable, SymbolicVariable, IntegerVariable
        from jpt.distributions import SymbolicType, NumericType, IntegerType, Bool, Numeric
        columns = {'floats': pd.Series([0., 2.5, 1., 2.5]), 'one float': pd.Series([3., 3., 3., 3.]), 'float32': pd.Series([.5, .25, .25, -1.], dtype=np.float32),
                   'ints': pd.Series([3, 1, 7, 3]), 'int32': pd.Series([-2, 0, 0, 5], dtype=np.int32), 'one int': pd.Series([4, 4, 4, 4]),
                   'strings': pd.Series(['b', 'a', 'b', 'c']), 'one string': pd.Series(['q'] * 4), 'bools': pd.Series([True, False, True, True]),
                   'mixed': pd.Series(['a', 1, 'b', 1], dtype=object), 'all true': pd.Series([True] * 4)}
        settings = [dict(scale_numeric_types=s, min_impurity_improvement=m, blur=b, max_std=d, precision=p)
                    for s in (True, False) for m in (None, .25) for b in (None, .125) for d in (None, .5) for p in (None, .0625)]
        no = -1
        names = list(columns)
        combos = [(a,) for a in names] + list(itertools.permutations(names, 2))
        for combo in combos:
            for st in settings if len(combo) == 1 or t else settings[::9]:
                no += 1
                if no % parts != part:
                    continue
                case = {'columns': combo, **st}
                with rec.guard(case):
                    rec.state(case)
                    df = pd.DataFrame({'c%d' % k: columns[a] for k, a in enumerate(combo)})
                    before = df.copy()
                    vs = infer_from_dataframe(df, **st)
                    rec.transitions += 1
                    rec.check(self.same(df, before), 'changed', case)
                    rec.check([v.name for v in vs] == list(df.columns), 'names', case, lambda: [v.name for v in vs])
                    for v, a in zip(vs, combo):
                        self.inferred(rec, {**case, 'column': a}, v, columns[a], st)
                    j = self.JPT(vs, min_samples_leaf=1).fit(df)
                    for k, (v, a) in enumerate(zip(vs, combo)):
                        col = list(columns[a])
                        if not v.numeric:
                            got = {x: j.infer({v.name: x}) for x in set(col)}
                            rec.check(all(abs(p - col.count(x) / len(col)) < 1e-9 for x, p in got.items()), 'learned', {**case, 'column': a}, lambda: got)
                    again = infer_from_dataframe(df, **st)
                    rec.check(again == vs, 'repeatable', case)
                    u1, u2 = infer_from_dataframe(df, unique_domain_names=True, **st), infer_from_dataframe(df, unique_domain_names=True, **st)
                    for v, w, a in zip(u1, u2, combo):
                        if 'bool' in a or 'all true' == a or not st['scale_numeric_types'] and v.numeric:
                            continue
                        rec.check(v.domain.__name__ != w.domain.__name__, 'unique', {**case, 'column': a}, lambda: v.domain.__name__)
                        self.inferred(rec, {**case, 'column': a, 'unique': True}, v, columns[a], st)
                    rec.validated += 1
        # user-given domains
        own = {'floats': NumericType('own', [0., 1., 9.]), 'ints': IntegerType('own_i', 0, 9), 'strings': SymbolicType('own_s', ['c', 'b', 'a', 'z'])}
        for chosen in itertools.chain.from_iterable(itertools.combinations(own, k) for k in range(4)) if part == 0 else ():
            case = {'own domains': chosen}
            with rec.guard(case):
                df = pd.DataFrame({a: columns[a] for a in own})
                vs = infer_from_dataframe(df, excluded_columns={a: own[a] for a in chosen})
                for v, a in zip(vs, own):
                    if a in chosen:
                        rec.check(v.domain is own[a], 'own', {**case, 'column': a})
                    else:
                        self.inferred(rec, {**case, 'column': a}, v, columns[a], dict(scale_numeric_types=True))
                self.JPT(vs).fit(df)
        # missing values in numeric columns
        nan = float('nan')
        for vals in itertools.product((0., 2., 5., nan, INF, -INF), repeat=3 + t) if part == 1 else ():
            finite = [x for x in vals if math.isfinite(x)]
            if not finite:
                continue
            case = {'values': [str(x) for x in vals]}
            with rec.guard(case):
                rec.transitions += 1
                df = pd.DataFrame({'floats': list(vals), 's': ['a'] * len(vals)})
                v = infer_from_dataframe(df, remove_nan=True)[0]
                self.inferred(rec, case, v, pd.Series(finite), dict(scale_numeric_types=True))
                try:
                    w = infer_from_dataframe(df)[0]
                except ValueError:
                    rec.check(len(finite) < len(vals), 'refused', case)
                else:
                    rec.check(len(finite) == len(vals), 'accepted', case)
                rec.check(str(df) == str(pd.DataFrame({'floats': list(vals), 's': ['a'] * len(vals)})), 'changed', case)
        # other column types are refused
        for label, s in {'dates': pd.Series(pd.to_datetime(['2020-01-01', '2021-01-01'])), 'complex': pd.Series([1j, 2j]), 'durations': pd.Series(pd.to_timedelta([1, 2]))}.items() if part == 2 else ():
            case = {'column': label}
            with rec.guard(case):
                self.refused(rec, case, lambda: infer_from_dataframe(pd.DataFrame({'a': s})))

    def inferred(self, rec, case, v, col, st):
        from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable
        from jpt.distributions import Bool, Numeric
        np = self.np
        vals = col.tolist()
        want = {'f': NumericVariable, 'i': IntegerVariable}.get(col.dtype.kind, SymbolicVariable)
        if not rec.check(type(v) is want, 'type', case, lambda: type(v).__name__):
            return
        mi = st.get('min_impurity_improvement')
        rec.check((v.min_impurity_improvement or 0) == (mi or 0), 'setting', case, lambda: v.settings)
        if want is NumericVariable:
            for k, a, default in (('blur', 'blur', 0), ('max_std', 'max_std', 0), ('precision', 'precision', .01)):
                x = st.get(k)
                rec.check(getattr(v, a) == (default if x is None else x), 'setting', {**case, 'setting': k}, lambda: v.settings)
            d = v.distribution()
            rec.check(d.precision == (.01 if st.get('precision') is None else st['precision']), 'distribution-setting', case, lambda: d.settings)
            if not st['scale_numeric_types']:
                rec.check(v.domain is Numeric, 'scaled', case, lambda: v.domain)
                return
            u = sorted(set(vals))
            mean = math.fsum(u) / len(u)
            std = math.sqrt(math.fsum((x - mean) ** 2 for x in u) / len(u)) or 1
            bad = [(x, v.domain.values[x], (x - mean) / std) for x in u if abs(v.domain.values[x] - (x - mean) / std) > 1e-5 * max(1, abs(x))]
            rec.check(not bad, 'scale', case, lambda: bad)
            bad = [(x, v.domain.labels[v.domain.values[x]]) for x in u if abs(v.domain.labels[v.domain.values[x]] - x) > 1e-9 * max(1, abs(x))]
            rec.check(not bad, 'labels', case, lambda: bad)
        elif want is IntegerVariable:
            labels = list(v.domain.labels.values())
            rec.check(labels == list(range(min(vals), max(vals) + 1)), 'labels', case, lambda: labels)
        elif col.dtype == bool:
            rec.check(v.domain is Bool, 'labels', case, lambda: v.domain)
        else:
            labels = list(v.domain.labels.values())
            rec.check(len(labels) == len(set(labels)) and set(labels) == set(vals), 'labels', case, lambda: labels)


CHECK = Check()
