"""C29: textual descriptions of restrictions, regions and refused evidence."""
import itertools
import math
import re

from vlib import distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC
from checks.c13 import Check as Base

NUM = r'(-?(?:\d+(?:\.\d+)?(?:e[+-]?\d+)?|∞|inf))'


class Text:
    """Reads a description back: name -> predicate-like description in the terms of the labels."""

    def __init__(self, domains):
        self.domains = domains                     # name -> None (numeric) or list of labels

    def conjunction(self, s):
        """name -> list of interval tuples / set of labels; every variable may be restricted several times."""
        out = {}
        if not s:
            return out
        for part in s.split(' ^ '):
            name, ev = self.disjunction(part)
            if name in out:
                ev = tr.meets(out[name], ev) if isinstance(ev, list) else out[name] & ev
            out[name] = ev
        return out

    def disjunction(self, s):
        name, ev = None, None
        for part in s.split(' v '):
            n, e = self.atom(part)
            assert name in (None, n), s
            name = n
            ev = e if ev is None else ev + e if isinstance(e, list) else ev | e
        return name, ev

    def atom(self, s):
        m = re.fullmatch(r'(\w+) = (.*)', s)
        if m and m.group(1) in self.domains:
            return m.group(1), self.value(m.group(1), m.group(2))
        m = re.fullmatch(r'(\w+) ∈ (.*)', s)
        if m and m.group(1) in self.domains:
            name, body = m.groups()
            return name, self.set(name, body)
        m = re.fullmatch(r'(?:%s (≤|<) )?(\w+)(?: (≤|<) %s)?' % (NUM, NUM), s)
        assert m and self.domains.get(m.group(3), 0) is None, 'cannot read %r' % s
        lo, l, name, r, up = m.groups()
        return name, [(self.number(lo) if lo else -INF, self.number(up) if up else INF, INC if l == '≤' else EXC, INC if r == '≤' else EXC)]

    def number(self, s):
        return float(s.replace('∞', 'inf'))

    def value(self, name, s):
        if self.domains[name] is None:
            return [(self.number(s), self.number(s), INC, INC)]
        found = [v for v in self.domains[name] if str(v) == s]
        assert len(found) == 1, 'no label %r of %s' % (s, name)
        return {found[0]}

    def set(self, name, s):
        if self.domains[name] is not None:
            assert s[0] == '{' and s[-1] == '}', s
            return self.labels(name, s[1:-1])
        return self.intervals(s)

    def intervals(self, s):
        out = []
        if s == '∅':
            return out
        for p in s.split(' ∪ '):
            m = re.fullmatch(r'\{%s\}' % NUM, p)
            if m:
                out.append((self.number(m.group(1)),) * 2 + (INC, INC))
                continue
            m = re.fullmatch(r'([\[\](])%s,%s([\[\])])' % (NUM, NUM), p)
            assert m, 'cannot read %r' % s
            a, lo, up, b = m.groups()
            out.append((self.number(lo), self.number(up), INC if a == '[' else EXC, INC if b == ']' else EXC))
        return out

    def labels(self, name, s):
        out = set()
        for p in s.split(', '):
            m = re.fullmatch(r'(-?\d+)\.\.\.(-?\d+)', p)
            if m:
                out |= set(range(int(m.group(1)), int(m.group(2)) + 1))
                assert out <= set(self.domains[name]), s
            else:
                out |= self.value(name, p)
        return out

    def edge(self, name, s):
        """The label of an edge of the tree."""
        if self.domains[name] is None:
            n, ev = self.disjunction(s)
            assert n == name, s
            return ev
        if s.startswith('¬'):
            return set(self.domains[name]) - self.value(name, s[1:])
        return self.labels(name, s)


class Check(Base):
    pid = 'C29'
    level = 'model_checking'
    technique = ('exhaustive enumeration of restrictions of variables of all types and domains, of learned models and of impossible evidence on the real code; every text is read back '
                 'by an independent reader and compared with the region it describes, and paths with the worlds the model itself assigns to the leaf')
    note = 'Both notations; single values, intervals, unions, value sets, ranges of integers; edges, node texts, paths and error messages; scaled domains and integer domains not starting at 0.'
    space = ('all non-empty restrictions over 4 end points and all unions of two intervals, all value sets of domains of up to 5 values; all models over multisets of up to 3 rows of nine schemas and 64 '
             'deep pattern trees; all worlds on a grid; about 100 pieces of evidence per model')
    assumptions = ['numbers are printed with three decimals in the logical notation', 'the words are read as: ^ separates variables, v separates the alternatives of one variable']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['numeric', k, 4, t] for k in range(4)] + [['integer', t], ['symbolic', t]]
        for schema, nmax, parts in [('xs', 3, 3), ('x', 4, 3), ('xy', 3, 3), ('xi', 3, 3), ('si', 3, 3), ('xsi', 3, 4), ('bx', 3, 2), ('zs', 3, 3), ('sx', 3, 3)]:
            if t:
                nmax, parts = nmax + 1, parts * 5
            out += [['data', schema, nmax, k, parts, t] for k in range(parts)]
        out += [['patterns', k, 4, t] for k in range(4)]
        out += [['distributions', t], ['functions', t]]
        return out

    # ---- single restrictions -------------------------------------------------------------------------------------
    def same(self, a, b, tol):
        """Same sets of reals up to the rounding of the end points."""
        if isinstance(a, list):
            a, b = dm.disjoint(a), dm.disjoint(b)
            eq = lambda x, y: x == y or math.isfinite(x) and math.isfinite(y) and abs(x - y) <= tol
            return len(a) == len(b) and all(eq(x[0], y[0]) and eq(x[1], y[1]) and (math.isinf(x[0]) or x[2] == y[2]) and (math.isinf(x[1]) or x[3] == y[3]) for x, y in zip(a, b))
        return a == b

    def text(self, rec, case, v, domain, value, want, fmts=('set', 'logic')):
        """One restriction in both notations."""
        for fmt in fmts:
            with rec.guard(case + [fmt]):
                s = v.str(value, fmt=fmt)
                rec.state((case, fmt))
                rec.transitions += 1
                rec.validated += 1
                rec.outcome(fmt)
                name, got = Text({v.name: domain}).disjunction(s)
                rec.check(name == v.name and self.same(got, want, 6e-4 if fmt == 'logic' else 1e-9), 'restriction', case + [fmt], lambda: (s, want))

    def job_numeric(self, rec, part, parts, t):
        from jpt.variables import NumericVariable
        from jpt.distributions import NumericType, Numeric
        iv = self.iv
        pts = [0., 1., 2., 4.]
        doms = [Numeric, NumericType('A', [0., 1., 2., 4.]), NumericType('B', [-10., 30., 500.]), NumericType('C', [5., 5.5])]
        ints = [(a, b, l, r) for a, b in itertools.combinations([-INF] + pts + [INF], 2) for l, r in itertools.product((EXC, INC), repeat=2)
                if not (a == -INF and l == INC or b == INF and r == INC)] + [(a, a, INC, INC) for a in pts]
        for no, dom in enumerate(doms):
            v = NumericVariable('feat', dom)
            f = lambda x: x if math.isinf(x) else float(dom.values[x])
            cs = lambda i: iv.ContinuousSet(f(i[0]), f(i[1]), i[2], i[3])
            for n, i in enumerate(ints):
                if n % parts != part:
                    continue
                rec.tick([no, i])
                self.text(rec, [no, i], v, None, cs(i), [i])
                self.text(rec, [no, i, 'union'], v, None, iv.RealSet([cs(i)]), [i])
                if i[2] == i[3] == INC:
                    self.text(rec, [no, i, 'list'], v, None, [f(i[0]), f(i[1])], [i])
                    self.text(rec, [no, i, 'set of tuples'], v, None, {(f(i[0]), f(i[1]))}, [i])
                    if i[0] == i[1]:
                        self.text(rec, [no, i, 'value'], v, None, f(i[0]), [i])
                        self.text(rec, [no, i, 'set'], v, None, {f(i[0])}, [i])
                for k in ints:
                    if k <= i and not t and k[2:] == i[2:]:
                        continue
                    self.text(rec, [no, i, k], v, None, iv.RealSet([cs(i), cs(k)]), [i, k])
            for k in range(1, len(pts) + 1):
                for c in itertools.combinations(pts, k):
                    self.text(rec, [no, c], v, None, {f(x) for x in c}, [(x, x, INC, INC) for x in c])

    def discrete(self, rec, key, v, labels):
        for k in range(1, len(labels) + 1):
            for c in itertools.combinations(labels, k):
                rec.tick([key, c])
                val = {v.domain.values[l] for l in c}
                self.text(rec, [key, c], v, labels, val, set(c))
                self.text(rec, [key, c, 'numpy'], v, labels, {self.np.int64(x) for x in val}, set(c))
                if k == 1:
                    self.text(rec, [key, c, 'value'], v, labels, v.domain.values[c[0]], set(c))

    def job_integer(self, rec, t):
        import numpy as np
        from jpt.variables import IntegerVariable
        from jpt.distributions import IntegerType
        self.np = np
        for lo, hi in [(0, 0), (0, 3), (1, 4), (-2, 2), (-5, -2), (8, 12), (98, 102)] + ([(a, a + 6) for a in range(-7, 4)] if t else []):
            v = IntegerVariable('feat', IntegerType('I29', lo, hi))
            self.discrete(rec, [lo, hi], v, list(range(lo, hi + 1)))

    def job_symbolic(self, rec, t):
        import numpy as np
        from jpt.variables import SymbolicVariable
        from jpt.distributions import SymbolicType, Bool
        self.np = np
        for labels in (['a'], ['b', 'a'], ['c', 'a', 'b'], ['d', 'b', 'c', 'a'], [3, 1, 2], [1.5, .5], ['1', '0', '2'], ['x y', 'p-q', 'r_s'], [20, 10, 40, 30, 0]):
            v = SymbolicVariable('feat', SymbolicType('S29', labels))
            self.discrete(rec, labels, v, labels)
        v = SymbolicVariable('feat', Bool)
        self.discrete(rec, 'bool', v, [False, True])

    # ---- distributions and functions -----------------------------------------------------------------------------
    def probabilities(self, rec, case, text, labels, probs):
        """The labels are named in order, each along with its probability."""
        rec.state(text)
        rec.transitions += 1
        rec.validated += 1
        pos, got = 0, []
        for l in labels:
            m = re.compile(r'(?<![\w.-])%s\s*[=:]\s*([\d.]+)' % re.escape(str(l))).search(text, pos)
            if not rec.check(m is not None, 'label-missing', case, lambda: (l, text)):
                return
            pos = m.end()
            got.append(float(m.group(1)))
        rec.check(all(abs(g - p) <= 6e-4 for g, p in zip(got, probs)), 'label-probability', case, lambda: (text, probs))
        rec.outcome('distribution')

    def job_distributions(self, rec, t):
        from jpt.distributions import SymbolicType, IntegerType, NumericType, Numeric, Bool
        from vlib import corpus as cp
        kinds = [(SymbolicType('S29', l), l) for l in (['a'], ['b', 'a'], ['c', 'a', 'b'], ['d', 'b', 'c', 'a'], [30, 10, 20])]
        kinds += [(Bool, [False, True])]
        kinds += [(IntegerType('I29', a, b), list(range(a, b + 1))) for a, b in ((0, 0), (0, 2), (1, 4), (-2, 1), (9, 11))]
        for T, labels in kinds:
            for p in cp.vectors(len(labels), [0, 1, 2, 5] if len(labels) < 4 or t else [0, 1, 3]):
                for f in (str, repr):
                    case = ['distribution', T.__name__, [str(l) for l in labels], list(p), f.__name__]
                    rec.tick(case)
                    with rec.guard(case):
                        d = T().set(list(p))
                        text = f(d)
                        self.probabilities(rec, case, text, labels, p)
                        rec.check(T.__name__ in text, 'type-name', case, lambda: text)
            # unknown labels are named
            wrong = [x for x in (99, 'zz', -77)][:2 if isinstance(labels[0], int) else 3]
            for w in wrong:
                for c in [w, [w], (w,), {w}] + [[l, w] for l in labels] + [[w, l] for l in labels] + [(l, w) for l in labels] + [{l, w} for l in labels]:
                    case = ['unknown', T.__name__, [str(l) for l in labels], str(c)]
                    if isinstance(c, str) and T in [k for k, _ in kinds[6:]]:
                        continue                                            # a text is no label of an integer domain
                    with rec.guard(case):
                        rec.transitions += 1
                        try:
                            r = T.label2value(c)
                        except ValueError as x:
                            rec.check(str(w) in str(x) and T.__name__ in str(x), 'unknown-label', case, lambda: str(x))
                            rec.outcome('unknown label')
                        else:
                            rec.check(False, 'unknown-label-accepted', case, lambda: r)
        # the description of a symbolic domain
        for n in range(1, 9):
            labels = ['l%d' % (7 * i % n) if n > 1 and n != 7 else 'l%d' % i for i in range(n)]
            T = SymbolicType('S29', labels)
            for limit in range(1, 10):
                for kind, items in (('labels', labels), ('values', [str(i) for i in range(n)])):
                    case = ['domain', n, limit, kind]
                    with rec.guard(case):
                        rec.transitions += 1
                        text = T.pfmt(max_values=limit, labels_or_values=kind)
                        m = re.fullmatch(r'S29 = \{(.*)\}', text)
                        if not rec.check(m is not None, 'domain', case, lambda: text):
                            continue
                        parts = m.group(1).split(', ')
                        if n <= limit:
                            rec.check(parts == items, 'domain', case, lambda: text)
                        else:
                            i = parts.index('...')
                            tail = parts[i + 1:]
                            rec.check(parts[:i] == items[:i] and tail == (items[-len(tail):] if tail else []) and len(parts) - 1 <= max(limit, 1), 'domain', case, lambda: text)
        # distributions without parameters
        for T in [T for T, _ in kinds] + [Numeric, NumericType('N29', [1., 2., 4.])]:
            with rec.guard(['no parameters', T.__name__]):
                rec.transitions += 1
                d = T()
                rec.check(T.__name__ in str(d) and 'n/a' in str(d) and repr(d), 'no-parameters', T.__name__, lambda: str(d))
                c = d.copy()
                rec.check(type(c) is T and c == d and str(c) == str(d), 'no-parameters-copy', T.__name__, lambda: str(c))

    def job_functions(self, rec, t):
        """Functions are built from their printed form, the pieces in any order."""
        from jpt.base import functions as fn
        iv = self.iv
        vals = [0., 1., -1., 2.5, -.125, 1e-5, -3e-7, 1e20, 1 / 3]
        fs = [fn.Undefined()] + [fn.ConstantFunction(c) for c in vals] + [fn.LinearFunction(m, c) for m in vals if m for c in vals]
        for n, f in enumerate(fs):
            case = ['function', str(f)]
            rec.tick(case)
            with rec.guard(case):
                rec.transitions += 1
                rec.validated += 1
                rec.state(str(f))
                g = fn.LinearFunction.parse(str(f))
                rec.check(type(g) is type(f) and g == f, 'function', case, lambda: repr(g))
                for x in (-2., 0., .3, 7.):
                    a, b = f.eval(x), g.eval(x)
                    rec.check(a == b or math.isnan(a) and math.isnan(b), 'function-value', case + [x], lambda: (a, b))
        # hinges and jumps: the printed formula has their values
        for k, w, alpha in itertools.product([-1.5, 0., 2.], [1., -2., .125], (1, -1)):
            for kind, f in (('hinge', fn.Hinge(k, alpha, w)), ('jump', fn.Jump(k, alpha, w)), ('impulse', fn.Impulse(k, w))):
                case = [kind, k, alpha, w, str(f)]
                with rec.guard(case):
                    rec.transitions += 1
                    rec.validated += 1
                    num = r'(-?[\d.]+)'
                    if kind == 'impulse':
                        m = re.fullmatch(num + ' if x=' + num + ' else 0', str(f))
                        shown = lambda x: float(m.group(1)) if x == float(m.group(2)) else 0
                    else:
                        m = re.fullmatch(num + r' \* max\(0, (?:(sgn)\()?(x|%s) - (x|%s)\)?\)' % (num, num), str(f))
                        side = lambda s, x: x if s == 'x' else float(s)
                        def shown(x):
                            y = side(m.group(3), x) - side(m.group(5), x)
                            return float(m.group(1)) * max(0, y if kind == 'hinge' else (y > 0) - (y < 0))
                    if not rec.check(m is not None, 'knot-text', case):
                        continue
                    for x in (k - 2, k - .25, k + .5, k + 3) + ((k,) if kind != 'jump' else ()):
                        rec.check(abs(f.eval(x) - shown(x)) < 1e-9, 'knot-value', case + [x], lambda: (f.eval(x), shown(x)))
        cuts = [0., .1234567891, 2.]
        pieces = [fn.Undefined(), fn.ConstantFunction(.7), fn.LinearFunction(2., -1 / 3)]
        for lefts in itertools.product((INC, EXC), repeat=2):
            first = (-INF, cuts[0], EXC, INC + EXC - lefts[0])
            for point in (False, True):
                second = (cuts[0], cuts[2], lefts[0], INC + EXC - lefts[1])
                ts = [first, second, (cuts[2], INF, lefts[1], EXC)]
                if point:
                    if lefts[0] != EXC:
                        continue
                    ts = [(-INF, cuts[0], EXC, EXC), (cuts[0], cuts[0], INC, INC)] + ts[1:]
                for gs in itertools.product(pieces, repeat=len(ts)):
                    for perm in itertools.permutations(range(len(ts))):
                        if not t and len(ts) == 4 and perm[0] and perm[-1]:
                            continue
                        case = ['pieces', ts, [str(g) for g in gs], perm]
                        with rec.guard(case):
                            rec.transitions += 1
                            d = {str(iv.ContinuousSet(*ts[i])): str(gs[i]) for i in perm}
                            f = fn.PiecewiseFunction.from_dict(d)
                            rec.state(f.pfmt())
                            for x in (-5., 0., 1e-9, -1e-9, 1., 2., 2.0000001, 9.):
                                k = [i for i, u in enumerate(ts) if dm.inside(x, u)][0]
                                a, b = f.eval(x), gs[k].eval(x)
                                rec.check(a == b or math.isnan(a) and math.isnan(b), 'pieces', case + [x], lambda: (a, b, f.pfmt()))
                            lines = f.pfmt().split('\n')
                            rec.check(len(lines) == len(ts) and all(str(iv.ContinuousSet(*u)) in l and str(g) in l for l, u, g in zip(lines, ts, gs)), 'pieces-text', case, lambda: f.pfmt())

    # ---- models ----------------------------------------------------------------------------------------------------
    def domains(self, j):
        return {v.name: None if v.numeric else list(v.domain.labels.values()) for v in j.variables}

    def worlds(self, schema, j):
        axes = []
        for v, (n, kind, a) in zip(j.variables, tr.SCHEMAS[schema]):
            if v.numeric:
                axes.append(sorted({a[0] - 1, a[-1] + 1} | set(a) | {x + (y - x) / 3 for x, y in zip(a, a[1:])}))
            else:
                axes.append(list(v.domain.labels.values()))
        for w in itertools.product(*axes):
            yield {v.name: x for v, x in zip(j.variables, w)}

    def admits(self, ev, x):
        return any(dm.inside(x, t) for t in ev) if isinstance(ev, list) else x in ev

    def region(self, v, val):
        """Region of a split in the terms of the labels."""
        if v.numeric:
            f = lambda x: x if math.isinf(x) else float(v.domain.labels[x])
            return [(f(a), f(b), l, r) for a, b, l, r in tr.tuples(val)]
        return {v.domain.labels[x] for x in val}

    def model(self, rec, key, schema, j, evidence):
        reader = Text(self.domains(j))
        rec.state((schema, str(j)))
        shown = str(j)
        texts = {}
        for idx, leaf in j.leaves.items():
            with rec.guard([key, idx]):
                s = leaf.format_path()
                rec.transitions += 1
                rec.validated += 1
                texts[idx] = reader.conjunction(s)
                s2 = leaf.format_path and ' ^ '.join(v.str(val, fmt='set') for v, val in leaf.path.items())
                other = reader.conjunction(s2)
                rec.check(set(other) == set(texts[idx]) and all(self.same(other[n], texts[idx][n], 6e-4) for n in other), 'notations', [key, idx], lambda: (s, s2))
                rec.check('#%s' % idx in shown, 'leaf-shown', [key, idx], lambda: shown)
        for w in self.worlds(schema, j):
            with rec.guard([key, w]):
                rec.transitions += 1
                got = sorted(l.idx for l in j.apply(dict(w)))
                want = sorted(i for i, t in texts.items() if all(self.admits(ev, w[n]) for n, ev in t.items()))
                rec.outcome('world in %d' % len(got))
                rec.check(got == want, 'path', [key, w], lambda: (got, want, texts))
        self.nodes(rec, key, j, reader)
        for k, e in enumerate(evidence):
            self.message(rec, [key, tr.show(e)], j, reader, e, k)

    def nodes(self, rec, key, j, reader):
        """Edges and node texts."""
        shown = str(j)
        for idx, node in j.innernodes.items():
            with rec.guard([key, 'node', idx]):
                rec.transitions += 1
                text = str(node)
                for i, split in enumerate(node.splits):
                    s = node.str_edge(i)
                    rec.check(self.same(reader.edge(node.variable.name, s), self.region(node.variable, split), 6e-4), 'edge', [key, idx, i], lambda: (s, split))
                    rec.check(s in text and text in shown, 'node', [key, idx, i], lambda: (s, text, shown))
                rec.check(node.str_node == node.variable.name, 'node-name', [key, idx], lambda: node.str_node)

    def message(self, rec, case, j, reader, e, k):
        """The evidence a query is refused with."""
        if not all(e.values()):
            return
        query = lambda: self.query(j, e)
        q = {j.variables[0].name: self.query(j, {j.variables[0].name: self.whole(j.variables[0])})[j.variables[0].name]}
        kinds = [lambda: j.infer(q, query()), lambda: j.posterior(None, query()), lambda: j.expectation(None, query()), lambda: j.conditional_jpt(query()),
                 lambda: j.mpe(query()), lambda: list(j.kmpe(query(), k=2)), lambda: j.moment(1, None, j.bind(query())),
                 lambda: j.infer(q, j.bind(query()).value_assignment()), lambda: j.posterior(None, j.bind(query()).value_assignment()),
                 lambda: j.conditional_jpt(j.bind(query()).value_assignment())]
        for n, f in enumerate(kinds):
            with rec.guard(case + [n]):
                rec.transitions += 1
                try:
                    f()
                    rec.outcome('answered')
                    if n == 0:
                        return
                    continue
                except (self.Unsat, ValueError) as x:
                    s = str(x)
                rec.validated += 1
                rec.outcome('refused')
                m = re.fullmatch(r'Query is unsatisfiable: P\((.*)\) is 0\.', s) or re.fullmatch(r'Evidence (.*) is unsatisfiable\.', s)
                if not m:
                    rec.outcome('other message')      # does not name the evidence
                    continue
                got = reader.conjunction(m.group(1))
                want = {v: ev if isinstance(ev, list) else set(ev) for v, ev in e.items()}
                rec.check(set(got) == set(want) and all(self.same(got[v], want[v], 6e-4) for v in want), 'message', case + [n], lambda: (s, want))

    def whole(self, v):
        return [(-1e9, 1e9, INC, INC)] if v.numeric else frozenset(v.domain.labels.values())

    def job_data(self, rec, schema, nmax, part, parts, full=False):
        for k, rows in tr.datasets(schema, 1, nmax, part, parts):
            n = k // parts
            if not full and len(rows) == nmax and n % 2 and len(tr.SCHEMAS[schema]) > 1:
                continue
            key = [schema, [list(r) for r in rows]]
            rec.tick(key)
            j = tr.fit(schema, rows, min_samples_leaf=1)
            evs = list(self.evidence(schema, j, False)) if n % 6 == 0 or full else ()
            self.model(rec, key, schema, j, evs)
            if len(j.leaves) > 1 and (n % 4 == 0 or full):
                self.derived(rec, key, j)

    def derived(self, rec, key, j):
        """Trees restricted to the region of a leaf, to a single value or value set; copies."""
        reader = Text(self.domains(j))
        evs = []
        for leaf in j.leaves.values():
            for v, val in leaf.path.items():
                evs.append({v.name: self.region(v, val)})
            evs.append({v.name: self.region(v, val) for v, val in leaf.path.items()})
        for v in j.variables:
            if not v.numeric:
                evs += [{v.name: set(c)} for k in range(1, len(v.domain.labels)) for c in itertools.combinations(v.domain.labels.values(), k)][:8]
        seen = []
        for ev in evs:
            if ev in seen:
                continue
            seen.append(ev)
            case = [key, 'conditional', sorted(map(str, ev.items()))]
            with rec.guard(case):
                q = {k: self.iv.RealSet([self.iv.ContinuousSet(*t) for t in v]) if isinstance(v, list) else set(v) for k, v in ev.items()}
                c = j.conditional_jpt(q, fail_on_unsatisfiability=False)
                if c is None:
                    continue
                rec.outcome('conditional')
                for idx, leaf in c.leaves.items():
                    rec.check(leaf.format_path() == j.leaves[idx].format_path(), 'conditional-path', [case, idx], lambda: leaf.format_path())
                self.nodes(rec, case, c, reader)
        with rec.guard([key, 'copy']):
            c = j.copy()
            rec.check(str(c) == str(j), 'copy', key, lambda: (str(c), str(j)))
            self.nodes(rec, [key, 'copy'], c, reader)

    def job_patterns(self, rec, part, parts, t):
        for k, rows in tr.patterns(part, parts, 6):
            key = ['pat', k]
            rec.tick(key)
            j = tr.fit('pat', rows, min_samples_leaf=1)
            self.model(rec, key, 'pat', j, ())
            if k % 4 == 0 or t:
                self.derived(rec, key, j)


CHECK = Check()
