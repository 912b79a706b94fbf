"""C24: priority queue and weighting helpers keep their contracts."""
import copy
import itertools
import math
import re


class Item:
    """Payload without any order, equal only to itself."""
    def __init__(self, k, n):
        self.k, self.n = k, n

    def __repr__(self):
        return '%s.%s' % (self.k, self.n)

    def __deepcopy__(self, memo):
        return self


class Check:
    pid = 'C24'
    level = 'model_checking'
    technique = ('exhaustive exploration of all operation sequences of the real heap up to a bounded depth, from all initial contents over three keys, each state drained and compared with a '
                 'sorted list; all short vectors over a grid of weights; all pairs of bounds; all subsets of small integer ranges')
    note = 'Ties, reverse tie order, key functions, deletions at every position, generators as input; vectors as lists, arrays of several types and dictionaries; refusals.'
    space = ('all heaps of up to 7 initial elements over 3 keys with up to two deletions at all positions, all sequences of 7 (8) operations; all vectors of length up to 4 over 9 weights; '
             'all bounds from a grid of 9; all subsets of nine consecutive integers')
    assumptions = ['iteration over a heap yields its elements in any order']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['initial', how, inc, [n], k, 6 * (1 + t), t] for how in ('data', 'push') for inc in (1, -1) for n in ((7, 8) if t else (7,)) for k in range(6 * (1 + t))]
        out += [['initial', how, inc, list(range(7)), 0, 1, t] for how in ('data', 'push') for inc in (1, -1)]
        out += [['sequences', inc, key, k, 8, 8 if t else 7] for inc in (1, -1) for key in ('plain', 'neg') for k in range(8)]
        out += [['normalized', k, 8, t] for k in range(8)]
        out += [['bounds'], ['intsets', t], ['small', t]]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.base import utils
        self.np, self.u = np, utils
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    KEYS = {'plain': lambda x: x.k, 'neg': lambda x: -x.k}

    def order(self, ref, key, inc):
        f = self.KEYS[key]
        return sorted(ref, key=lambda x: (f(x), inc * x.n))

    def drain(self, h):
        out = []
        h = copy.copy(h)
        h.__dict__ = {k: (list(v) if isinstance(v, list) else copy.copy(v) if isinstance(v, (dict, set)) else v) for k, v in vars(h).items()}
        while h:
            out.append(h.pop())
        return out

    def observe(self, rec, case, h, ref, key, inc, look=True):
        want = self.order(ref, key, inc)
        ok = rec.check(len(h) == len(ref) and bool(h) == bool(ref), 'length', case, lambda: (len(h), len(ref)))
        got = self.drain(h)
        ok &= rec.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'order', case, lambda: (got, want))
        if look:
            it = list(h)
            ok &= rec.check(sorted(map(repr, it)) == sorted(map(repr, ref)) and list(reversed(h)) == it[::-1], 'iteration', case, lambda: (it, ref))
            ok &= rec.check(all(h[h.index(x)] is x for x in ref) and all(h[i] is x for i, x in enumerate(it)), 'lookup', case, lambda: (it, ref))
            if ref:
                ok &= rec.check(h[0] is want[0], 'first', case, lambda: (h[0], want))
            try:
                h.index(Item(0, 99))
                rec.fail('found', case, 'an element that was never added')
            except ValueError:
                pass
            repr(h)
        rec.validated += 1
        return ok

    def job_initial(self, rec, how, inc, sizes, part, parts, t):
        for n in sizes:
            self.initial(rec, how, inc, n, part, parts, t)

    def initial(self, rec, how, inc, n, part, parts, t):
        Heap = self.u.Heap
        for no, keys in enumerate(itertools.product(range(3), repeat=n)):
            if no % parts != part:
                continue
            items = [Item(k, i) for i, k in enumerate(keys)]

            def make():
                if how == 'data':
                    return Heap(data=(list(items), tuple(items), (x for x in items))[no % 3] if items else (None, [])[no % 2], key=self.KEYS['plain'], inc=inc)
                h = Heap(key=self.KEYS['plain'], inc=inc)
                for x in items:
                    h.push(x)
                return h
            case = {'keys': keys, 'how': how, 'tie increment': inc}
            with rec.guard(case):
                h = make()
                rec.state((keys, how, inc))
                self.observe(rec, case, h, items, 'plain', inc, look=n < 6 or no % 7 == 0)
                late = Item(1, n)
                for i in range(n):
                    for neg in ((0, 1) if n < 4 else (0,)):
                        h = make()
                        at = list(h)[i]
                        del h[i - n if neg else i]
                        left = [x for x in items if x is not at]
                        c = {**case, 'delete': i}
                        rec.transitions += 1
                        if not self.observe(rec, c, h, left, 'plain', inc, look=n < 4):
                            break
                        h.push(late)
                        self.observe(rec, {**c, 'push': 1}, h, left + [late], 'plain', inc, look=False)
                        if neg or n > 5 and not t:
                            continue
                        for k in range(n - 1):
                            g = make()
                            del g[i]
                            x = list(g)[k]
                            del g[k]
                            rec.transitions += 1
                            if not self.observe(rec, {**c, 'and': k}, g, [y for y in left if y is not x], 'plain', inc, look=False):
                                break
        if n == 0 and part == 0:
            for bad in (lambda h: h.pop(), lambda h: h[0], lambda h: h.__delitem__(0)):
                with rec.guard('empty'):
                    h = Heap()
                    try:
                        bad(h)
                        rec.fail('empty', 'empty', 'an empty heap gave an element')
                    except IndexError:
                        pass

    def job_sequences(self, rec, inc, key, part, parts, depth):
        Heap = self.u.Heap
        first = [(('push', 0),), (('push', 1),), (('push', 2),)]
        heads = [(('push', a), ('push', b)) for a in range(3) for b in range(3)]

        def perform(h, ref, op, n):
            if op[0] == 'push':
                x = Item(op[1], n)
                h.push(x)
                return ref + [x]
            if op[0] == 'pop':
                x = h.pop()
                want = self.order(ref, key, inc)[0]
                if x is not want:
                    raise AssertionError('popped %s, expected %s' % (x, want))
                return [y for y in ref if y is not x]
            x = list(h)[op[1]]
            del h[op[1]]
            return [y for y in ref if y is not x]

        def clone(h):
            g = copy.copy(h)
            g.__dict__ = {k: (list(v) if isinstance(v, list) else copy.copy(v) if isinstance(v, (dict, set)) else v) for k, v in vars(h).items()}
            return g

        def explore(h, ref, path, n):
            if rec.nfails > 20 or len(path) >= depth:
                return
            ops = [('push', k) for k in range(3)] + ([('pop',)] if ref else []) + [('del', i) for i in range(len(ref))]
            for op in ops:
                case = {'operations': path + (op,), 'tie increment': inc, 'key': key}
                with rec.guard(case):
                    g = clone(h)
                    r = perform(g, ref, op, n)
                    rec.transitions += 1
                    if self.observe(rec, case, g, r, key, inc, look=len(path) < 4):
                        explore(g, r, path + (op,), n + 1)
        for k, head in enumerate(heads):
            if k % parts != part:
                continue
            h, ref = Heap(key=self.KEYS[key], inc=inc), []
            for n, op in enumerate(head):
                ref = perform(h, ref, op, n)
            rec.state((inc, key, head))
            explore(h, ref, head, len(head))

    # ------------------------------------------------------------------------------------------------------------------
    def job_normalized(self, rec, part, parts, t):
        np, f = self.np, self.u.normalized
        inf, nan = float('inf'), float('nan')
        grid = [0, 1, 2, .5, 1e-12, -1, 1e-300, 1e308, inf, nan]
        no = -1
        for n in range(0, 4 if not t else 5):
            for vec in itertools.product(grid, repeat=n):
                no += 1
                if no % parts != part:
                    continue
                forms = ['list', 'array', 'dict']
                if all(v == v and abs(v) < 1e9 and v == int(v) for v in vec):
                    forms += ['int', 'object', 'bool'] if all(v in (0, 1) for v in vec) and False else ['int', 'object']
                if all(v != v or abs(v) < 1e30 and (v == 0 or abs(v) > 1e-30) or v == inf for v in vec):
                    forms += ['float32']
                for form in forms:
                    for neg in (False, True):
                        for ident in (False, True):
                            for zeros in (0., .5, 1., 1e-3, 1e-50):
                                case = {'vector': [repr(v) for v in vec], 'form': form, 'allow_neg': neg, 'identity_on_zeros': ident, 'zeros': zeros}
                                with rec.guard(case):
                                    self.normal(rec, case, f, vec, form, neg, ident, zeros)

    def normal(self, rec, case, f, vec, form, neg, ident, zeros):
        np = self.np
        if form == 'dict':
            arg = {('k', i): v for i, v in enumerate(vec)}
        elif form == 'list':
            arg = list(vec)
        else:
            arg = np.array(vec, dtype={'array': float, 'int': int, 'object': object, 'bool': bool, 'float32': np.float32}[form])
        before = copy.deepcopy(arg)
        same = lambda a, b: repr(a) == repr(b) and type(a) is type(b)
        finite = all(v == v and abs(v) != float('inf') for v in vec)
        total = sum(abs(v) for v in vec) if finite else float('inf')
        negative = any(v < 0 for v in vec)
        try:
            got = f(arg, identity_on_zeros=ident, allow_neg=neg, zeros=zeros)
        except ValueError:
            refuse_ok = not finite or total == float('inf') or negative and not neg or total == 0 and not ident
            rec.check(refuse_ok, 'refused', case, lambda: 'a proper vector was refused')
            rec.check(same(arg, before), 'changed', case, lambda: repr(arg))
            rec.outcome('refused')
            return
        rec.check(same(arg, before), 'changed', case, lambda: repr(arg))
        rec.validated += 1
        if not finite or total == float('inf') and finite is False or negative and not neg or total == 0 and not ident:
            rec.fail('accepted', case, repr(got))
            return
        rec.check(type(got) is type(arg), 'type', case, lambda: type(got).__name__)
        if total == 0:
            rec.check(same(got, arg), 'identity', case, lambda: repr(got))
            rec.outcome('identity')
            return
        if form == 'dict':
            rec.check(list(got) == list(arg), 'keys', case, lambda: repr(got))
            got = list(got.values())
        got = [float(x) for x in got]
        # reference: scale by the largest element first, so that nothing overflows
        top = max(abs(v) for v in vec)
        w = [abs(v) / top for v in vec]
        s = math.fsum(w)
        p = [x / s for x in w]
        if zeros and min(p) == 0:
            low = min(x for x in p if x > 0) * zeros
            p = [x if x > 0 else low for x in p]
            s = math.fsum(p)
            p = [x / s for x in p]
        p = [-x if v < 0 else x for x, v in zip(p, vec)]
        tol = 1e-6 if form == 'float32' else 1e-9
        rec.check(len(got) == len(p) and all(abs(a - b) <= tol for a, b in zip(got, p)), 'proportions', case, lambda: (got, p))
        big = 1e-200
        rec.check(all(abs(b) < big or (a < 0) == (b < 0) and (form == 'float32' or abs(a / b - 1) < 1e-6) for a, b in zip(got, p)), 'ratio', case, lambda: (got, p))
        rec.check(abs(math.fsum(map(abs, got)) - 1) <= tol, 'sum', case, lambda: got)
        rec.outcome('normalized')

    # ------------------------------------------------------------------------------------------------------------------
    def job_bounds(self, rec):
        np, u = self.np, self.u
        inf = float('inf')
        grid = [None, ..., -inf, -2, 0, 1.5, 3, inf, np.float64(1.5), np.int64(3), np.float32(.5), -2.]
        probes = [-1e300, -2.0000001, -2, -1.9999999, -1, 0, 1e-12, .5, 1.4999999, 1.5, 1.5000001, 2, 3, 3.0000001, 1e300]
        for a, b in itertools.product(grid, repeat=2):
            for form in (list, tuple):
                case = {'bounds': [str(a), str(b)], 'form': form.__name__}
                with rec.guard(case):
                    lo = -inf if a is None or a is ... else float(a)
                    hi = inf if b is None or b is ... else float(b)
                    try:
                        i = u.list2interval(form([a, b]))
                    except ValueError:
                        rec.check(lo > hi, 'refused', case)
                        continue
                    rec.validated += 1
                    got = [i.contains_value(p) for p in probes]
                    rec.check([bool(x) for x in got] == [lo <= p <= hi for p in probes], 'interval', case, lambda: (str(i), got))
                    rec.check(lo > hi or i.lower == lo and i.upper == hi, 'interval-bounds', case, lambda: str(i))
        for bad in ([], [1], [1, 2, 3], ['a', 2]):
            with rec.guard(bad):
                try:
                    x = u.list2interval(bad)
                    rec.fail('accepted', bad, str(x))
                except (ValueError, TypeError):
                    pass
        for a, b in itertools.product(range(-3, 5), repeat=2):
            for form in (list, tuple):
                with rec.guard({'integers': (a, b)}):
                    try:
                        s = u.list2intset(form([a, b]))
                    except ValueError:
                        rec.check(a > b, 'refused', {'integers': (a, b)})
                        continue
                    rec.check(type(s) is set and s == {x for x in range(-9, 9) if a <= x <= b}, 'integers', {'integers': (a, b)}, lambda: s)
        for bad in ([], [1], [1, 2, 3], ['a', 2]):
            with rec.guard(bad):
                try:
                    x = u.list2intset(bad)
                    rec.fail('accepted', bad, str(x))
                except (ValueError, TypeError):
                    pass
        for n in range(4):
            for v in itertools.product(['a', 'b', 3, None], repeat=n):
                with rec.guard({'symbols': v}):
                    arg = list(v)
                    s = u.list2set(arg)
                    rec.check(type(s) is set and s == set(v) and arg == list(v), 'symbols', {'symbols': v}, lambda: s)

    def parse(self, s, sep_inner, sep_outer):
        out = set()
        if not s:
            return out
        for part in s.split(sep_outer):
            if '...' in part:
                a, b = part.split(sep_inner + '...' + sep_inner)
                if int(b) - int(a) < 2 or out & set(range(int(a), int(b) + 1)):
                    raise ValueError(part)
                out |= set(range(int(a), int(b) + 1))
            else:
                if int(part) in out:
                    raise ValueError(part)
                out.add(int(part))
        return out

    def job_intsets(self, rec, t):
        u = self.u
        lo, n = -3, 11 if t else 9
        for mask in range(2 ** n):
            s = {lo + i for i in range(n) if mask >> i & 1}
            for inner, outer in (('', ', '), (' ', '; ')):
                case = {'set': s, 'separators': (inner, outer)}
                with rec.guard(case):
                    text = u.setstr_int(set(s), sep_inner=inner, sep_outer=outer)
                    rec.check(self.parse(text, inner, outer) == s, 'text', case, lambda: text)
                    rec.state(case)

    def job_small(self, rec, t):
        u, np = self.u, self.np
        for n in range(6):
            for v in itertools.product([None, 0, 'a'], repeat=n):
                with rec.guard({'pairs': v}):
                    for src in (list(v), tuple(v), iter(list(v))):
                        rec.check(list(u.pairwise(src)) == list(zip(v, v[1:])), 'pairwise', {'pairs': v})
                    vals = [str(x) for x in v]
                    rec.check(u.mapstr(list(v)) == vals and u.setstr(list(v)) == ', '.join(vals), 'mapstr', {'pairs': v})
                    for limit in range(1, n + 2):
                        m = u.mapstr(list(v), limit=limit)
                        shown = [x for x in m if x != '...']
                        ok = m == vals if limit >= n else len(shown) <= limit and '...' in m and m[0] == vals[0]
                        k = m.index('...') if '...' in m else 0
                        ok = ok and (limit >= n or vals[:k] == m[:k] and (not m[k + 1:] or vals[-len(m[k + 1:]):] == m[k + 1:]))
                        rec.check(ok, 'mapstr-limit', {'pairs': v, 'limit': limit}, lambda: m)
                    rec.check([x if x == x else 'nan' for x in u.none2nan(list(v))] == ['nan' if x is None else x for x in v], 'none2nan', {'pairs': v})
        for n in range(1, 5):
            for v in itertools.product(range(0, 6), repeat=n):
                s = sum(v)
                if not s:
                    continue
                p = [x / s for x in v]
                case = {'distribution': p}
                with rec.guard(case):
                    h = -sum(x * math.log2(x) for x in p if x)
                    for form in (p, dict(enumerate(p)), np.array(p)):
                        rec.check(abs(u.entropy(form) - h) < 1e-9, 'entropy', case, lambda: (u.entropy(form), h))
                        rec.check(abs(u.gini(form) - sum(x * (1 - x) for x in p) / n) < 1e-9, 'gini', case)
                    r = u.rel_entropy(p)
                    rec.check(-1e-12 <= r <= 1 + 1e-12 and abs(r - (h / math.log2(n) if n > 1 else 0)) < 1e-9, 'rel-entropy', case, lambda: r)
                    rec.check(abs(u.max_entropy(n) - math.log2(n)) < 1e-9, 'max-entropy', case)
                    rec.check(u.prod(v) == math.prod(v), 'prod', {'vector': v})


CHECK = Check()
