"""C02: set values are immutable under all operations, extensionally equal with equal hashes, and survive serialization."""
import copy
import itertools
import json
import pickle

from vlib.setmodel import Alphabet, raw, key, INC, EXC, INF

ALPHABETS = {'unit': [0, 1, 2], 'frac': [-1e17, 0.1, 1 / 3], 'two': [0, 1]}


class Check:
    pid = 'C02'
    level = 'model_checking'
    technique = 'exhaustive enumeration of set values and operation pairs on the real code, before/after snapshots, atom-mask model'
    note = ('Every operation on every value (and pair of values) of the alphabets is executed; operands and shared constants are '
            'compared before/after, results are mutated to expose aliasing, all notations of the same point set are compared.')
    space = 'all intervals over three endpoint alphabets, all unions of two of them, all pairs with every operation; canonical decompositions'
    assumptions = ['sets are compared as real-number sets over the alphabet atoms']

    def jobs(self, tier):
        out = [['const', 'two', 0]]
        for a in ('two', 'unit'):
            n = len(Alphabet(ALPHABETS[a]).base())
            out += [['pure', a, i] for i in range(0, n, 1 if a == 'two' else (1 if tier == 'thorough' else 3))]
        for a in ('unit', 'frac'):
            n = len(Alphabet(ALPHABETS[a]).base())
            out += [['ser', a, i] for i in range(0, n, 4)]
        out += [['eq', 'two', i] for i in range(32)]
        return out

    def run(self, job, rec):
        from jpt.base import intervals as iv
        self.iv = iv
        kind, a, i = job
        self.al = al = Alphabet(ALPHABETS[a])
        base = al.base()
        if kind == 'pure':
            self.pure(base, i, rec, pairs=(a == 'two'))
        elif kind == 'ser':
            for t in base[i:i + 4]:
                self.serial([t], rec)
                for u in base:
                    self.serial([t, u], rec)
        elif kind == 'eq':
            self.equality(base, i, rec)
        else:
            self.constants(rec)

    def cs(self, t):
        return self.iv.ContinuousSet(*t)

    def rs(self, l):
        return self.iv.RealSet([self.cs(t) for t in l])

    OPS1 = ['complement', 'simplify', 'copy', 'xmirror', 'size', 'isempty', 'fst', 'isninf', 'ispinf', 'isinf', 'any_point',
            'to_json', '__str__', '__repr__', '__hash__', '__bool__', '__getstate__', 'chop', 'round', 'min', 'contains']
    OPS1C = ['lowermost', 'uppermost', 'itype', 'boundaries', 'ends', 'pfmt', 'width', 'linspace', 'sample']
    OPS2 = ['union', 'intersection', 'difference', 'intersects', 'isdisjoint', 'contains_interval', '__eq__', '__ne__',
            '__or__', '__and__', 'contiguous', '__contains__', '__sub__']

    def apply1(self, s, op):
        if op == 'chop':
            return list(s.chop([0, .5, 1]))
        if op == 'round':
            return round(s, 1)
        if op in ('min', 'width'):
            return getattr(s, op)
        if op == 'contains':
            return .5 in s
        if op == 'boundaries':
            return [s.boundaries(l, r) for l in (0, 1, 2) for r in (0, 1, 2)]
        if op == 'ends':
            return [s.ends(l, r) for l in (-1, 1, 2) for r in (-1, 1, 2)]
        if op == 'linspace':
            return list(s.linspace(3)) if not s.isempty() else None
        if op == 'sample':
            return list(s.sample(2)) if not s.isempty() and not s.isinf() else None
        return getattr(s, op)()

    def mutate(self, r):
        """Overwrite every interval an operation returned; operands must not notice."""
        iv = self.iv
        if isinstance(r, (list, tuple)):
            for x in r:
                self.mutate(x)
        elif isinstance(r, iv.ContinuousSet):
            r.lower, r.upper, r.left, r.right = -77., 77., 1, 1
        elif isinstance(r, iv.RealSet):
            for x in list(r.intervals):
                self.mutate(x)
            r.intervals.append(iv.ContinuousSet(5, 6))

    def const_key(self):
        return key(self.iv.EMPTY), key(self.iv.R)

    def observe(self, rec, case, operands, f, mutate=True):
        before = [key(s) for s in operands]
        c = self.const_key()
        with rec.guard(case):
            r = f()
            rec.transitions += 1
            rec.state((case[1:2], tuple(before)))
            rec.check([key(s) for s in operands] == before, 'operand-changed', case,
                      lambda: '%s -> %s' % (before, [key(s) for s in operands]))
            rec.check(self.const_key() == c, 'constant-changed', case)
            if mutate and case[0] not in ('simplify-self',):
                self.mutate(r)
                rec.check([key(s) for s in operands] == before, 'result-aliases-operand', case,
                          lambda: '%s -> %s' % (before, [key(s) for s in operands]))
                rec.check(self.const_key() == c, 'result-aliases-constant', case)
            rec.outcome(case[0])

    def pure(self, base, i, rec, pairs):
        iv = self.iv
        t = base[i]
        vals = [('c', [t])] + [('r', [t, u]) for u in base]

        def make(v):
            return self.cs(v[1][0]) if v[0] == 'c' else self.rs(v[1])
        for v in vals:
            for op in self.OPS1 + (self.OPS1C if v[0] == 'c' else []):
                s = make(v)
                if not hasattr(s, op) and op not in ('round', 'contains', 'min', 'chop'):
                    continue
                if op in ('any_point', 'fst', 'min', 'width') and s.isempty():
                    continue
                self.observe(rec, [op, v], [s], lambda: self.apply1(s, op), mutate=op not in ('__getstate__',))
        others = [('c', [u]) for u in base]
        if pairs:
            others += [('r', [u, w]) for u in base[::3] for w in base[::2]]
        for v in vals if pairs else vals[:1] + vals[1::4]:
            for o in others:
                for op in self.OPS2:
                    s, x = make(v), make(o)
                    if not hasattr(s, op):
                        continue
                    if isinstance(s, iv.ContinuousSet) and isinstance(x, iv.RealSet) and op in ('union', 'intersection', 'contiguous'):
                        continue
                    if op == '__contains__' and isinstance(s, iv.RealSet):
                        continue
                    self.observe(rec, [op, v, o], [s, x], lambda: getattr(s, op)(x))
            for o in others[:12]:
                # building a union from set objects must copy them
                x = make(('c', o[1][:1]))
                case = ['construct', o]
                with rec.guard(case):
                    r = iv.RealSet([x])
                    b = key(x)
                    self.mutate(r)
                    rec.check(key(x) == b, 'constructor-aliases', case)

    def constants(self, rec):
        iv = self.iv
        for l, r in itertools.product('[(]', '[)]'):
            for lo, up in (('2', '1'), ('1', '-1'), ('inf', '0'), ('0', '-inf'), ('0.1', '0.0999'), ('x', '1'), ('1', '')):
                for where in (iv.ContinuousSet.parse, iv.RealSet, lambda t: iv.RealSet([t])):
                    text = l + lo + ',' + up + r
                    rec.transitions += 1
                    try:
                        where(text)
                        rec.check(False, 'malformed-accepted', [text])
                    except ValueError:
                        rec.outcome('malformed')
        iv = self.iv
        c = self.const_key()
        for name, f in [('emptyset', iv.ContinuousSet.emptyset), ('allnumbers', iv.ContinuousSet.allnumbers),
                        ('parse', lambda: iv.ContinuousSet.parse('(-inf,inf)'))]:
            with rec.guard([name]):
                a, b = f(), f()
                rec.state(name)
                rec.transitions += 1
                rec.check(a == b and hash(a) == hash(b), 'constant-equal', [name])
                a.lower = a.upper = 3.
                rec.check(key(f()) == key(b), 'constant-shared', [name])
                rec.check(self.const_key() == c, 'constant-changed', [name])
        for other in (None, 3, 'x', [], object(), {1}):
            for s in (iv.EMPTY, iv.R, iv.RealSet(), iv.RealSet(['[0,1]', '[2,3]'])):
                with rec.guard(['foreign', str(type(other).__name__), str(s)]):
                    rec.transitions += 1
                    rec.check((s == other) is False and (s != other) is True, 'foreign-equality', [str(type(other).__name__), str(s)])

    # -------------------------------------------------------------------------------------------------
    def serial(self, l, rec):
        iv = self.iv
        values = [self.cs(l[0])] if len(l) == 1 else [self.rs(l), self.rs(l).simplify()]
        for s in values:
            case = ['serial', type(s).__name__, l]
            with rec.guard(case):
                rec.state(key(s))
                k = key(s)
                cls = type(s)
                trips = {
                    'copy': s.copy(), 'pickle': pickle.loads(pickle.dumps(s)), 'deepcopy': copy.deepcopy(s),
                    'json': cls.from_json(json.loads(json.dumps(s.to_json()))),
                }
                if isinstance(s, iv.ContinuousSet) and not s.isempty():
                    trips['parse'] = iv.ContinuousSet.parse(str(s))
                    trips['parse-sq'] = iv.ContinuousSet.parse(s.pfmt(notation='sq'))
                    trips['realset-of-string'] = iv.RealSet(str(s))
                if isinstance(s, iv.ContinuousSet) and s.isempty():
                    trips['parse'] = iv.ContinuousSet.parse(str(s))
                for name, r in trips.items():
                    rec.transitions += 1
                    rec.check(r == s and s == r and not (r != s), 'roundtrip-equal', case + [name], lambda: '%r vs %r' % (r, s))
                    rec.check(hash(r) == hash(s), 'roundtrip-hash', case + [name])
                    for w in [x for at in self.al.atoms for x in at[3]]:
                        rec.check((w in r) == (w in s), 'roundtrip-member', case + [name, w])
                    self.mutate(r)
                    rec.check(key(s) == k, 'copy-aliases', case + [name])

    def equality(self, base, m, rec):
        """All decompositions (<= 3 intervals) of the point set with mask m are equal and hash equal; others differ."""
        al, iv = self.al, self.iv
        masks = {t: al.mask_of([t]) for t in base}
        want = m
        same, other = [], []
        if m > al.full:
            return
        for n in (1, 2, 3):
            for l in itertools.product(base, repeat=n):
                k = 0
                for t in l:
                    k |= masks[t]
                if k == want:
                    same.append(l)
        ref = self.rs(al.canonical(m)) if al.canonical(m) else iv.RealSet()
        forms = [('ref', ref)]
        for l in same:
            with rec.guard(['same', l]):
                v = self.rs(l)
                rec.state(key(v))
                for x in ([v, v.simplify()] + ([self.cs(l[0])] if len(l) == 1 else [])):
                    rec.transitions += 1
                    rec.check(x == ref and ref == x and not (x != ref) and not (ref != x), 'equal', ['same', l], lambda: '%r vs %r' % (x, ref))
                    rec.check(hash(x) == hash(ref), 'hash', ['same', l], lambda: '%r vs %r' % (x, ref))
                    rec.check(len({x, ref}) == 1, 'set-element', ['same', l])
        for m2 in range(al.full + 1):
            if m2 != m:
                with rec.guard(['other', m, m2]):
                    o = self.rs(al.canonical(m2))
                    rec.transitions += 1
                    rec.check(ref != o and not (ref == o) and not (o == ref), 'unequal', ['other', m, m2])


CHECK = Check()
