"""C01: interval / real-set algebra against the atom-mask model, exhaustively over endpoint alphabets."""
import itertools
import math

from vlib.setmodel import Alphabet, raw, key, INC, EXC, INF

ALPHABETS = {
    'unit': [0, 1, 2],
    'neg': [-1.5, 0.0, 1e-3],
    'big': [-1e17, 3e16, 1e17],
    'four': [-1, 0, 1, 2],
    'two': [0, 1],
}


class Check:
    pid = 'C01'
    level = 'model_checking'
    rule = ''
    technique = 'exhaustive enumeration of intervals, unions and operation histories on the real code against an atom-mask set model'
    space = ('all pairs of intervals over endpoint alphabets incl. unbounded and degenerate ends; all real sets written as 1-3 '
             'intervals; canonical real sets pairwise; second-level operations on every reached result')
    assumptions = ['real-number sets are represented by witnesses: every endpoint, its neighbouring floats and one interior point per gap']

    def jobs(self, tier):
        out = []
        for a in ('unit', 'neg', 'big') + (('four',) if tier == 'thorough' else ()):
            n = len(Alphabet(ALPHABETS[a]).base())
            out += [['cs', a, i, min(i + 8, n)] for i in range(0, n, 8)]
        for a in ('unit', 'neg', 'big'):
            n = len(Alphabet(ALPHABETS[a]).base())
            out += [['rs2', a, i, min(i + 4, n)] for i in range(0, n, 4)] if a == 'unit' or tier == 'thorough' else \
                   [['rs2', a, i, i + 1] for i in range(0, n, 8)]
        n = len(Alphabet(ALPHABETS['two']).base())
        out += [['rs3', 'two', i, i + 1] for i in range(n)]
        for a in ('unit', 'big') + (('four',) if tier == 'thorough' else ()):
            n = Alphabet(ALPHABETS[a]).full + 1
            out += [['canon', a, i, i + 4] for i in range(0, n, 4)]
        out += [['closure', 'two', 0, 0]]
        return out

    # ----------------------------------------------------------------------------------------------
    def run(self, job, rec):
        from jpt.base import intervals as iv
        self.iv = iv
        kind, a, lo, hi = job
        self.al = al = Alphabet(ALPHABETS[a])
        self.name = a
        if kind == 'cs':
            base = al.base()
            for t in base[lo:hi]:
                with rec.guard([a, 'unary', t]):
                    self.unary(self.cs(t), al.mask_of([t]), rec, [a, t])
                for u in base:
                    with rec.guard([a, t, u]):
                        self.binary(self.cs(t), al.mask_of([t]), self.cs(u), al.mask_of([u]), rec, [a, t, u])
        elif kind == 'rs2':
            base = al.base()
            lists = [[t, u] for t in base[lo:hi] for u in base]
            for l in lists:
                m = al.mask_of(l[:1]) | al.mask_of(l[1:])
                with rec.guard([a, 'unary', l]):
                    self.unary(self.rs(l), m, rec, [a, l])
                for w in base:
                    with rec.guard([a, l, w]):
                        self.binary(self.rs(l), m, self.cs(w), al.mask_of([w]), rec, [a, l, w], light=True)
        elif kind == 'rs3':
            base = al.base()
            for u, w in itertools.product(base, base):
                l = [base[lo], u, w]
                m = al.mask_of(l[:1]) | al.mask_of(l[1:2]) | al.mask_of(l[2:])
                with rec.guard([a, 'unary', l]):
                    self.unary(self.rs(l), m, rec, [a, l])
                for x in base:
                    with rec.guard([a, x, l]):
                        self.binary(self.cs(x), al.mask_of([x]), self.rs(l), m, rec, [a, x, l], light=True)
        elif kind == 'canon':
            for m in range(lo, min(hi, al.full + 1)):
                c = al.canonical(m)
                for m2 in range(al.full + 1):
                    c2 = al.canonical(m2)
                    with rec.guard([a, c, c2]):
                        self.binary(self.rs(c), m, self.rs(c2), m2, rec, [a, c, c2], light=True)
                        self.binary(self.rs(list(reversed(c))), m, self.rs(list(reversed(c2))), m2, rec,
                                    [a, 'rev', c, c2], light=True)
        elif kind == 'closure':
            self.closure(rec)

    def cs(self, t):
        return self.iv.ContinuousSet(*t)

    def rs(self, l):
        return self.iv.RealSet([self.cs(t) for t in l])

    # ----------------------------------------------------------------------------------------------
    def mask(self, s):
        """Mask of an implementation object, from its raw interval ends; unions may cut atoms only jointly."""
        m = 0
        for t in raw(s):
            k = self.al.mask_of([t])
            if k is None:
                return ('not-over-alphabet', tuple(raw(s)))
            m |= k
        return m

    def expect(self, name, got, want, rec, case):
        rec.transitions += 1
        g = self.mask(got)
        rec.state((self.name, key(got)))
        if g != want:
            rec.fail(name, case, 'got %r, expected %r' % (got, self.al.canonical(want)))

    def unary(self, s, m, rec, case):
        al, iv = self.al, self.iv
        rec.state((self.name, key(s)))
        rec.validated += 1
        rec.outcome('mask%d' % m)
        rec.check(bool(s.isempty()) == (m == 0), 'isempty', case, 'isempty()=%s' % s.isempty())
        rec.check(bool(s) == (m != 0), 'bool', case)
        for k, at in enumerate(al.atoms):
            for w in at[3]:
                rec.check((w in s) == al.member(m, k), 'member', case + [w], 'x in s')
                rec.check(bool(s.contains_value(w)) == al.member(m, k), 'contains_value', case + [w])
        self.expect('complement', s.complement(), al.full & ~m, rec, case)
        self.expect('copy', s.copy(), m, rec, case)
        simp = s.simplify()
        self.expect('simplify', simp, m, rec, case)
        self.structure(simp, m, rec, case)
        if not any(math.isinf(x) for t in raw(s) for x in t[:2]):
            mir = s.xmirror()
            want = [(-b, -a_, r, l) for a_, b, l, r in raw(s)]
            got = raw(mir)
            rec.check(sorted(got) == sorted(want), 'xmirror', case, '%r' % mir)
        rec.check(s.size() == al.size(m), 'size', case, lambda: 'size %s expected %s' % (s.size(), al.size(m)))
        if m:
            lo = al.canonical(m)[0]
            want = (lo[0] if lo[2] == INC else math.nextafter(lo[0], INF)) if lo[0] != -INF else None
            if want is not None:
                rec.check(s.fst() == want, 'fst', case, 'fst %r want %r' % (s.fst(), want))
                rec.check(s.min == want, 'min', case, 'min %r want %r' % (s.min, want))
            p = s.any_point()
            if self.name != 'big':        # an interior point need not be representable at that scale
                rec.check(p in s, 'any_point', case, 'any_point() = %r not in set' % p)
            # chop at every subset of the alphabet's points
            for n in range(len(al.points) + 1):
                for pts in itertools.combinations(al.points, n):
                    parts = list(s.chop(pts)) if isinstance(simp, iv.RealSet) or not isinstance(s, iv.RealSet) else None
                    if parts is None:
                        continue
                    rec.transitions += 1
                    acc = 0
                    ok = True
                    for q in parts:
                        pm = self.mask(q)
                        if isinstance(pm, tuple) or pm == 0 or acc & pm:
                            ok = False
                            break
                        acc |= pm
                    cuts = all(not any(t[0] < c < t[1] for c in pts) for q in parts for t in raw(q))
                    rec.check(ok and acc == m and cuts, 'chop', case + [list(pts)], '%r' % parts)
        if m == 0:
            x = s.fst()
            rec.check(x != x, 'fst-empty', case, 'fst of empty: %r' % x)

    def structure(self, simp, m, rec, case):
        al = self.al
        parts = raw(simp)
        if m == 0:
            rec.check(simp.isempty(), 'simplify-empty', case, '%r' % simp)
            return
        n = al.components(m)
        rec.check(len(parts) == n, 'simplify-minimal', case, '%d parts instead of %d: %r' % (len(parts), n, simp))
        rec.check(isinstance(simp, self.iv.ContinuousSet) == (n == 1), 'simplify-type', case, '%r' % simp)
        rec.check(parts == sorted(parts), 'simplify-sorted', case, '%r' % simp)

    def binary(self, s, m, t, n, rec, case, light=False):
        al, iv = self.al, self.iv
        rec.validated += 1
        mixed = not isinstance(s, iv.RealSet) and isinstance(t, iv.RealSet)
        if not mixed:
            self.expect('union', s.union(t), m | n, rec, case)
            self.expect('intersection', s.intersection(t), m & n, rec, case)
        self.expect('or', s | t, m | n, rec, case)
        self.expect('and', s & t, m & n, rec, case)
        self.expect('difference', s.difference(t), m & ~n, rec, case)
        rec.check(bool(s.intersects(t)) == bool(m & n), 'intersects', case, 'intersects=%s' % s.intersects(t))
        rec.check(bool(s.isdisjoint(t)) == (not m & n), 'isdisjoint', case)
        if n and m:
            rec.check(bool(s.contains_interval(t)) == (n & ~m == 0), 'contains_interval', case,
                      'contains_interval=%s' % s.contains_interval(t))
        rec.check((s == t) == (m == n), 'eq', case, '== gives %s' % (s == t))
        rec.check((s != t) == (m != n), 'ne', case)
        if not light:
            self.expect('sub', s - t, m & ~n, rec, case)
            if m and n:
                rec.check((t in s) == (n & ~m == 0), 'in', case)
                adj = (m & n == 0) and al.components(m | n) == 1
                rec.check(bool(s.contiguous(t)) == adj, 'contiguous', case, 'contiguous=%s' % s.contiguous(t))
                proper = n & ~m == 0 and al.components(m & ~n) == 2
                rec.check(bool(s.contains_interval(t, True)) == proper, 'proper_containment', case)
                if m & n == 0:
                    a, b = al.canonical(m)[0], al.canonical(n)[0]
                    rec.check(iv.ContinuousSet.comparator(s, t) == (-1 if a < b else 1), 'comparator', case)
        if isinstance(s, iv.RealSet) and isinstance(t, iv.RealSet) and self.disjoint(s) and self.disjoint(t):
            i = s.intersections(t)
            self.expect('intersections', i, m & n, rec, case)

    def disjoint(self, s):
        acc = 0
        for r in raw(s):
            k = self.al.mask_of([r])
            if acc & k:
                return False
            acc |= k
        return True

    # ----------------------------------------------------------------------------------------------
    def closure(self, rec):
        """Breadth-first search over the states reachable by operations on previous *results* (fresh replay per state)."""
        al, iv = self.al, self.iv
        base = [t for t in al.base() if al.mask_of([t]) or t == (0, 0, EXC, EXC)]
        ops = ['union', 'intersection', 'difference', 'complement', 'simplify']
        seen = {}
        frontier = []
        for t in base:
            s = self.cs(t)
            if key(s) not in seen:
                seen[key(s)] = al.mask_of([t])
                frontier.append([('base', t)])
        depth = 0
        while frontier and depth < 4:
            depth += 1
            nxt = []
            for hist in frontier:
                for op in ops:
                    for arg in (base if op in ('union', 'intersection', 'difference') else [None]):
                        case = hist + [(op, arg)]
                        with rec.guard(case):
                            s, m = self.replay(hist)
                            r, mm = self.step(s, m, op, arg)
                            rec.transitions += 1
                            rec.validated += 1
                            k = key(r)
                            got = self.mask(r)
                            rec.state(('closure', k))
                            if got != mm:
                                rec.fail('history', case, '%r expected %r' % (r, al.canonical(mm)))
                            elif k not in seen:
                                seen[k] = mm
                                nxt.append(case)
            frontier = nxt
        rec.outcome('closure-depth', depth)
        rec.outcome('closure-states', len(seen))

    def replay(self, hist):
        s = self.cs(hist[0][1])
        m = self.al.mask_of([hist[0][1]])
        for op, arg in hist[1:]:
            s, m = self.step(s, m, op, arg)
        return s, m

    def step(self, s, m, op, arg):
        al = self.al
        if op == 'complement':
            return s.complement(), al.full & ~m
        if op == 'simplify':
            return s.simplify(), m
        t, n = self.cs(arg), al.mask_of([arg])
        if op == 'union':
            return s.union(t), m | n
        if op == 'intersection':
            return s.intersection(t), m & n
        return s.difference(t), m & ~n


CHECK = Check()
