"""Reference model for number sets: a set is a bit mask over the atoms cut out by a finite endpoint alphabet.

Atoms, in order: (-inf, e1), {e1}, (e1, e2), {e2}, ..., {en}, (en, inf).
"""
import math

INC, EXC = 1, 2
INF = math.inf


class Alphabet:
    def __init__(self, points):
        self.points = sorted(float(p) for p in points)
        self.atoms = []            # (kind, lo, hi, witnesses)
        prev = -INF
        for p in self.points:
            self.atoms.append(('gap', prev, p, self._witness(prev, p)))
            self.atoms.append(('pt', p, p, [p]))
            prev = p
        self.atoms.append(('gap', prev, INF, self._witness(prev, INF)))
        self.full = (1 << len(self.atoms)) - 1

    @staticmethod
    def _witness(lo, hi):
        out = []
        if lo == -INF and hi == INF:
            return [0.0]
        if lo == -INF:
            out = [math.nextafter(hi, -INF), hi - max(1.0, abs(hi))]
        elif hi == INF:
            out = [math.nextafter(lo, INF), lo + max(1.0, abs(lo))]
        else:
            out = [math.nextafter(lo, INF), lo + (hi - lo) / 2, math.nextafter(hi, -INF)]
        return [w for w in dict.fromkeys(out) if lo < w < hi]

    def mask_of(self, intervals):
        """Mask of a union of (lower, upper, left, right) tuples, by the definition of an interval.
        None if some interval cuts through an atom (cannot be expressed over the alphabet)."""
        m = 0
        for lo, hi, l, r in intervals:
            for k, (_, _, _, ws) in enumerate(self.atoms):
                inside = [self._in(w, lo, hi, l, r) for w in ws]
                if all(inside):
                    m |= 1 << k
                elif any(inside):
                    # several intervals can share an atom only by cutting through it
                    return None
        return m

    @staticmethod
    def _in(w, lo, hi, l, r):
        return (lo < w or (lo == w and l == INC)) and (w < hi or (w == hi and r == INC))

    def member(self, mask, k):
        return bool(mask >> k & 1)

    def base(self, infinite_closed=False):
        """All interval tuples over the alphabet, simplest first; includes every notation of the empty set."""
        ends = [-INF] + self.points + [INF]
        out = []
        for i, a in enumerate(ends):
            for b in ends[i:]:
                if math.isinf(a) and a == b:
                    continue
                for l in (INC, EXC):
                    for r in (INC, EXC):
                        if not infinite_closed and (math.isinf(a) and l == INC or math.isinf(b) and r == INC):
                            continue
                        out.append((a, b, l, r))
        return out

    def components(self, mask):
        """Number of maximal runs of atoms."""
        n, prev = 0, 0
        for k in range(len(self.atoms)):
            b = mask >> k & 1
            if b and not prev:
                n += 1
            prev = b
        return n

    def size(self, mask):
        n = 0
        for k, a in enumerate(self.atoms):
            if mask >> k & 1:
                if a[0] == 'gap':
                    return INF
                n += 1
        return n

    def canonical(self, mask):
        """The canonical list of interval tuples of a mask."""
        out = []
        k = 0
        n = len(self.atoms)
        while k < n:
            if mask >> k & 1:
                j = k
                while j + 1 < n and mask >> (j + 1) & 1:
                    j += 1
                a, b = self.atoms[k], self.atoms[j]
                out.append((a[1], b[2], INC if a[0] == 'pt' else EXC, INC if b[0] == 'pt' else EXC))
                k = j + 1
            else:
                k += 1
        return out


def raw(s):
    """The interval tuples an implementation object consists of (reads attributes only)."""
    if hasattr(s, 'intervals'):
        return [(i.lower, i.upper, int(i.left), int(i.right)) for i in s.intervals]
    return [(s.lower, s.upper, int(s.left), int(s.right))]


def key(s):
    return (type(s).__name__, tuple(raw(s)))
