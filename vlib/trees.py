"""Bounded-exhaustive corpora of small learned models and the reference semantics of a model.

Reference: a model is the mixture over its leaves of the product of the leaf distributions, each restricted to the
region the leaf's path describes.  The pieces are read off the leaves; everything else is computed here.
"""
import itertools
import math

from . import distmodel as dm
from .distmodel import INF, INC, EXC, Measure

# ---- schemas: columns of (name, kind, alphabet) ----------------------------------------------------------------
SCHEMAS = {
    'x':   [('x', 'num', [0., 1., 2., 3.])],
    'xs':  [('x', 'num', [0., 1., 2.]), ('s', 'sym', ['a', 'b'])],
    'sx':  [('s', 'sym', ['b', 'a', 'c']), ('x', 'num', [-1., 2.])],
    'xy':  [('x', 'num', [0., 1., 2.]), ('y', 'num', [0., 1.])],
    'xi':  [('x', 'num', [0., 1.]), ('i', 'int', [0, 1, 2])],
    'si':  [('s', 'sym', ['a', 'b', 'c']), ('i', 'int', [1, 2, 3])],
    'xsi': [('x', 'num', [0., 1.]), ('s', 'sym', ['a', 'b']), ('i', 'int', [0, 1])],
    'bx':  [('b', 'bool', [False, True]), ('x', 'num', [0., 1., 2.])],
    'zs':  [('z', 'scaled', [0., 1., 4.]), ('s', 'sym', ['a', 'b'])],
}
# integer / symbolic domains may hold more values than occur
DOMAIN_EXTRA = {'xi': {'i': (-1, 2)}, 'si': {'i': (1, 4)}, 'xsi': {'i': (0, 2)}}


def variables(schema, **kw):
    from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable
    from jpt.distributions import SymbolicType, IntegerType, NumericType, Bool
    out = []
    for name, kind, alpha in SCHEMAS[schema]:
        if kind == 'num':
            out.append(NumericVariable(name, precision=kw.get('precision', .001)))
        elif kind == 'scaled':
            out.append(NumericVariable(name, NumericType(name.upper(), alpha), precision=kw.get('precision', .001)))
        elif kind == 'sym':
            out.append(SymbolicVariable(name, SymbolicType(name.upper(), alpha)))
        elif kind == 'bool':
            out.append(SymbolicVariable(name, Bool))
        else:
            lo, hi = DOMAIN_EXTRA.get(schema, {}).get(name, (min(alpha), max(alpha)))
            out.append(IntegerVariable(name, IntegerType(name.upper(), lo, hi)))
    return out


def cells(schema):
    return list(itertools.product(*[a for _, _, a in SCHEMAS[schema]]))


def datasets(schema, nmin, nmax, part=0, parts=1):
    """All multisets of rows of the schema with nmin..nmax rows (every parts-th one, starting at part)."""
    k = 0
    for n in range(nmin, nmax + 1):
        for rows in itertools.combinations_with_replacement(cells(schema), n):
            if k % parts == part:
                yield k, rows
            k += 1


def patterns(part=0, parts=1, n=6):
    """Data with deep trees: x = 0..n-1, s = f(x) for all binary f, y = sum of f so far."""
    for k, f in enumerate(itertools.product((0, 1), repeat=n)):
        if k % parts == part:
            acc, rows = 0, []
            for x in range(n):
                acc += f[x]
                rows.append((float(x), 'ab'[f[x]], acc))
            yield k, rows


def fit(schema, rows, vs=None, close=True, keep=False, **kw):
    from jpt.trees import JPT
    vs = vs or variables(schema)
    return JPT(vs, **kw).fit(rows=[list(r) for r in rows], close_convex_gaps=close, keep_samples=keep)


SCHEMAS['pat'] = [('x', 'num', [float(i) for i in range(6)]), ('s', 'sym', ['a', 'b']), ('i', 'int', list(range(7)))]


# ---- reference semantics -----------------------------------------------------------------------------------------
def tup(i):
    return (float(i.lower), float(i.upper), int(i.left), int(i.right))


def tuples(s):
    """Interval tuples of a numeric set object."""
    if hasattr(s, 'intervals'):
        return [tup(i) for i in s.intervals]
    return [tup(s)]


FULL = (-INF, INF, EXC, EXC)


def meet(s, t):
    """Intersection of two interval tuples (or None)."""
    lo = max(s[0], t[0])
    hi = min(s[1], t[1])
    l = EXC if (s[0] == lo and s[2] == EXC) or (t[0] == lo and t[2] == EXC) else INC
    r = EXC if (s[1] == hi and s[3] == EXC) or (t[1] == hi and t[3] == EXC) else INC
    if lo > hi or lo == hi and (l == EXC or r == EXC):
        return None
    return (lo, hi, l, r)


def meets(a, b):
    return [m for m in (meet(s, t) for s in a for t in b) if m]


class RefLeaf:
    def __init__(self, leaf, vs):
        self.idx = leaf.idx
        self.prior = leaf.prior
        self.path = {}
        for var, val in leaf.path.items():
            if var.numeric:
                self.path[var.name] = meets(self.path.get(var.name, [FULL]), tuples(val))
            else:
                v = frozenset(int(x) for x in val)
                self.path[var.name] = self.path.get(var.name, v) & v
        self.dist = {}
        for v in vs:
            d = leaf.distributions[v]
            self.dist[v.name] = Measure.of_cdf(d.cdf) if v.numeric else [float(p) for p in d.probabilities]

    def clip(self, name, ev):
        p = self.path.get(name)
        if p is None:
            return ev
        return meets(ev, p) if isinstance(ev, list) else ev & p

    def p1(self, name, ev):
        d = self.dist[name]
        if isinstance(d, Measure):
            return d.p_union(ev)
        return math.fsum(d[v] for v in ev)

    def p(self, evs):
        r = self.prior
        for n, ev in evs.items():
            r *= self.p1(n, self.clip(n, ev))
        return r

    def contains(self, world):
        for n, p in self.path.items():
            v = world[n]
            if isinstance(p, list):
                if not any(dm.inside(v, t) for t in p):
                    return False
            elif v not in p:
                return False
        return True

    def meets(self, evs):
        for n, ev in evs.items():
            if n in self.path and not self.clip(n, ev):
                return False
        return True

    def weight(self, evs):
        """Weight of the leaf: evidence that consists of single continuous values counts with their mass or density."""
        r = self.prior
        for n, ev in evs.items():
            d = self.dist[n]
            if isinstance(d, Measure) and is_values(ev):
                r *= sum(value_weights(d, self.clip(n, ev)).values())
            else:
                r *= self.p1(n, self.clip(n, ev))
        return r

    def restricted(self, name, event):
        """Distribution of a variable given an event of it within this leaf."""
        ev, d = self.clip(name, event), self.dist[name]
        if isinstance(d, Measure):
            if is_values(event):
                pts = value_weights(d, ev)
                return Measure({x: v / sum(pts.values()) for x, v in pts.items() if v}, [])
            d = d.restrict(ev)
            return d.scale(1 / d.total())
        z = math.fsum(d[v] for v in ev)
        return [p / z if v in ev else 0. for v, p in enumerate(d)]


def value_weights(d, ev):
    """Weights of the single values in ev: their masses if any has one, their densities otherwise."""
    xs = [t[0] for t in dm.disjoint(ev)]
    out = {x: d.atoms.get(x, 0) for x in xs}
    return out if any(out.values()) else {x: d.density(x) for x in xs}


def is_values(ev):
    return isinstance(ev, list) and all(t[0] == t[1] for t in ev)


class RefModel:
    """Events: dict name -> list of interval tuples (numeric) or frozenset of internal values."""

    def __init__(self, jpt):
        self.vs = list(jpt.variables)
        self.kind = {v.name: 'num' if v.numeric else 'disc' for v in self.vs}
        self.leaves = [RefLeaf(l, self.vs) for l in jpt.leaves.values()]

    def p(self, evs):
        return math.fsum(l.p(evs) for l in self.leaves)

    def joint(self, a, b):
        out = dict(a)
        for n, e in b.items():
            if n in out:
                out[n] = meets(out[n], e) if isinstance(e, list) else out[n] & e
            else:
                out[n] = e
        return out

    def conditional(self, q, e):
        pe = self.p(e)
        return None if pe <= 0 else self.p(self.joint(q, e)) / pe

    def posterior(self, name, evs, weight='weight'):
        """Posterior of one variable: Measure or probability list; None for impossible evidence."""
        ws = [getattr(l, weight)(evs) for l in self.leaves]
        t = math.fsum(ws)
        if not t > 0:
            return None
        ms, used = [], []
        for l, w in zip(self.leaves, ws):
            if w <= 0:
                continue
            d = l.dist[name]
            if name in evs:
                d = l.restricted(name, evs[name])
            ms.append(d)
            used.append(w / t)
        if isinstance(ms[0], Measure):
            return dm.mixture(ms, used)
        return [math.fsum(w * d[v] for w, d in zip(used, ms)) for v in range(len(ms[0]))]


# ---- events ------------------------------------------------------------------------------------------------------
def value_of(var, label):
    """Internal value of a label."""
    return var.domain.values[label]


def numeric_event(iv, ts):
    s = [iv.ContinuousSet(*t) for t in ts]
    return s[0] if len(s) == 1 else iv.RealSet(s)


def event_to_ref(var, ev):
    """Label-space event (interval tuples / set of labels) -> reference event in internal values."""
    if var.numeric:
        f = lambda x: x if math.isinf(x) else float(var.domain.values[x])
        return [(f(a), f(b), l, r) for a, b, l, r in ev]
    return frozenset(int(var.domain.values[v]) for v in ev)


def event_to_api(iv, var, ev):
    if var.numeric:
        return numeric_event(iv, ev)
    return set(ev)


NUM_EVENTS = {
    'num': lambda a: [[(a[0], a[0], INC, INC)], [(-INF, a[1], EXC, EXC)], [(a[1], INF, INC, EXC)], [(a[0], a[1], INC, INC)],
                      [(a[0], (a[0] + a[1]) / 2, EXC, EXC)], [((a[0] + a[1]) / 2, a[-1], INC, INC)],
                      [(a[0], (a[0] + a[1]) / 2, INC, EXC), (a[1], a[-1], EXC, INC)],
                      [(a[0] + (a[1] - a[0]) / 4, a[-1] + 1, INC, INC)],
                      [(a[-1] + 1, a[-1] + 2, INC, INC)]],
}


def events(schema, name, rich=True):
    """Label-space event alphabet of a variable."""
    for n, kind, a in SCHEMAS[schema]:
        if n != name:
            continue
        if kind in ('num', 'scaled'):
            ev = NUM_EVENTS['num'](a)
            return ev if rich else [ev[k] for k in (1, 2, 5, 6)]
        if kind == 'int' and n in DOMAIN_EXTRA.get(schema, {}):
            lo, hi = DOMAIN_EXTRA[schema][n]
            a = list(range(lo, hi + 1))
        subs = [frozenset(c) for k in range(1, len(a) + 1) for c in itertools.combinations(a, k)]
        if not rich and len(subs) > 4:
            subs = subs[:2] + subs[len(a):len(a) + 1] + subs[-1:]
        return subs
    raise KeyError(name)


def assignments(schema, rich=True, maxvars=2, empty=True):
    """All assignments of events to up to maxvars variables."""
    names = [n for n, _, _ in SCHEMAS[schema]]
    if empty:
        yield {}
    for k in range(1, maxvars + 1):
        for sel in itertools.combinations(names, k):
            for evs in itertools.product(*[events(schema, n, rich) for n in sel]):
                yield dict(zip(sel, evs))


def show(evs):
    return {n: [list(t) for t in e] if isinstance(e, list) else sorted(e, key=str) for n, e in evs.items()}


def condition(m, evs):
    """The reference model conditioned on evidence (None if impossible)."""
    out = RefModel.__new__(RefModel)
    out.vs, out.kind = m.vs, m.kind
    ws = [l.weight(evs) for l in m.leaves]
    t = math.fsum(ws)
    if not t > 0:
        return None
    out.leaves = []
    for l, w in zip(m.leaves, ws):
        if w <= 0:
            continue
        n = RefLeaf.__new__(RefLeaf)
        n.idx, n.prior, n.path, n.dist = l.idx, w / t, l.path, dict(l.dist)
        for name, ev in evs.items():
            n.dist[name] = l.restricted(name, ev)
        out.leaves.append(n)
    return out
