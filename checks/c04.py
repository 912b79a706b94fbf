"""C04: restructuring a piecewise function preserves its values (reference: plfmodel)."""
import itertools
import json
import math
import pickle
from fractions import Fraction

import numpy as np

from vlib import plfmodel as pm
from vlib.plfmodel import ABSENT, U, INF, INC, EXC

C0, C2, X, DX = (0, 0, 0.), (0, 0, 2.), (0, 1., 0.), (0, -.5, 1.)
VALS = [ABSENT, U, C0, C2, X, DX]
SERIAL = [ABSENT, C0, C2, X, DX]
PTS = [0, 1, 2]


class Check:
    pid = 'C04'
    level = 'model_checking'
    technique = ('exhaustive enumeration of piecewise functions, restructuring operations with all argument positions, and operation '
                 'sequences on the real code, compared pointwise with an independent reference model')
    note = ('All functions with up to 4 pieces over {absent, undefined, constant, linear}, all crop/overwrite intervals and split points over '
            'breakpoints and gaps; sequences of two (quick) or three operations from every function of a reduced alphabet.')
    space = 'functions over 3 breakpoints and 6 piece values; intervals over 7 positions and all end types; operation sequences up to depth 2 (3)'
    assumptions = ['pieces are closed left and open right, the form every constructor of the library produces']

    def jobs(self, tier):
        n = len(VALS)
        out = [[k, a, b] for k in ('crop', 'overwrite', 'unary') for a in range(n) for b in range(n)]
        out += [['hist', a, 2 if tier == 'quick' else 3] for a in range(9)]
        out += [['build', 0, 0]]
        return out

    def run(self, job, rec):
        from jpt.base import functions as fn, intervals as iv
        self.fn, self.iv = fn, iv
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    def models(self, a, b, values=VALS, rest=None):
        for vs in itertools.product(values, repeat=len(PTS) + 1):
            if vs[0] != values[a] or vs[1] != values[b] or all(v is ABSENT for v in vs):
                continue
            if rest and not all(v in rest for v in vs[2:]):
                continue
            yield [(c, v) for c, v in zip(pm.cells(PTS), vs) if v is not ABSENT]

    def compare(self, rec, case, f, want, points, kind, allow_empty=False, undefined_matters=True, step=.5):
        rec.transitions += 1
        rec.validated += 1
        bad = []
        for x in pm.witnesses(points, step=step):
            g, w = pm.impl_value(self.fn, f, x), want(x)
            if not undefined_matters and pm.undefined(g) and pm.undefined(w):
                continue
            if not pm.close(g, w):
                bad.append((x, g, w))
        rec.check(not bad, kind, case, lambda: 'x, got, expected: %s in %s' % (bad[:4], f))
        pm.well_formed(f, rec, case, allow_empty)
        rec.state((kind, str(pm.snapshot(f))))

    def intervals(self, pos=(-1, 0, .5, 1, 1.5, 2, 3), ends=None):
        ps = [-INF] + list(pos) + [INF]
        for lo, hi in itertools.combinations_with_replacement(ps, 2):
            for l, r in itertools.product((INC, EXC), repeat=2):
                if math.isinf(lo) and l == INC or math.isinf(hi) and r == INC or lo == hi and (l, r) != (INC, INC):
                    continue
                if math.isinf(lo) and lo == hi:
                    continue
                if ends and (l, r) not in ends and lo != hi:
                    continue
                yield (lo, hi, l, r)

    # ------------------------------------------------------------------------------------------------
    def job_crop(self, rec, a, b):
        for m in self.models(a, b):
            for t in self.intervals():
                case = ['crop', m, t]
                with rec.guard(case):
                    f = pm.impl(self.iv, self.fn, m)
                    before = pm.snapshot(f)
                    r = f.crop(self.iv.ContinuousSet(*t))
                    rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                    self.compare(rec, case, r, lambda x: pm.value(m, x) if pm.inside(x, t) else 'out', PTS + [v for v in t[:2] if abs(v) < 9], 'crop')
                    self.scribble(r)
                    rec.check(pm.snapshot(f) == before, 'aliases', case)
            for x0 in (-1., 0., .5, 1., 2., 2.5):
                case = ['split', m, x0]
                with rec.guard(case):
                    f = pm.impl(self.iv, self.fn, m)
                    before = pm.snapshot(f)
                    inside = pm.value(m, x0) != 'out'
                    try:
                        lo, hi = f.split(x0)
                    except ValueError:
                        rec.check(not inside, 'split-refused', case)
                        rec.outcome('split-outside')
                        continue
                    rec.check(inside, 'split-outside-domain', case)
                    rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                    self.compare(rec, case, lo, lambda x: pm.value(m, x) if x < x0 else 'out', PTS + [x0], 'split-left', allow_empty=True)
                    self.compare(rec, case, hi, lambda x: pm.value(m, x) if x >= x0 else 'out', PTS + [x0], 'split-right', allow_empty=True)
                    self.scribble(lo)
                    self.scribble(hi)
                    rec.check(pm.snapshot(f) == before, 'aliases', case)

    def scribble(self, f):
        for i in f.intervals:
            i.lower, i.upper = -99., 99.
        for g in f.functions:
            for k in ('value', 'm', 'c'):
                try:
                    setattr(g, k, 123.)
                except AttributeError:
                    pass
        f.intervals.append(self.iv.ContinuousSet(5, 6))

    def job_overwrite(self, rec, a, b):
        new = (0, 0, 7.)
        for m in self.models(a, b, rest=(ABSENT, U, C2, X)):
            for t in self.intervals(ends=((INC, EXC), (EXC, EXC))):
                if t[0] == t[1]:
                    continue
                if t[2] == EXC and t[0] > -INF:
                    continue                 # pieces are closed on the left
                case = ['overwrite_at', m, t]
                with rec.guard(case):
                    f = pm.impl(self.iv, self.fn, m)
                    before = pm.snapshot(f)
                    g = pm.piece(self.fn, new)
                    i = self.iv.ContinuousSet(*t)
                    r = f.overwrite_at(i, g)
                    rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                    rec.check((i.lower, i.upper, i.left, i.right) == t and pm.params(g) == ('ConstantFunction', 7.), 'argument-changed', case)
                    self.compare(rec, case, r, lambda x: 7. if pm.inside(x, t) else pm.value(m, x), PTS + [v for v in t[:2] if abs(v) < 9], 'overwrite_at')
            for (k1, t1), (k2, t2) in itertools.combinations(enumerate([(-1, .5, 1, 2), (0, 1, 1, 2), (1, 1.5, 1, 2), (2, INF, 1, 2), (-INF, 0, 2, 2)]), 2):
                if t1[0] < t2[1] and t2[0] < t1[1]:
                    continue
                case = ['overwrite', m, t1, t2]
                with rec.guard(case):
                    f = pm.impl(self.iv, self.fn, m)
                    before = pm.snapshot(f)
                    r = f.overwrite({self.iv.ContinuousSet(*t1): 5., self.iv.ContinuousSet(*t2): self.fn.LinearFunction(2, 1)})
                    rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                    self.compare(rec, case, r, lambda x: 5. if pm.inside(x, t1) else 2 * x + 1 if pm.inside(x, t2) else pm.value(m, x), PTS + [-1, .5, 1.5], 'overwrite')

    def job_unary(self, rec, a, b):
        fn = self.fn
        for m in self.models(a, b):
            has_u = any(v == U for _, v in m)
            f0 = pm.impl(self.iv, fn, m)
            before = pm.snapshot(f0)
            rec.state(('f', str(before)))

            def op(name, apply, want, points=PTS, **kw):
                case = [name, m]
                with rec.guard(case):
                    f = pm.impl(self.iv, fn, m)
                    r = apply(f)
                    rec.check(pm.snapshot(f) == before, 'operand-changed', case, lambda: '%s -> %s' % (before, pm.snapshot(f)))
                    self.compare(rec, case, r, want, points, name, **kw)
                    self.scribble(r)
                    rec.check(pm.snapshot(f) == before, 'aliases', case)
                    rec.outcome(name)
            same = lambda x: pm.value(m, x)
            op('copy', lambda f: f.copy(), same)
            op('simplify', lambda f: f.simplify(), same)
            with rec.guard(['simplify-minimal', m]):
                s = f0.simplify()
                rec.check(not any(i.contiguous(j) and g == h for i, j, g, h in zip(s.intervals, s.intervals[1:], s.functions, s.functions[1:])),
                          'simplify-redundant', ['simplify-minimal', m])
            op('pickle', lambda f: pickle.loads(pickle.dumps(f)), same) if hasattr(fn.PiecewiseFunction, '__setstate__') else None
            op('drop_undef', lambda f: f.drop_undef(), lambda x: 'out' if pm.undefined(same(x)) else same(x))
            for d in (-1.5, .5, 1.):
                op('xshift%s' % d, lambda f: f.xshift(d), lambda x: same(Fraction(x) + Fraction(d)), points=[p - d for p in PTS], step=.25)
            for k in (0., -2., .5):
                op('stretch%s' % k, lambda f: f.stretch(k), lambda x: 'out' if same(x) == 'out' else k * same(x))
            op('xmirror', lambda f: f.xmirror(), lambda x: same(-x), points=[-p for p in PTS])
            if not has_u:
                op('json', lambda f: fn.PiecewiseFunction.from_json(json.loads(json.dumps(f.to_json()))), same)
                op('round', lambda f: f.round(6), same, step=.25)
                op('round-fct', lambda f: f.round(6, include_intervals=False), same, step=.25)
            # lookup and evaluation agree everywhere
            case = ['eval', m]
            with rec.guard(case):
                f = pm.impl(self.iv, fn, m)
                ws = pm.witnesses(PTS, step=.5) + [1e9, -1e9]
                v1 = f.multi_eval(np.array(ws))
                v2 = f(np.array(ws))
                dom = f.domain()
                for k, x in enumerate(ws):
                    w = same(x)
                    n = math.nan if w == 'out' else w
                    rec.transitions += 1
                    ok = all(pm.close(float(v), n) for v in (f.eval(x), f(x), v1[k], v2[k]))
                    rec.check(ok, 'eval', case + [x], lambda: '%s %s %s expected %s' % (f.eval(x), v1[k], v2[k], n))
                    idx = f.idx_at(x)
                    e = [j for j, (t, _) in enumerate(m) if pm.inside(x, t)]
                    rec.check(idx == (e[0] if e else -1), 'idx_at', case + [x], lambda: str(idx))
                    i = f.interval_at(x)
                    rec.check((i.lower, i.upper) == m[e[0]][0][:2] if e else i.isempty(), 'interval_at', case + [x])
                    rec.check((x in dom) == bool(e), 'domain', case + [x])
                rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                bs = {p for t, _ in m for p in t[:2] if abs(p) < 9}
                gaps = {t[1] for t, _ in m} - {t[0] for t, _ in m}
                got = list(f.boundaries())
                rec.check(got == sorted(got) and all(any(abs(g - p) < 1e-9 for p in bs) for g in got)
                          and all(any(abs(g - p) < 1e-9 for g in got) for p in bs), 'boundaries', case, lambda: str(got))
            if not has_u:
                bounded = all(abs(t[0]) < 9 and abs(t[1]) < 9 for t, v in m if v[1])
                case = ['rectify', m]
                if bounded:
                    op('rectify', lambda f: f.rectify(), lambda x: self.rect(m, x))

    @staticmethod
    def rect(m, x):
        for t, v in m:
            if pm.inside(x, t):
                return v[2] if not v[1] else v[1] * (t[0] + t[1]) / 2 + v[2]
        return 'out'

    # ------------------------------------------------------------------------------------------------
    def job_build(self, rec, *_):
        """from_dict sorts its segments; from_points interpolates the points."""
        fn, iv = self.fn, self.iv
        cs = pm.cells(PTS)
        for vs in itertools.product([ABSENT, C0, X], repeat=4):
            m = [(c, v) for c, v in zip(cs, vs) if v is not ABSENT]
            for perm in itertools.permutations(m):
                case = ['from_dict', perm]
                with rec.guard(case):
                    f = fn.PiecewiseFunction.from_dict({iv.ContinuousSet(*t): (v[2] if not v[1] else pm.piece(fn, v)) for t, v in perm})
                    self.compare(rec, case, f, lambda x: pm.value(m, x), PTS, 'from_dict')
        for ys in itertools.product([0., 1., -.5], repeat=4):
            for xs in ([0., 1., 2., 3.], [-1., 0., .5, 4.]):
                for n in (2, 3, 4):
                    p = list(zip(xs, ys))[:n]
                    case = ['from_points', p]
                    with rec.guard(case):
                        f = fn.PiecewiseFunction.from_points(p)

                        def want(x):
                            if x < p[0][0] or x > p[-1][0]:
                                return 'out'
                            for (x1, y1), (x2, y2) in zip(p, p[1:]):
                                if x <= x2:
                                    return y1 + (y2 - y1) * (x - x1) / (x2 - x1)
                        self.compare(rec, case, f, want, xs[:n], 'from_points', step=.25)
        z = fn.PiecewiseFunction.zero()
        with rec.guard('zero'):
            self.compare(rec, 'zero', z, lambda x: 0., [0], 'zero')

    # ------------------------------------------------------------------------------------------------
    def ops(self):
        """(name, implementation, model) for sequences; the model maps a value function to a value function."""
        fn, iv = self.fn, self.iv
        cs = lambda *t: iv.ContinuousSet(*t)
        out = []
        for t in ((-INF, 1, EXC, EXC), (0, 2, INC, EXC), (.5, INF, INC, EXC), (.5, 1.5, INC, EXC)):
            out.append((['crop', t], lambda f, t=t: f.crop(cs(*t)), lambda v, t=t: lambda x: v(x) if pm.inside(x, t) else 'out'))
        for t in ((-INF, 0, EXC, EXC), (0, 1, INC, EXC), (.5, 1.5, INC, EXC), (1, INF, INC, EXC), (2, 3, INC, EXC)):
            out.append((['over', t], lambda f, t=t: f.overwrite_at(cs(*t), fn.LinearFunction(1, 1)),
                        lambda v, t=t: lambda x: x + 1 if pm.inside(x, t) else v(x)))
        for d in (.5, -1.):
            out.append((['shift', d], lambda f, d=d: f.xshift(d), lambda v, d=d: lambda x: v(x + d)))
        out.append((['mirror'], lambda f: f.xmirror(), lambda v: lambda x: v(-x)))
        out.append((['simplify'], lambda f: f.simplify(), lambda v: v))
        out.append((['stretch'], lambda f: f.stretch(2.), lambda v: lambda x: v(x) if v(x) == 'out' else 2. * v(x)))
        return out

    def job_hist(self, rec, part, depth):
        """Breadth-first over histories; points right at (shifted, mirrored) breakpoints are left out since mirrored pieces
        move by one float."""
        ops = self.ops()
        ms = [m for m in pm.functions([0, 1], [ABSENT, C2, X])][part::9]
        grid = [x / 4 + .0625 for x in range(-24, 25)]
        for m in ms:
            for d in range(1, depth + 1):
                for seq in itertools.product(ops, repeat=d):
                    case = ['hist', m, [s[0] for s in seq]]
                    with rec.guard(case):
                        f = pm.impl(self.iv, self.fn, m)
                        v = lambda x: pm.value(m, x)
                        trail = []
                        for _, impl, model in seq:
                            if not f.intervals:
                                break
                            trail.append((f, pm.snapshot(f)))
                            f, v = impl(f), model(v)
                        else:
                            rec.transitions += 1
                            rec.validated += 1
                            bad = [(x, pm.impl_value(self.fn, f, x), v(x)) for x in grid if not pm.close(pm.impl_value(self.fn, f, x), v(x))]
                            rec.check(not bad, 'history', case, lambda: '%s in %s' % (bad[:3], f))
                            pm.well_formed(f, rec, case)
                            rec.state(('hist', str(pm.snapshot(f))))
                            rec.check(all(pm.snapshot(g) == s for g, s in trail), 'operand-changed', case)


CHECK = Check()
