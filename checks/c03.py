"""C03: arithmetic, comparison, integration on piecewise functions is pointwise (reference: plfmodel)."""
import itertools
import math
from fractions import Fraction

from vlib import plfmodel as pm
from vlib.plfmodel import ABSENT, U, INF, INC, EXC

C0, C2, CM = (0, 0, 0.), (0, 0, 2.), (0, 0, -1.)
X, DX, Q = (0, 1., 0.), (0, -.5, 1.), (0, 2., -1.)

V_ARITH = [ABSENT, U, C0, C2, X]
V_COMB = [ABSENT, C2, X, DX, Q]
V_THR = [ABSENT, C0, C2, CM, X, DX]
V_INT = [ABSENT, C0, C2, X, DX]
PTS = {'same': ([0, 1], [0, 1]), 'inter': ([0, 1], [.5, 2]), 'touch': ([0, 1], [1, 2]), 'outer': ([-1, 2], [0, 1]),
       'single': ([0], [0, 1])}


class Check:
    pid = 'C03'
    level = 'model_checking'
    technique = ('exhaustive enumeration of pairs of piecewise functions over small breakpoint/coefficient alphabets on the real code, '
                 'compared pointwise with an independent reference model')
    note = ('Every pair of functions over the alphabets, five relative positions of the breakpoints, every operation; values are compared at '
            'all breakpoints, their float neighbours and a quarter grid, integrals with exact piecewise integrals.')
    space = 'pairs of functions with up to 3-4 pieces (absent, undefined, constant, linear) and five breakpoint layouts; thresholds; integration bounds'
    assumptions = ['values between two witnesses follow from the piece coefficients', 'pieces are closed left and open right, the form every constructor of the library produces']

    def jobs(self, tier):
        out = []
        n = len(V_ARITH)
        for lay in PTS:
            if tier == 'thorough' or lay in ('inter', 'single'):
                out += [['arith', lay, a, b] for a in range(n) for b in range(n)]
            if tier == 'thorough' or lay in ('inter', 'touch'):
                out += [['comb', lay, a, b] for a in range(n) for b in range(n)]
        out += [['thr', a, b] for a in range(len(V_THR)) for b in range(len(V_THR))]
        out += [['int', a, b] for a in range(len(V_INT)) for b in range(len(V_INT))]
        out += [['conv', a] for a in range(3)]
        out += [['elem']]
        if tier == 'thorough':
            out += [['hist', a] for a in range(len(V_COMB))]
        else:
            out += [['hist', a] for a in range(0, len(V_COMB), 2)]
        return out

    def run(self, job, rec):
        from jpt.base import functions as fn, intervals as iv
        self.fn, self.iv = fn, iv
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------
    def compare(self, rec, case, f, want, points, kind):
        """f(x) must be want(x) at all witnesses; 'out' and undefined are the same for the result."""
        rec.transitions += 1
        rec.validated += 1
        bad = []
        for x in pm.witnesses(points, step=.5):
            g, w = pm.impl_value(self.fn, f, x), want(x)
            if pm.undefined(g) and pm.undefined(w):
                continue
            if not pm.close(g, w):
                bad.append((x, g, w))
        rec.check(not bad, kind, case, lambda: 'x, got, expected: %s in %s' % (bad[:4], f))
        pm.well_formed(f, rec, case)
        rec.state((kind, str(pm.snapshot(f))))

    def pairs(self, lay, values, a, b):
        p, q = PTS[lay]
        fs = [m for m in pm.functions(p, values)]
        first = [m for m in itertools.product(values, repeat=len(p) + 1)]
        for i, vs in enumerate(first):
            if vs[0] != values[a] or (len(vs) > 1 and vs[1] != values[b]):
                continue
            if all(v is ABSENT for v in vs):
                continue
            m1 = [(c, v) for c, v in zip(pm.cells(p), vs) if v is not ABSENT]
            for m2 in pm.functions(q, values):
                yield p, q, m1, m2

    def job_arith(self, rec, lay, a, b):
        for p, q, m1, m2 in self.pairs(lay, V_ARITH, a, b):
            pts = p + q
            for op in ('add', 'mul', 'sub', '+', '*'):
                case = [op, m1, m2]
                if op in ('add', 'mul') and lay != 'single':
                    continue
                with rec.guard(case):
                    f, g = pm.impl(self.iv, self.fn, m1), pm.impl(self.iv, self.fn, m2)
                    before = pm.snapshot(f), pm.snapshot(g)
                    if op == 'add':
                        r = f.add(g)
                    elif op == '+':
                        r = f + g
                    elif op == 'mul':
                        r = f.mul(g)
                    elif op == '*':
                        r = f * g
                    else:
                        r = f - g
                    rec.check((pm.snapshot(f), pm.snapshot(g)) == before, 'operand-changed', case)

                    def want(x):
                        v, w = pm.value(m1, x), pm.value(m2, x)
                        if pm.undefined(v) or pm.undefined(w):
                            return math.nan
                        return v + w if op in ('add', '+') else v * w if op in ('mul', '*') else v - w
                    self.compare(rec, case, r, want, pts, op)
                    rec.outcome(op)
        # scalars and single functions
        p = PTS[lay][0]
        for vs in itertools.product(V_ARITH, repeat=len(p) + 1):
            if vs[0] != V_ARITH[a] or vs[1] != V_ARITH[b] or all(v is ABSENT for v in vs):
                continue
            m = [(c, v) for c, v in zip(pm.cells(p), vs) if v is not ABSENT]
            for k in (0., 1., -2., .5):
                for op, r_, w in (('+s', lambda f: f + k, lambda v: v + k), ('*s', lambda f: f * k, lambda v: v * k),
                                  ('s*', lambda f: k * f, lambda v: v * k), ('s+', lambda f: k + f, lambda v: v + k),
                                  ('/s', lambda f: f / k, lambda v: v / k), ('stretch', lambda f: f.stretch(k), lambda v: v * k),
                                  ('addlin', lambda f: f.add(self.fn.LinearFunction(1, k)), None)):
                    if op == '/s' and not k:
                        continue
                    case = [op, m, k]
                    with rec.guard(case):
                        f = pm.impl(self.iv, self.fn, m)
                        before = pm.snapshot(f)
                        r = r_(f)
                        rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                        if w is None:
                            want = (lambda x: math.nan if pm.undefined(pm.value(m, x)) else pm.value(m, x) + x + k)
                        else:
                            want = (lambda x: math.nan if pm.undefined(pm.value(m, x)) else w(pm.value(m, x)))
                        self.compare(rec, case, r, want, p, op)

    def job_comb(self, rec, lay, a, b):
        fn = self.fn
        for p, q, m1, m2 in self.pairs(lay, V_COMB, a, b):
            doms = [any(pm.value(m1, x) != 'out' and pm.value(m2, x) != 'out' for x in pm.witnesses(p + q))]
            for op in ('max', 'min'):
                case = [op, m1, m2]
                with rec.guard(case):
                    f, g = pm.impl(self.iv, fn, m1), pm.impl(self.iv, fn, m2)
                    before = pm.snapshot(f), pm.snapshot(g)
                    r = getattr(fn.PiecewiseFunction, op)(f, g)
                    rec.check((pm.snapshot(f), pm.snapshot(g)) == before, 'operand-changed', case)
                    sel = max if op == 'max' else min

                    def want(x):
                        v, w = pm.value(m1, x), pm.value(m2, x)
                        return math.nan if pm.undefined(v) or pm.undefined(w) else sel(v, w)
                    self.compare(rec, case, r, want, p + q, op)
                    rec.outcome(op + ('' if doms[0] else '-disjoint'))
        p = PTS[lay][0]
        for vs in itertools.product(V_THR, repeat=len(p) + 1):
            if vs[0] != V_COMB[a] or vs[1] != V_COMB[b] or all(v is ABSENT for v in vs):
                continue
            m = [(c, v) for c, v in zip(pm.cells(p), vs) if v is not ABSENT]
            case = ['abs', m]
            with rec.guard(case):
                r = fn.PiecewiseFunction.abs(pm.impl(self.iv, fn, m))
                self.compare(rec, case, r, lambda x: math.nan if pm.undefined(pm.value(m, x)) else abs(pm.value(m, x)), p, 'abs')

    # ------------------------------------------------------------------------------------------------
    def job_thr(self, rec, a, b):
        p = [0, 1, 2]
        for vs in itertools.product(V_THR, repeat=len(p) + 1):
            if vs[0] != V_THR[a] or vs[1] != V_THR[b] or all(v is ABSENT for v in vs):
                continue
            m = [(c, v) for c, v in zip(pm.cells(p), vs) if v is not ABSENT]
            for y in (0., 2., 1., -1., .75):
                for op, rel in (('lt', lambda v: v < y), ('gt', lambda v: v > y), ('eq', lambda v: v == y)):
                    case = [op, m, y]
                    with rec.guard(case):
                        f = pm.impl(self.iv, self.fn, m)
                        before = pm.snapshot(f)
                        r = getattr(f, op)(y)
                        rec.transitions += 1
                        rec.state((op, str(r)))
                        rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                        bad = []
                        for x in pm.witnesses(p, step=.125):
                            v = pm.value(m, x)
                            if not pm.undefined(v):          # exact arithmetic, also for the smallest floats
                                _, s, c = next(v_ for t, v_ in m if pm.inside(x, t))
                                v = Fraction(s) * Fraction(x) + Fraction(c)
                            want = not pm.undefined(v) and rel(v)
                            if (x in r) != want and not (op == 'eq' and not want and self.jumps(m, x, y)):
                                bad.append((x, x in r, want))
                        rec.check(not bad, op, case, lambda: 'x, got, expected: %s in %r' % (bad[:4], r))
            # global maximum of bounded functions
            if all(v in (C0, C2, CM) or c[0] > -INF and c[1] < INF for c, v in m):
                case = ['maximize', m]
                with rec.guard(case):
                    f = pm.impl(self.iv, self.fn, m)
                    arg, mx = f.maximize()
                    ws = [x for x in pm.witnesses(p) if pm.value(m, x) != 'out']
                    top = max(pm.value(m, x) for x in ws)
                    rec.transitions += 1
                    rec.check(pm.close(mx, top), 'maximize', case, lambda: '%s vs %s' % (mx, top))
                    bad = [x for x in ws if x in arg and pm.value(m, x) < top - 1e-9]
                    bad += [x for x in ws if x not in arg and any(pm.inside(x, c) and v == (0, 0, top) for c, v in m)]
                    rec.check(bool(arg), 'argmax', case, lambda: 'empty')
                    rec.check(not bad, 'argmax', case, lambda: '%r %s' % (arg, bad[:5]))

    def jumps(self, m, x, y):
        """eq() also reports breakpoints where the function jumps across y."""
        lo, hi = pm.value(m, math.nextafter(x, -INF)), pm.value(m, x)
        prev = [v for t, v in m if t[1] <= x]
        if pm.undefined(hi) or not prev:
            return False
        lo = prev[-1][1] * x + prev[-1][2]
        return lo < y < hi or lo > y > hi

    # ------------------------------------------------------------------------------------------------
    @staticmethod
    def integral(m, lo, hi):
        tot = 0.
        for (a, b, l, r), (_, s, c) in m:
            a, b = max(a, lo), min(b, hi)
            if a >= b:
                continue
            if not s and not c:
                continue
            if math.isinf(a) and math.isinf(b):
                tot += math.nan if s else math.copysign(INF, c)
            elif math.isinf(b):
                tot += math.copysign(INF, s or c)
            elif math.isinf(a):
                tot += math.copysign(INF, -s or c)
            else:
                tot += s * (b * b - a * a) / 2 + c * (b - a)
        return tot

    def job_int(self, rec, a, b):
        p = [0, 1, 2]
        bounds = [-INF, -1., 0., .5, 1., 1.75, 2., 3., INF]
        for vs in itertools.product(V_INT, repeat=len(p) + 1):
            if vs[0] != V_INT[a] or vs[1] != V_INT[b] or all(v is ABSENT for v in vs):
                continue
            m = [(c, v) for c, v in zip(pm.cells(p), vs) if v is not ABSENT]
            f = pm.impl(self.iv, self.fn, m)
            before = pm.snapshot(f)
            for lo, hi in itertools.combinations(bounds, 2):
                for l, r in ((EXC, EXC), (INC, EXC), (EXC, INC), (INC, INC)):
                    if math.isinf(lo) and l == INC or math.isinf(hi) and r == INC:
                        continue
                    case = ['integrate', m, [lo, hi, l, r]]
                    with rec.guard(case):
                        v = f.integrate(self.iv.ContinuousSet(lo, hi, l, r))
                        w = self.integral(m, lo, hi)
                        rec.transitions += 1
                        rec.state(('int', w))
                        rec.check(pm.close(v, w), 'integrate', case, lambda: '%s expected %s' % (v, w))
            case = ['integrate', m]
            with rec.guard(case):
                rec.check(pm.close(f.integrate(), self.integral(m, -INF, INF)), 'integrate-all', case)
                d = f.differentiate()
                rec.check(pm.snapshot(f) == before, 'operand-changed', case)
                dm = [(c, (0, 0, v[1])) for c, v in m]
                self.compare(rec, ['differentiate', m], d, lambda x: pm.value(dm, x), p, 'differentiate')
                # the derivative of the integral from a fixed point, piece by piece
                for c, v in m:
                    lo, hi = max(c[0], -2.), min(c[1], 4.)
                    got = d.integrate(self.iv.ContinuousSet(lo, hi, INC, EXC))
                    rec.check(pm.close(got, v[1] * (hi - lo)), 'integral-of-derivative', ['id', m, [lo, hi]])

    # ------------------------------------------------------------------------------------------------
    def job_conv(self, rec, a):
        """Convolution of step functions with bounded support."""
        fn, iv = self.fn, self.iv
        vals = [0., 1., .5]
        supports = [[0, 1], [0, 1, 2], [-1, .5, 2], [0, 1, 1.5]]
        models = []
        for s in supports:
            for vs in itertools.product(vals, repeat=len(s) - 1):
                if not vs[0] or not vs[-1]:
                    continue
                cs = pm.cells(s)
                models.append([(c, (0, 0, v)) for c, v in zip(cs, (0.,) + vs + (0.,))])
        for i, m1 in enumerate(models):
            if i % 3 != a:
                continue
            for m2 in models:
                case = ['convolution', m1, m2]
                with rec.guard(case):
                    f, g = pm.impl(iv, fn, m1), pm.impl(iv, fn, m2)
                    before = pm.snapshot(f), pm.snapshot(g)
                    r = f.convolution(g)
                    rec.check((pm.snapshot(f), pm.snapshot(g)) == before, 'operand-changed', case)
                    rec.transitions += 1
                    rec.state(('conv', str(pm.snapshot(r))))
                    bad = []
                    x = -3.
                    while x <= 5:
                        w = 0.
                        for (lo, hi, _, _), (_, _, c) in m1[1:-1]:
                            for (lo2, hi2, _, _), (_, _, c2) in m2[1:-1]:
                                u, v = max(lo, x - hi2), min(hi, x - lo2)
                                if u < v:
                                    w += c * c2 * (v - u)
                        y = pm.impl_value(fn, r, x)
                        if not pm.close(y, w):
                            bad.append((x, y, w))
                        x += .125
                    rec.check(not bad, 'convolution', case, lambda: '%s in %s' % (bad[:4], r))

    # ------------------------------------------------------------------------------------------------
    def job_elem(self, rec):
        self.elem_scalars(rec)
        self.knots(rec)
        """Arithmetic of elementary functions: undefined, constant, linear, quadratic."""
        fn = self.fn
        els = [U] + [(0, 0, c) for c in (0., 1., -2.)] + [(0, m, c) for m in (1., -.5) for c in (0., 2.)] + [(1., 0., -1.), (-2., 1., 0.)]

        def ev(v, x):
            return math.nan if v == U else v[0] * x * x + v[1] * x + v[2]
        for v in els:
            for w in els:
                for op in ('+', '*', 'add', 'mul'):
                    if op in ('*', 'mul') and v != U and w != U and (v[0] and (w[0] or w[1]) or w[0] and v[1]):
                        continue          # cubic and quartic products are not represented
                    case = [op, v, w]
                    with rec.guard(case):
                        f, g = pm.piece(fn, v), pm.piece(fn, w)
                        before = pm.params(f), pm.params(g)
                        r = {'+': lambda: f + g, '*': lambda: f * g, 'add': lambda: f.add(g), 'mul': lambda: f.mul(g)}[op]()
                        rec.transitions += 1
                        rec.state((op, pm.params(r)))
                        rec.check((pm.params(f), pm.params(g)) == before, 'operand-changed', case)
                        for x in (-3., -1., 0., .5, 2., 7.):
                            e = ev(v, x) + ev(w, x) if op in ('+', 'add') else ev(v, x) * ev(w, x)
                            rec.check(pm.close(r.eval(x), e), 'elem', case + [x], lambda: '%s expected %s' % (r.eval(x), e))
            if v != U and not v[0]:
                f = pm.piece(fn, v)
                for lo in (-INF, -2., 0., 1.):
                    for hi in (-2., 0., 3., INF):
                        if lo <= hi:
                            case = ['elem-int', v, lo, hi]
                            with rec.guard(case):
                                e = self.integral([((lo, hi, 1, 2), v)], lo, hi)
                                rec.check(pm.close(f.integrate(lo, hi), e), 'elem-int', case, lambda: '%s expected %s' % (f.integrate(lo, hi), e))
                                rec.transitions += 1
                for w in els:
                    if w == U or w[0]:
                        continue
                    g = pm.piece(fn, w)
                    case = ['cross', v, w]
                    with rec.guard(case):
                        s = f.intersection(g)
                        rec.transitions += 1
                        for x in (-4., -2., 0., 1., 2., 4., 4 / 3, -2 / 3, 1 / 1.5):
                            e = ev(v, x) == ev(w, x)
                            if abs(ev(v, x) - ev(w, x)) > 1e-9 or e:
                                rec.check((x in s) == e, 'cross', case + [x], lambda: '%r' % s)

    def knots(self, rec):
        """Hinges, jumps and impulses; the functions of a normal distribution."""
        fn = self.fn
        for k, w in itertools.product([-1., 0., 2.5], [1., -2., .125]):
            xs = [k - 3, k - .5, math.nextafter(k, -INF), k, math.nextafter(k, INF), k + .5, k + 3]
            for alpha in (1, -1):
                case = ['knot', k, w, alpha]
                with rec.guard(case):
                    rec.transitions += 1
                    rec.state(tuple(case))
                    h, j = fn.Hinge(k, alpha, w), fn.Jump(k, alpha, w)
                    d = h.differentiate()
                    rec.check((h.knot, h.weight, h.alpha, j.knot, j.weight, j.alpha) == (k, w, alpha) * 2, 'knot', case)
                    for x in xs:
                        rec.validated += 1
                        # alpha = 1: zero to the right of the knot, alpha = -1: zero to the left
                        on = x <= k if alpha == 1 else x >= k
                        rec.check(pm.close(h.eval(x), (abs(x - k) if on else 0) * w), 'hinge', case + [x], lambda: h.eval(x))
                        rec.check(j.eval(x) == (w if on else 0), 'jump', case + [x], lambda: j.eval(x))
                        if x != k:
                            rec.check(pm.close(d.eval(x), (-alpha if on else 0) * w), 'hinge-derivative', case + [x], lambda: d.eval(x))
                    p = j.differentiate()
                    rec.check([p.eval(x) == 0 for x in xs] == [x != k for x in xs], 'jump-derivative', case, lambda: str(p))
            case = ['impulse', k, w]
            with rec.guard(case):
                p = fn.Impulse(k, w)
                rec.check([p.eval(x) for x in xs] == [w if x == k else 0 for x in xs], 'impulse', case, lambda: [p.eval(x) for x in xs])
                q = fn.Jump.from_point((k, w), 1)
                rec.check((q.knot, q.weight, q.alpha) == (k, w, 1), 'jump-point', case, lambda: str(q))
        for bad in (0, 2, -3):
            for f in (fn.Hinge, fn.Jump):
                try:
                    f(0., bad, 1.)
                    rec.fail('orientation', [f.__name__, bad])
                except (AssertionError, ValueError):
                    pass
        phi = lambda z: .5 * (1 + math.erf(z / math.sqrt(2)))
        for mu, sigma in itertools.product([-1., 0., 2.5], [.5, 1., 3.]):
            case = ['normal', mu, sigma]
            with rec.guard(case):
                rec.state(tuple(case))
                pdf, cdf, ppf = fn.GaussianPDF(mu, sigma), fn.GaussianCDF(mu, sigma), fn.GaussianPPF(mu, sigma)
                for z in (-3., -1., -.25, 0., .5, 2.):
                    rec.transitions += 3
                    x = mu + sigma * z
                    rec.check(abs(pdf.eval(x) - math.exp(-z * z / 2) / (sigma * math.sqrt(2 * math.pi))) < 1e-9, 'normal-density', case + [x], lambda: pdf.eval(x))
                    rec.check(abs(cdf.eval(x) - phi(z)) < 1e-9, 'normal-cdf', case + [x], lambda: cdf.eval(x))
                    rec.check(abs(ppf.eval(phi(z)) - x) < 1e-6, 'normal-ppf', case + [x], lambda: ppf.eval(phi(z)))

    def elem_scalars(self, rec):
        fn = self.fn
        for v in [(0, 0, 2.), (0, 1., 0.), (0, -.5, 1.)]:
            for k in (0., 1., -2.5, 3):
                for op, r_, w in (('f-k', lambda f: f - k, lambda y: y - k), ('f+k', lambda f: f + k, lambda y: y + k),
                                  ('k+f', lambda f: k + f, lambda y: y + k), ('f*k', lambda f: f * k, lambda y: y * k),
                                  ('k*f', lambda f: k * f, lambda y: y * k)):
                    if op == 'f-k' and not v[1]:
                        continue
                    case = [op, v, k]
                    with rec.guard(case):
                        f = pm.piece(fn, v)
                        before = pm.params(f)
                        r = r_(f)
                        rec.transitions += 1
                        rec.check(pm.params(f) == before, 'operand-changed', case)
                        for x in (-2., 0., 1.5):
                            rec.check(pm.close(r.eval(x), w(v[1] * x + v[2])), 'elem-scalar', case + [x], lambda: str(r))

    # ------------------------------------------------------------------------------------------------
    def job_hist(self, rec, a):
        """Sequences of two operations: ((f op g) op h), each result re-used as an operand."""
        fn, iv = self.fn, self.iv
        vals = [ABSENT, C0, X]
        fs = [m for m in pm.functions([0, 1], [ABSENT, C2, X])]          # 26 functions
        gs = [m for m in pm.functions([.5], vals)]
        hs = [m for m in pm.functions([0], [C2, X])]
        ops = {'+': lambda f, g: f + g, '*': lambda f, g: f * g, '-': lambda f, g: f - g}
        ev = {'+': lambda v, w: v + w, '*': lambda v, w: v * w, '-': lambda v, w: v - w}
        for m1 in fs[a::len(V_COMB)]:
            for m2, m3 in itertools.product(gs, hs):
                for o1, o2 in itertools.product(ops, repeat=2):
                    if '*' in (o1, o2) and any(v == X for _, v in m1) and any(v == X for _, v in m2) and o2 == '*':
                        continue
                    case = ['hist', o1, o2, m1, m2, m3]
                    with rec.guard(case):
                        f, g, h = (pm.impl(iv, fn, m) for m in (m1, m2, m3))
                        r1 = ops[o1](f, g)
                        s = pm.snapshot(r1)
                        if any(k[0] == 'QuadraticFunction' for k in s[1]) and o2 == '*':
                            continue
                        r2 = ops[o2](r1, h)
                        rec.check(pm.snapshot(r1) == s, 'operand-changed', case)
                        for m, o in ((m1, f), (m2, g), (m3, h)):
                            rec.check(pm.snapshot(o) == pm.snapshot(pm.impl(iv, fn, m)), 'operand-changed', case)

                        def want(x):
                            v, w, u = pm.value(m1, x), pm.value(m2, x), pm.value(m3, x)
                            if 'out' in (v, w, u):
                                return math.nan
                            return ev[o2](ev[o1](v, w), u)
                        self.compare(rec, case, r2, want, [0, .5, 1], 'hist')


CHECK = Check()
