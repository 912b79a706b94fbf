"""C25: approximations of a (distribution) function keep what they promise."""
import copy
import itertools
import math

from vlib import corpus, distmodel as dm, trees as tr
from vlib.distmodel import INF, INC, EXC, Measure

ERRS = [None, 0., .02, .06, .15, .5]


class Check:
    pid = 'C25'
    level = 'model_checking'
    technique = ('exhaustive enumeration of piecewise functions, distribution functions, piece limits and error bounds on the real approximation, compared with a reference of the documented '
                 'greedy procedure (where its choices are unambiguous) and with limits, monotonicity, support, piece counts, exact errors and maximality in all cases')
    note = 'Also approximations of fitted and merged distributions, cumulative sums and pruned models; arguments are never modified.'
    space = ('all functions with up to 5 pieces of 3 values (with gaps, closed or infinite ends), all linear functions with up to 3 pieces, all measures with atoms and segments on 4-5 '
             'points, all fits to up to 5 samples and merges thereof; 4 piece limits x 6 error bounds')
    assumptions = ['errors are compared up to 1e-9']

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['const', k, 8 * (1 + 3 * t), t] for k in range(8 * (1 + 3 * t))]
        out += [['linear', k, 8 * (1 + 3 * t), t] for k in range(8 * (1 + 3 * t))]
        out += [['cdf', k, 12 * (1 + 3 * t), t] for k in range(12 * (1 + 3 * t))]
        out += [['fits', k, 6, t] for k in range(6)]
        out += [['models', k, 6, t] for k in range(6)]
        out += [['cumsum', k, 3, t] for k in range(3)]
        return out

    def run(self, job, rec):
        from jpt.base import functions as fn, intervals as iv
        from jpt.distributions import Numeric
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        self.fn, self.iv, self.Numeric, self.QD = fn, iv, Numeric, QuantileDistribution
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    # reference: pieces (lo, hi, left, right, slope, offset, original piece or None)
    def pieces(self, f):
        return [(float(i.lower), float(i.upper), int(i.left), int(i.right)) + dm.coeffs(g) for i, g in zip(f.intervals, f.functions)]

    def mae(self, orig, lo, hi, m, c):
        """Exact mean absolute difference of m*x + c and the original function between lo and hi."""
        total = 0.
        for a, b, _, _, n, d in orig:
            a, b = max(a, lo), min(b, hi)
            if a >= b:
                continue
            u, v = (n - m) * a + d - c, (n - m) * b + d - c
            if u * v >= 0:
                total += (abs(u) + abs(v)) / 2 * (b - a)
            else:
                total += (u * u + v * v) / (2 * abs(u - v)) * (b - a)
        return total / (hi - lo)

    def candidate(self, orig, p, q, linear):
        lo, hi = p[0], q[1]
        y0, y1 = p[4] * lo + p[5], q[4] * hi + q[5]
        if linear:
            m = (y1 - y0) / (hi - lo)
            c = y0 - m * lo
        else:
            m, c = 0., y0 * (p[1] - p[0]) / (hi - lo) + y1 * (q[1] - q[0]) / (hi - lo)
        return self.mae(orig, lo, hi, m, c), (lo, hi, p[2], q[3], m, c)

    def mergeable(self, p, q):
        return p[1] == q[0] and p[3] != q[2] and p[0] > -INF and q[1] < INF

    def greedy(self, orig, err, k, linear):
        """Result of the documented procedure, or None where a choice is a matter of rounding."""
        cur = list(orig)
        while True:
            cand = sorted((self.candidate(orig, p, q, linear) + (n,) for n, (p, q) in enumerate(zip(cur, cur[1:])) if self.mergeable(p, q)), key=lambda x: x[0])
            if not cand or len(cur) <= (3 if k is None else k):
                return cur
            e, new, n = cand[0]
            if err is not None and abs(e - err) < 1e-9:
                return None
            if err is not None and e > err:
                return cur
            if len(cand) > 1 and cand[1][0] - e < 1e-9:
                return None
            cur[n:n + 2] = [new]

    def judge(self, rec, case, f, g, err, k, linear):
        """All conditions on the approximation g of f."""
        orig, got = self.pieces(f), self.pieces(g)
        scale = 1 + max(abs(p[4] * x + p[5]) for p in orig for x in p[:2] if not math.isinf(x)) if any(not math.isinf(x) for p in orig for x in p[:2]) else 1
        tol = 1e-9 * scale
        near = lambda a, b: a == b or abs(a - b) <= tol
        same = lambda p, q: p[:4] == q[:4] and all(near(p[4] * x + p[5], q[4] * x + q[5]) for x in ((p[0], p[1]) if not math.isinf(p[0] + p[1]) else (0,) if math.isinf(p[0]) and
                                                                                                 math.isinf(p[1]) else (p[0] if math.isinf(p[1]) else p[1],)))
        # every piece is an original one or spans a run of contiguous finite ones
        n = 0
        for q in got:
            start = n
            if n >= len(orig) or orig[n][0] != q[0] or orig[n][2] != q[2]:
                rec.fail('pieces', case, (q, self.show(orig), self.show(got)))
                return False
            while n < len(orig) and orig[n][1] < q[1]:
                n += 1
            if n >= len(orig) or orig[n][1] != q[1] or orig[n][3] != q[3] or not all(self.mergeable(a, b) for a, b in zip(orig[start:n + 1], orig[start + 1:n + 1])):
                rec.fail('pieces', case, (q, self.show(orig), self.show(got)))
                return False
            if n == start:
                if not rec.check(same(orig[n], q), 'kept-piece', case, lambda: (orig[n], q)):
                    return False
            else:
                e = self.mae(orig, q[0], q[1], q[4], q[5])
                if not rec.check(err is None or e <= err + tol, 'error-exceeded', case, lambda: (q, e, err)):
                    return False
                if linear:
                    y = [(x, o[4] * x + o[5]) for x, o in ((q[0], orig[start]), (q[1], orig[n]))]
                    if not rec.check(all(near(q[4] * x + q[5], v) for x, v in y), 'ends', case, lambda: (q, y)):
                        return False
                else:
                    mean = sum((o[4] * o[0] + o[5] + o[4] * o[1] + o[5]) / 2 * (o[1] - o[0]) for o in orig[start:n + 1]) / (q[1] - q[0])
                    if all(o[4] == 0 for o in orig[start:n + 1]) and not rec.check(near(q[5], mean), 'mean', case, lambda: (q, mean)):
                        return False
            n += 1
        if not rec.check(n == len(orig), 'pieces', case, lambda: (self.show(orig), self.show(got))):
            return False
        limit = 3 if k is None else k
        pairs = [(p, q) for p, q in zip(got, got[1:]) if self.mergeable(p, q)]
        ok = rec.check(len(got) == len(orig) if len(orig) <= limit else len(got) >= limit, 'too-few', case, lambda: (len(orig), len(got), limit))
        # nothing stops before it has to
        if len(got) > limit:
            if err is None:
                ok &= rec.check(not pairs, 'too-many', case, lambda: (len(orig), len(got), limit))
            elif pairs:
                e = min(self.candidate(orig, p, q, linear)[0] for p, q in pairs)
                ok &= rec.check(e > err - tol, 'not-maximal', case, lambda: (e, err, self.show(got)))
        want = self.greedy(orig, err, k, linear)
        if want is None:
            rec.outcome('ambiguous')
        else:
            rec.outcome('unambiguous')
            ok &= rec.check(len(want) == len(got) and all(same(a, b) for a, b in zip(want, got)), 'greedy', case, lambda: (self.show(want), self.show(got)))
        rec.validated += 1
        return ok

    def show(self, ps):
        return ['%s%r,%r%s %.5gx%+.5g' % ('[' if p[2] == INC else '(', p[0], p[1], ']' if p[3] == INC else ')', p[4], p[5]) for p in ps]

    def build(self, pieces):
        f = self.fn.PiecewiseFunction()
        for lo, hi, l, r, m, c in pieces:
            f.intervals.append(self.iv.ContinuousSet(lo, hi, l, r))
            f.functions.append(self.fn.LinearFunction(m, c) if m else self.fn.ConstantFunction(c))
        return f

    def explore(self, rec, case, pieces, ks, errs, linear):
        f = self.build(pieces)
        before = self.pieces(f)
        rec.state((pieces, linear))
        for k in ks:
            for err in errs:
                c = {**case, 'n_segments': k, 'error_max': err}
                with rec.guard(c):
                    kw = dict(replace_by=self.fn.LinearFunction if linear else self.fn.ConstantFunction)
                    if err is not None:
                        kw['error_max'] = err
                    if k is not None:
                        kw['n_segments'] = k
                    g = f.approximate(**kw)
                    rec.transitions += 1
                    rec.check(self.pieces(f) == before and g is not f, 'changed', c, lambda: str(f))
                    if not self.judge(rec, c, f, g, err, k, linear):
                        break
                    self.evaluates(rec, c, g)
        for k in (2, 0, -1):
            with rec.guard({**case, 'n_segments': k}):
                try:
                    f.approximate(n_segments=k)
                    rec.fail('accepted', {**case, 'n_segments': k}, 'fewer than three segments')
                except ValueError:
                    pass

    def evaluates(self, rec, case, g):
        """The result evaluates according to its own pieces (also right after copying)."""
        ps = self.pieces(g)
        h = g.copy()
        for p in ps:
            if math.isinf(p[0]) or math.isinf(p[1]):
                continue
            x = p[0] + .375 * (p[1] - p[0])
            want = p[4] * x + p[5]
            rec.check(abs(g.eval(x) - want) < 1e-9 and abs(h.eval(x) - want) < 1e-9, 'evaluates', case, lambda: (x, g.eval(x), want))

    # ------------------------------------------------------------------------------------------------------------------
    def job_const(self, rec, part, parts, t):
        widths = [1., 1., 2., .5, 1.5, 1.]
        no = -1
        for n in range(1, 6 + t):
            for vals in itertools.product((0., 1., 3.), repeat=n):
                for gaps in ([()] if n > 4 else [()] + [(g,) for g in range(1, n)] + [(1, n - 1)] * (n > 3)):
                    for ends in ((0, 0), (1, 1), (1, 0)) if not gaps and n < 5 else ((1, 1),):
                        no += 1
                        if no % parts != part:
                            continue
                        x, ps = 0., []
                        if ends[0]:
                            ps.append((-INF, 0., EXC, EXC, 0., 0.))
                        for i, v in enumerate(vals):
                            x += 1 if i in gaps else 0
                            closed = i == n - 1 and not ends[1] or i + 1 in gaps and v == 1
                            ps.append((x, x + widths[i], INC, INC if closed else EXC, 0., v))
                            x += widths[i]
                        if ends[1]:
                            ps.append((x, INF, INC, EXC, 0., 0.))
                        case = {'values': vals, 'gaps': gaps, 'ends': ends}
                        for linear in ((False, True) if n < 5 else (no % 2 == 0,)):
                            self.explore(rec, {**case, 'linear': linear}, ps, (None, 3, 4, 5) if n > 2 else (None, 3), (None, 0., .3, .6, 1.) if n < 5 else (None, .3, .6), linear)

    def job_linear(self, rec, part, parts, t):
        widths = [1., 2., .5, 1.]
        no = -1
        for n in range(1, 4 + t):
            for vals in itertools.product(itertools.product((0., 1., 2.), repeat=2), repeat=n):
                for ends in (0, 1):
                    no += 1
                    if no % parts != part:
                        continue
                    x, ps = 0., [(-INF, 0., EXC, EXC, 0., 0.)] if ends else []
                    for (a, b), w in zip(vals, widths):
                        m = (b - a) / w
                        ps.append((x, x + w, INC, EXC, m, a - m * x))
                        x += w
                    if ends:
                        ps.append((x, INF, INC, EXC, 0., 1.))
                    self.explore(rec, {'ends of pieces': vals, 'infinite': ends}, ps, (None, 3, 4), (None, 0., .1, .3, .7), True)

    def distribution(self, rec, case, d, g, err, k):
        """g approximates the distribution d."""
        if not dm.valid_cdf(g.cdf, rec, case):
            return False
        a, b = d.cdf, g.cdf
        ok = rec.check(a.intervals[0].upper == b.intervals[0].upper and a.intervals[-1].lower == b.intervals[-1].lower, 'support', case, lambda: (a.pfmt(), b.pfmt()))
        ok &= rec.check(len(b) <= max(len(a), 0), 'more-pieces', case, lambda: (len(a), len(b)))
        whole = g.p(self.iv.ContinuousSet(-INF, INF, EXC, EXC))
        ok &= rec.check(abs(whole - 1) < 1e-9, 'mass', case, lambda: whole)
        m = Measure.of_cdf(b)
        pts = sorted({x for i in b.intervals for x in (i.lower, i.upper) if not math.isinf(x)})
        for x, y in zip(pts, pts[1:]):
            for t_ in ((x, y, INC, INC), (x, y, EXC, EXC), (x, (x + y) / 2, INC, EXC)):
                got, want = g.p(self.iv.ContinuousSet(*t_)), m.p(t_)
                ok &= rec.check(abs(got - want) < 1e-9, 'consistent', case, lambda: (t_, got, want, b.pfmt()))
        dens = sum(f.value * (i.upper - i.lower) for i, f in zip(g.pdf.intervals, g.pdf.functions) if not math.isinf(i.upper - i.lower) and not math.isinf(f.value))
        ok &= rec.check(dens <= 1 + 1e-9, 'density', case, lambda: g.pdf.pfmt())
        return ok

    def settings(self, rec, case, d, g):
        rec.check(type(g) is type(d) and g.settings == d.settings, 'settings', case, lambda: (g.settings, d.settings))

    def approximate(self, rec, case, d, ks=(None, 3, 4, 5), errs=ERRS):
        before = dm.snapshot(d.cdf)
        for k in ks:
            for err in errs:
                c = {**case, 'n_segments': k, 'error_max': err}
                with rec.guard(c):
                    g = d.approximate(error_max=err, n_segments=k)
                    rec.transitions += 1
                    rec.check(dm.snapshot(d.cdf) == before and g is not d, 'changed', c, lambda: d.cdf.pfmt())
                    self.settings(rec, c, d, g)
                    if not self.distribution(rec, c, d, g, err, k):
                        break
                    limit = 3 if k is None else k
                    if err is None:
                        rec.check(len(g.cdf) == min(len(d.cdf), limit), 'piece-count', c, lambda: (len(d.cdf), len(g.cdf), limit))
                    else:
                        # mean error of every piece that was replaced
                        orig = self.pieces(d.cdf)
                        keep = {p[:2] for p in orig}
                        for p in self.pieces(g.cdf):
                            if p[:2] not in keep:
                                e = self.mae(orig, p[0], p[1], p[4], p[5])
                                if not rec.check(e <= err + 1e-9, 'error-exceeded', c, lambda: (p, e, err)):
                                    break
                        if err == 0:
                            dm.same_cdf(g.cdf, Measure.of_cdf(d.cdf), rec, c, 'exact')
                    # using the approximation does not depend on the original and vice versa
                    snap = dm.snapshot(g.cdf)
                    q = [g.ppf.eval(x) for x in (.1, .5, .9)]
                    rec.check(all(g.cdf.eval(x + 1e-9) >= y - 1e-9 for x, y in zip(q, (.1, .5, .9))), 'quantiles', c, lambda: (q, g.cdf.pfmt()))
                    rec.check(dm.snapshot(g.cdf) == snap and dm.snapshot(d.cdf) == before, 'changed', c)
                    rec.validated += 1

    def job_cdf(self, rec, part, parts, t):
        no = -1
        for pts, gw in (([0., 1., 2., 4.], (0, 1, 3)), ([-1., 0., 1., 1.5, 4.], (0, 1, 3) if t else (1, 3)), ([0., .5, 2., 3., 5., 6.], (1, 4))):
            for m in corpus.measures(pts, (0, 1) if len(pts) < 6 else (0,), gw):
                no += 1
                if no % parts != part:
                    continue
                case = {'atoms': m.atoms, 'segments': m.segs}
                with rec.guard(case):
                    f = corpus.cdf_of(self.fn, self.iv, m)
                    self.explore(rec, case, self.pieces(f), (None, 3, 4), (None, 0., .02, .1), True)
                    d = self.Numeric(precision=.05).set(self.QD.from_cdf(f))
                    self.approximate(rec, case, d, (None, 4) if len(pts) > 4 else (None, 3, 4), (None, 0., .04, .2))

    def fit(self, values, precision=.01):
        import numpy as np
        return self.Numeric(precision=precision).fit(np.array([[v] for v in values], dtype=float), None, 0)

    def job_fits(self, rec, part, parts, t):
        vals = [0., 1., 1.5, 4., 5.]
        no = -1
        single = list(dm.samples(vals, 5 + t))
        for s in single:
            no += 1
            if no % parts == part:
                with rec.guard({'fit': s}):
                    self.approximate(rec, {'fit': s}, self.fit(s), (None, 3, 4))
        small = list(dm.samples(vals, 2 + t))
        for a, b in itertools.combinations(small, 2):
            for w in ((.5, .5), (.2, .8)):
                no += 1
                if no % parts == part:
                    case = {'merge': [a, b], 'weights': w}
                    with rec.guard(case):
                        self.approximate(rec, case, self.Numeric.merge([self.fit(a), self.fit(b)], list(w)), (None, 4), (None, 0., .05, .2))

    def job_models(self, rec, part, parts, t):
        from checks.c15 import freeze
        no = -1
        for schema, n in (('xs', 3), ('x', 4), ('xi', 3), ('zs', 3), ('bx', 3), ('si', 2)):
            for _, rows in tr.datasets(schema, 2, n + t):
                no += 1
                if no % parts != part or no % (1 if t else 3):
                    continue
                j = tr.fit(schema, rows, min_samples_leaf=1)
                if len(j.leaves) < 2:
                    continue
                before = freeze(j)
                rec.state((schema, rows))
                num = [v for v in j.variables if v.numeric]
                forms = [('number 0', 0.), ('number .1', .1)] + ([('dict', {num[0]: .2}), ('name', {num[0].name: .05})] if num else [])
                for th in (0., .4):
                    plain = j.prune(th)
                    for label, app in forms:
                        case = {'schema': schema, 'rows': rows, 'threshold': th, 'approximate': label}
                        with rec.guard(case):
                            p = j.prune(th, approximate=app)
                            rec.transitions += 1
                            rec.check(freeze(j) == before, 'changed', case)
                            for leaf in p.leaves.values():
                                for v, d in leaf.distributions.items():
                                    if v.numeric:
                                        dm.valid_cdf(d.cdf, rec, case)
                                        rec.check(abs(d.p(self.iv.ContinuousSet(-INF, INF, EXC, EXC)) - 1) < 1e-9, 'mass', case)
                            rec.check(abs(sum(l.prior for l in p.leaves.values()) - 1) < 1e-9, 'weights', case)
                            if label == 'number 0':
                                for a in [dict(zip((v.name for v in j.variables), r)) for r in rows]:
                                    e = {k: (self.iv.ContinuousSet(-50, x) if isinstance(x, float) else x) for k, x in a.items()}
                                    u, v = plain.infer(plain.bind(e)), p.infer(p.bind(e))
                                    rec.check(abs(u - v) < 1e-7, 'exact', case, lambda: (e, u, v))
                            if th == 0 and num:
                                # everything is merged: supports are those of the merged distributions
                                for v in num:
                                    lo, hi = min(r[list(j.variables).index(v)] for r in rows), max(r[list(j.variables).index(v)] for r in rows)
                                    for leaf in p.leaves.values():
                                        got = leaf.distributions[v].p(self.iv.ContinuousSet(lo - .01, hi + .01))
                                        rec.check(abs(got - 1) < 1e-9, 'support', case, lambda: (v.name, got))
                            rec.validated += 1

    def job_cumsum(self, rec, part, parts, t):
        vals = [0., 1., 3.]
        small = list(dm.samples(vals, 2))
        no = -1
        for k in (1, 2, 3):
            for combo in itertools.product(small, repeat=k) if k < 3 else itertools.product(small[3:7 + 2 * t], repeat=3):
                no += 1
                if no % parts != part:
                    continue
                for err, n in ((INF, None), (None, 4), (.05, None), (.02, 6)):
                    case = {'fits': combo, 'error_max': str(err), 'n_segments': n}
                    with rec.guard(case):
                        ds = [self.fit(c) for c in combo]
                        before = [dm.snapshot(d.cdf) for d in ds]
                        got = list(self.Numeric.cumsum(ds, error_max=err, n_segments=n))
                        rec.transitions += 1
                        rec.check([dm.snapshot(d.cdf) for d in ds] == before, 'changed', case)
                        if not rec.check(len(got) == k, 'number', case, lambda: len(got)):
                            continue
                        lo = hi = 0.
                        for i, g in enumerate(got):
                            lo, hi = lo + min(combo[i]), hi + max(combo[i])
                            if i == 0:
                                rec.check(dm.snapshot(g.cdf) == before[0], 'first', case)
                            dm.valid_cdf(g.cdf, rec, {**case, 'sum of': i + 1})
                            p = g.p(self.iv.ContinuousSet(lo - 1e-6, hi + 1e-6))
                            rec.check(abs(p - 1) < 1e-6, 'support', {**case, 'sum of': i + 1}, lambda: (p, lo, hi, g.cdf.pfmt()))
                            if i and n and err is None:
                                rec.check(len(g.cdf) <= n, 'piece-count', {**case, 'sum of': i + 1}, lambda: len(g.cdf))
                        rec.validated += 1


CHECK = Check()
