"""C31: a Gaussian that is fitted incrementally has the statistics of the data it holds."""
import itertools
import math
from fractions import Fraction as F


def stats(data):
    """Exact weighted mean, unbiased covariance for reliability weights and size of [(x, w)]."""
    d = len(data[0][0])
    W = sum(F(w) for _, w in data)
    mean = [sum(F(w) * F(x[i]) for x, w in data) / W for i in range(d)]
    V = 1 - sum(F(w) ** 2 for _, w in data) / W ** 2
    cov = [[(sum(F(w) * (F(x[i]) - mean[i]) * (F(x[k]) - mean[k]) for x, w in data) / (W * V) if V else F(0)) for k in range(d)] for i in range(d)]
    return mean, cov


class Check:
    pid = 'C31'
    level = 'model_checking'
    technique = ('exhaustive exploration of all histories of updates, retractions, copies and refits of the real Gaussian up to a bounded depth over small sets of weighted data points in one to three '
                 'dimensions; every state is compared with the exact statistics of the data it stands for')
    note = 'Scalars, lists and arrays as data; integer and fractional weights; copies made at every point of the history are continued independently of the original.'
    space = ('all sequences of up to 6 (7) operations over 2-3 points with up to 3 weights; all data sets of up to 5 points as lists and arrays; all scalings, shifts and sums of the fits over a grid; '
             'densities and distribution functions over a grid')
    assumptions = ['weights are positive; covariances below 1e-15 are documented to count as zero', 'refused: retracting from an empty distribution, mismatching dimensions']

    ALPHABETS = {
        '1d': [((0.,), 1), ((1.,), 1), ((3.,), 2)],
        '1d-w': [((-2.,), .5), ((5.,), 2), ((5.,), .25)],
        '2d': [((0., 1.), 1), ((2., 0.), 1), ((2., 5.), 2)],
        '2d-flat': [((0., 7.), 1), ((2., 7.), 1), ((5., 7.), .5)],
        '3d': [((0., 1., -1.), 1), ((2., 0., 4.), 1), ((2., 5., 4.), 3)],
        'same': [((4., 4.), 1), ((4., 4.), 2)],
    }

    def jobs(self, tier):
        t = tier == 'thorough'
        out = [['history', a, k, 6, (7 if t else 6)] for a in self.ALPHABETS for k in range(6)]
        out += [['batch', a, k, 2, 6 if t else 5] for a in self.ALPHABETS for k in range(2)]
        out += [['algebra', t], ['functions', t], ['refused']]
        return out

    def run(self, job, rec):
        import numpy as np
        from jpt.distributions import Gaussian
        self.np, self.G = np, Gaussian
        getattr(self, 'job_' + job[0])(rec, *job[1:])

    # ------------------------------------------------------------------------------------------------------------------
    def near(self, got, want):
        a, b = self.np.asarray(got, dtype=float), self.np.asarray([[float(y) for y in x] if isinstance(x, list) else float(x) for x in want])
        return a.shape == b.shape and bool(self.np.all(abs(a - b) <= 1e-7 * (1 + abs(b))))

    def observe(self, rec, case, g, data, dim):
        rec.validated += 1
        ok = rec.check(g.numsamples == len(data), 'size', case, lambda: (g.numsamples, len(data)))
        if not data:
            rec.outcome('empty')
            try:
                g.retract([0.] * dim)
                rec.fail('retracted', case, 'a point could be retracted from an empty distribution')
            except ValueError:
                pass
            return ok
        mean, cov = stats(data)
        rec.outcome('points %d' % len(data))
        ok &= rec.check(g.dim == dim, 'dimension', case, lambda: g.dim)
        ok &= rec.check(self.near(g.mean, mean), 'mean', case, lambda: (g.mean, list(map(float, mean))))
        ok &= rec.check(self.near(g.cov, cov), 'covariance', case, lambda: (g.cov, [list(map(float, c)) for c in cov]))
        ok &= rec.check(self.near(g.var, [cov[i][i] for i in range(dim)]), 'variance', case, lambda: g.var)
        ok &= rec.check(self.near(self.np.asarray(g.std) ** 2, [cov[i][i] for i in range(dim)]), 'deviation', case, lambda: g.std)
        ok &= rec.check(g.sym() and all(g.cov[i][i] >= -1e-12 for i in range(dim)), 'symmetric', case, lambda: g.cov)
        if len(data) > 1 and all(cov[i][i] for i in range(dim)):
            x = [1.5] * dim
            ok &= rec.check(self.near(g.deviation(x), [(1.5 - float(m)) / math.sqrt(cov[i][i]) for i, m in enumerate(mean)]), 'standardized', case, lambda: g.deviation(x))
        if dim == 2 and len(data) > 1 and cov[0][0]:
            m, b, rss, r2 = g.linreg()
            wm = cov[0][1] / cov[0][0]
            ok &= rec.check(self.near([m, b], [wm, mean[1] - wm * mean[0]]), 'line', case, lambda: (m, b))
            want = cov[0][1] ** 2 / (cov[0][0] * cov[1][1]) if cov[1][1] else F(0)
            ok &= rec.check(self.near([rss], [cov[1][1] - wm * cov[0][1]]) and (self.near([r2], [want]) or not cov[1][1]), 'residuals', case, lambda: (rss, r2, float(want)))
        return ok

    def snapshot(self, g):
        return (repr(self.np.asarray(g.mean).tolist()), repr(self.np.asarray(g.cov).tolist()), g.numsamples) if g.numsamples else None

    def point(self, x, no):
        """The same point as a list, tuple or array."""
        return (list(x), self.np.array(x), tuple(x))[no % 3]

    def job_history(self, rec, name, part, parts, depth):
        alphabet = self.ALPHABETS[name]
        dim = len(alphabet[0][0])
        n = len(alphabet)
        ops = [('+', i) for i in range(n)] + [('-', i) for i in range(n)]

        def run(history, g, data):
            """Perform the history; None if it retracts something that is not there."""
            for no, (op, i) in enumerate(history):
                x, w = alphabet[i]
                rec.transitions += 1
                if op == '+':
                    if w == 1 and no % 2:
                        g.update(self.point(x, no))
                    else:
                        g.update(self.point(x, no), w)
                    data = data + [(x, w)]
                else:
                    if w == 1 and no % 2:
                        g.retract(self.point(x, no))
                    else:
                        g.retract(self.point(x, no), w)
                    k = data.index((x, w))
                    data = data[:k] + data[k + 1:]
            return data

        def possible(history):
            have = [0] * n
            for op, i in history:
                have[i] += 1 if op == '+' else -1
                if have[i] < 0:
                    return False
            return True
        no = 0
        for k in range(depth + 1):
            for history in itertools.product(ops, repeat=k):
                if not possible(history):
                    continue
                no += 1
                if no % parts != part:
                    continue
                if k == depth and name != '2d' and no % 5 > 1:
                    continue
                case = {'points': alphabet, 'history': history}
                with rec.guard(case):
                    g = self.G()
                    data = run(history, g, [])
                    rec.state((name, tuple(sorted(data)), history[-1:] ))
                    if not self.observe(rec, case, g, data, dim):
                        continue
                    if k > depth - 2 or not data:
                        continue
                    # copies take their own course
                    for follow in ops:
                        if follow[0] == '-' and (alphabet[follow[1]]) not in data:
                            continue
                        a = self.G()
                        run(history, a, [])
                        b = a.copy()
                        before = self.snapshot(a)
                        c = {**case, 'copy': follow}
                        rec.check(self.snapshot(b) == before and a == b, 'copy', c, lambda: (before, self.snapshot(b)))
                        d2 = run([follow], b, data)
                        rec.check(self.snapshot(a) == before, 'original-changed', c, lambda: (before, self.snapshot(a)))
                        self.observe(rec, {**c, 'of': 'copy'}, b, d2, dim)
                        after = self.snapshot(b)
                        self.observe(rec, {**c, 'of': 'original'}, a, run([follow], a, data), dim)
                        rec.check(self.snapshot(b) == after, 'copy-changed', c, lambda: (after, self.snapshot(b)))
                        if d2:
                            rec.check((a == b) is True, 'equal', c, lambda: (self.snapshot(a), self.snapshot(b)))
                            b.update(list(alphabet[0][0]), 3)
                            if stats(d2)[0] != stats(d2 + [(alphabet[0][0], 3)])[0]:
                                rec.check((a == b) is False, 'unequal', c, lambda: (self.snapshot(a), self.snapshot(b)))
                    # fitting anew forgets the past
                    for again in itertools.combinations_with_replacement(range(n), 2):
                        new = [alphabet[i] for i in again]
                        c = {**case, 'refit': again}
                        a = self.G()
                        run(history, a, [])
                        r = a.estimate([list(x) for x, _ in new], [w for _, w in new])
                        rec.check(r is a, 'returns', c)
                        self.observe(rec, c, a, new, dim)

    def job_batch(self, rec, name, part, parts, nmax):
        np, G = self.np, self.G
        alphabet = self.ALPHABETS[name]
        dim = len(alphabet[0][0])
        no = 0
        for n in range(1, nmax + 1):
            for data in itertools.product(alphabet, repeat=n):
                no += 1
                if no % parts != part:
                    continue
                rec.state((name, data))
                xs, ws = [list(x) for x, _ in data], [w for _, w in data]
                plain = [(x, 1) for x, _ in data]
                forms = {'list': lambda: (G(data=xs), plain), 'array': lambda: (G(data=np.array(xs)), plain),
                         'weighted': lambda: (G(data=xs, weights=ws), list(data)), 'weighted arrays': lambda: (G(data=np.array(xs), weights=np.array(ws)), list(data)),
                         'update_all': lambda: (G().update_all(xs, ws), list(data)), 'update_all arrays': lambda: (G().update_all(np.array(xs), np.array(ws)), list(data)),
                         'estimate': lambda: (G().estimate(xs), plain), 'estimate arrays': lambda: (G().estimate(np.array(xs), np.array(ws)), list(data)),
                         'in parts': lambda: (G(data=xs[:1]).update_all(xs[1:]), plain)}
                for form, f in forms.items():
                    case = {'data': data, 'form': form}
                    with rec.guard(case):
                        rec.transitions += 1
                        g, want = f()
                        self.observe(rec, case, g, want, dim)
                        rec.check(xs == [list(x) for x, _ in data] and ws == [w for _, w in data], 'arguments', case)

    def job_algebra(self, rec, t):
        """a·X + b and sums of independent variables."""
        G, np = self.G, self.np
        for name, alphabet in self.ALPHABETS.items():
            dim = len(alphabet[0][0])
            for data in itertools.product(alphabet, repeat=3 if not t else 4):
                xs = [(x, 1) for x, _ in data]
                mean, cov = stats(xs)
                make = lambda: G(data=[list(x) for x, _ in xs])
                for a in (-2, -1, 0, .5, 1, 3):
                    forms = {'g * a': (lambda: make() * a, [m * F(a) for m in mean], [[c * F(a) ** 2 for c in r] for r in cov]),
                             'a * g': (lambda: a * make(), [m * F(a) for m in mean], [[c * F(a) ** 2 for c in r] for r in cov]),
                             'g + a': (lambda: make() + a, [m + F(a) for m in mean], cov), 'a + g': (lambda: a + make(), [m + F(a) for m in mean], cov)}
                    for form, (f, wm, wc) in forms.items():
                        case = {'data': data, 'a': a, 'form': form}
                        with rec.guard(case):
                            rec.state((name, data, a, form))
                            rec.transitions += 1
                            g = f()
                            rec.check(self.near(g.mean, wm) and self.near(g.cov, wc), 'algebra', case, lambda: (g.mean, g.cov))
                            rec.validated += 1
                    for form in ('*=', '+='):
                        case = {'data': data, 'a': a, 'form': form}
                        with rec.guard(case):
                            g = h = make()
                            other = make()
                            if form == '*=':
                                g *= a
                                wm, wc = [m * F(a) for m in mean], [[c * F(a) ** 2 for c in r] for r in cov]
                            else:
                                g += a
                                wm, wc = [m + F(a) for m in mean], cov
                            rec.check(g is h and self.near(g.mean, wm) and self.near(g.cov, wc), 'in-place', case, lambda: (g.mean, g.cov))
                            rec.check(self.near(other.mean, mean), 'in-place', case, lambda: other.mean)
                second = alphabet[::-1] if len(alphabet) > 1 else alphabet
                m2, c2 = stats([(x, 1) for x, _ in second])
                case = {'data': data, 'second': second}
                with rec.guard(case):
                    a, b = make(), G(data=[list(x) for x, _ in second])
                    s = a + b
                    rec.check(self.near(s.mean, [x + y for x, y in zip(mean, m2)]) and self.near(s.cov, [[x + y for x, y in zip(r, q)] for r, q in zip(cov, c2)]), 'sum', case,
                              lambda: (s.mean, s.cov))
                    rec.check(self.near(a.mean, mean) and self.near(b.mean, m2), 'sum-operands', case)

    def job_functions(self, rec, t):
        """Densities and distribution functions."""
        G, np = self.G, self.np
        phi = lambda z: .5 * (1 + math.erf(z / math.sqrt(2)))
        grid = [-3., -1., -.5, 0., .25, 1., 2., 5.]
        for mu, var in itertools.product([-2., 0., 1., 10.], [.25, 1., 4., 9.]):
            for ctor in (lambda: G(mu, var), lambda: G([mu], [[var]]), lambda: G(mean=np.array([mu]), cov=np.array([[var]]))):
                s = math.sqrt(var)
                for z in grid:
                    x = mu + z * s
                    case = {'mean': mu, 'variance': var, 'at': x}
                    with rec.guard(case):
                        g = ctor()
                        rec.state((mu, var, x))
                        rec.transitions += 3
                        rec.validated += 1
                        rec.check(self.near(g.cdf(x), [phi(z)]), 'cdf', case, lambda: (g.cdf(x), phi(z)))
                        rec.check(abs(float(g.pdf(x)) - math.exp(-z * z / 2) / (s * math.sqrt(2 * math.pi))) < 1e-9, 'pdf', case, lambda: g.pdf(x))
                        rec.check(self.near(g.deviation([x]), [z]), 'standardized', case, lambda: g.deviation([x]))
                        rec.check(self.near(g.cdf(x, mu, x + 1), [phi(z), .5, phi(z + 1 / s)]), 'cdf-many', case, lambda: g.cdf(x, mu, x + 1))
                        for z2 in grid:
                            y = mu + z2 * s
                            rec.check(abs(float(g.eval([x], [y])) - abs(phi(z2) - phi(z))) < 1e-6, 'eval', {**case, 'to': y}, lambda: g.eval([x], [y]))
                with rec.guard({'mean': mu, 'variance': var, 'sample': True}):
                    r = np.asarray(ctor().sample(7))
                    rec.check(r.size == 7 and np.isfinite(r).all(), 'sample', {'mean': mu, 'variance': var}, lambda: r)
        for m1, m2, v1, v2, c in itertools.product([0., -1.], [2.], [1., 4.], [9.], [0., 1., -1.5]):
            case = {'mean': [m1, m2], 'cov': [v1, v2, c]}
            with rec.guard(case):
                g = G([m1, m2], [[v1, c], [c, v2]])
                rec.transitions += 1
                for z1, z2 in itertools.product(grid, repeat=2):
                    x, y = m1 + z1, m2 + z2
                    det = v1 * v2 - c * c
                    q = (v2 * z1 * z1 - 2 * c * z1 * z2 + v1 * z2 * z2) / det
                    rec.check(abs(float(g.pdf([x, y])) - math.exp(-q / 2) / (2 * math.pi * math.sqrt(det))) < 1e-9, 'pdf', {**case, 'at': [x, y]}, lambda: g.pdf([x, y]))
                    rec.check(self.near(g.cdf(x, y), [phi(z1 / math.sqrt(v1)), phi(z2 / math.sqrt(v2))]), 'cdf', {**case, 'at': [x, y]}, lambda: g.cdf(x, y))

        # a direction without any spread: the density within the line the points lie on
        for mu, var, flat in itertools.product([-2., 0., 1.], [.25, 1., 9.], [0, 1]):
            for source in ('given', 'fitted'):
                case = {'mean': mu, 'variance': var, 'constant dimension': flat, 'source': source}
                with rec.guard(case):
                    swap = lambda v: v[::-1] if flat == 0 else v
                    if source == 'given':
                        g = G(swap([mu, 7.]), [[var, 0.], [0., 0.]] if flat else [[0., 0.], [0., var]])
                    else:
                        h = math.sqrt(var / 2)
                        g = G(data=[swap([mu - h, 7.]), swap([mu + h, 7.])])
                    rec.transitions += 1
                    for z in grid:
                        got = float(g.pdf(swap([mu + z * math.sqrt(var), 7.])))
                        rec.check(abs(got - math.exp(-z * z / 2) / math.sqrt(2 * math.pi * var)) < 1e-9, 'degenerate-pdf', {**case, 'z': z}, lambda: got)

    def job_refused(self, rec):
        G, np = self.G, self.np
        def refused(name, f, kinds=(ValueError, TypeError, AssertionError)):
            rec.tick(name)
            rec.state(name)
            rec.transitions += 1
            try:
                r = f()
            except kinds:
                rec.outcome('refused')
                return
            except Exception as e:
                return rec.fail('refusal', name, repr(e))
            rec.fail('accepted', name, repr(r))
        refused('retract from nothing', lambda: G().retract([1.]))
        refused('weights', lambda: G(data=[[1.], [2.]], weights=[1]))
        refused('weights', lambda: G().update_all([[1.], [2.]], [1, 2, 3]))
        refused('dimension', lambda: G(data=[[1.], [2.]]).update([1., 2.]))
        refused('dimension', lambda: G(data=[[1., 3.], [2., 2.]]).retract([1.]))
        refused('dimension', lambda: G([0.], [[1.]]) + G([0., 1.], [[1., 0.], [0., 1.]]))
        refused('product', lambda: G([0.], [[1.]]) * G([0.], [[1.]]))
        refused('sum with text', lambda: G([0.], [[1.]]) + 'a')
        refused('product with text', lambda: G([0.], [[1.]]) * 'a')
        refused('no dimension', lambda: G().dim)
        refused('line of one', lambda: G(data=[[1., 2.]]).linreg())
        refused('line of three dimensions', lambda: G(data=[[1., 2., 3.], [2., 2., 3.]]).linreg())
        refused('deviation of a number', lambda: G([0.], [[1.]]).deviation(1.))
        for a, b in [(G([0.], [[1.]]), G([1.], [[1.]])), (G([0.], [[1.]]), G([0.], [[2.]])), (G([0., 1.], [[1., 0.], [0., 1.]]), G([0.], [[1.]])), (G([0.], [[1.]]), None), (G([0.], [[1.]]), 3)]:
            with rec.guard('different'):
                rec.check(not a == b and a != b, 'different', [str(a), str(b)])
        with rec.guard('texts'):
            rec.check('undefined' in str(G()) and 'undefined' in repr(G()), 'undefined', 'texts')
            s = str(G([1.5], [[2.25]]))
            rec.check('1.50' in s and '2.25' in s, 'text', s)
            str(G([1., 2.], [[1., 0.], [0., 1.]])), repr(G([1., 2.], [[1., 0.], [0., 1.]]))


CHECK = Check()
