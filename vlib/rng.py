"""A controlled random source: every call of a random generator becomes a branching point of a stateless exploration.

`explore(run, ...)` re-executes `run()` once per path of generator outcomes and yields (result, probability weight of the
path).  Uniform draws branch over the midpoints of `cells` equally likely cells plus, with weight 0, special outcomes
(0, the largest float below 1, and further given ones); discrete draws branch over all outcomes of positive probability.
Outside of an exploration, the generators work as usual.
"""
import itertools
import math
import random

import numpy as np

TOP = 1 - 2. ** -53
_active = None


class Budget(Exception):
    pass


class Source:
    def __init__(self, script, cells, special, policy=None):
        self.script, self.cells, self.special, self.policy = script, cells, special, policy
        self.log = []                       # (chosen, number of options)
        self.weight = 1.

    def pick(self, options):
        """options: [(value, weight)]"""
        k = len(self.log)
        if self.policy is not None:
            c = self.policy[k % len(self.policy)] % len(options)
        else:
            c = self.script[k] if k < len(self.script) else 0
        self.log.append((c, len(options)))
        v, w = options[c]
        self.weight *= w
        return v

    def u(self):
        n = self.cells
        return self.pick([((k + .5) / n, 1 / n) for k in range(n)] + [(s, 0.) for s in self.special])


def explore(run, cells=8, special=(0., TOP), budget=200000):
    global _active
    script = []
    for _ in range(budget):
        src = Source(script, cells, special)
        _active = src
        try:
            result = run()
        finally:
            _active = None
        yield result, src.weight, src.log
        log = src.log
        while log and log[-1][0] + 1 >= log[-1][1]:
            log = log[:-1]
        if not log:
            return
        script = [c for c, _ in log[:-1]] + [log[-1][0] + 1]
    raise Budget()


def policy(run, pattern, cells=8, special=(0., TOP)):
    """One execution in which the k-th draw takes the option pattern[k % len(pattern)]."""
    global _active
    src = Source([], cells, special, pattern)
    _active = src
    try:
        return run()
    finally:
        _active = None


# ---- controlled counterparts of the generators ----------------------------------------------------------------------
def _shape(f, size):
    if size is None:
        return f()
    out = np.array([f() for _ in range(int(np.prod(size)))])
    return out.reshape(size)


def py_random():
    return _active.u()


def py_uniform(a, b):
    return a + (b - a) * _active.u()


def py_choice(seq):
    n = len(seq)
    return seq[_active.pick([(i, 1 / n) for i in range(n)])]


def py_choices(population, weights=None, *, cum_weights=None, k=1):
    population = list(population)
    if cum_weights is None:
        weights = list(weights) if weights is not None else [1] * len(population)
    else:
        weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
    t = math.fsum(weights)
    if not t > 0:
        raise ValueError('Total of weights must be greater than zero')
    opts = [(i, w / t) for i, w in enumerate(weights) if w > 0]
    return [population[_active.pick(opts)] for _ in range(k)]


def py_randrange(a, b=None, step=1):
    r = range(a) if b is None else range(a, b, step)
    return py_choice(r)


def py_randint(a, b):
    return py_choice(range(a, b + 1))


def py_shuffle(x):
    perm = np_permutation(len(x))
    x[:] = [x[i] for i in perm]


def np_uniform(low=0., high=1., size=None):
    if np.ndim(low) or np.ndim(high):
        low, high = np.broadcast_arrays(low, high)
        return np.array([np_uniform(a, b) for a, b in zip(low.ravel(), high.ravel())]).reshape(low.shape)
    rng = float(high) - float(low)
    if not math.isfinite(rng):
        raise OverflowError('Range exceeds valid bounds')
    return _shape(lambda: float(low) + rng * _active.u(), size)


def np_random(size=None):
    return _shape(lambda: _active.u(), size)


def np_rand(*shape):
    return np_random(shape or None)


def np_choice(a, size=None, replace=True, p=None, **kw):
    pop = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
    if p is None:
        p = [1 / len(pop)] * len(pop)
    p = np.asarray(p, dtype=np.float64)
    if len(p) != len(pop):
        raise ValueError("'a' and 'p' must have same size")
    if np.isnan(p).any() or (p < 0).any() or abs(p.sum() - 1) > 1e-8:
        raise ValueError('probabilities are not a distribution')
    opts = [(i, float(q)) for i, q in enumerate(p) if q > 0]
    if replace:
        return _shape(lambda: pop[_active.pick(opts)], size)
    out = []
    for _ in range(int(np.prod(size if size is not None else 1))):
        left = [(i, q) for i, q in opts if i not in out]
        t = sum(q for _, q in left)
        out.append(_active.pick([(i, q / t) for i, q in left]))
    return pop[out[0]] if size is None else pop[np.array(out, dtype=int)].reshape(size)


def np_randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    return _shape(lambda: py_choice(range(low, high + bool(endpoint))), size)


def np_permutation(x):
    if isinstance(x, (int, np.integer)):
        x = np.arange(x)
    x = np.array(x)
    left, out = list(range(len(x))), []
    while left:
        out.append(left.pop(_active.pick([(i, 1 / len(left)) for i in range(len(left))])))
    return x[np.array(out, dtype=int)]


def np_shuffle(x):
    x[:] = np_permutation(x)


def np_multinomial(n, pvals, size=None):
    def one():
        out = np.zeros(len(pvals), dtype=int)
        opts = [(i, float(q)) for i, q in enumerate(pvals) if q > 0]
        for _ in range(n):
            out[_active.pick(opts)] += 1
        return out
    return one() if size is None else np.array([one() for _ in range(int(np.prod(size)))])


class Generator:
    random = staticmethod(np_random)
    random_sample = staticmethod(np_random)
    uniform = staticmethod(np_uniform)
    choice = staticmethod(np_choice)
    integers = staticmethod(np_randint)
    randint = staticmethod(np_randint)
    permutation = staticmethod(np_permutation)
    shuffle = staticmethod(np_shuffle)
    multinomial = staticmethod(np_multinomial)


def _forward(module, name, stub):
    orig = getattr(module, name)

    def f(*args, **kw):
        if _active is None:
            return orig(*args, **kw)
        return stub(*args, **kw)
    f.__name__ = name
    setattr(module, name, f)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n, f in dict(random=py_random, uniform=py_uniform, choice=py_choice, choices=py_choices, randrange=py_randrange,
                     randint=py_randint, shuffle=py_shuffle).items():
        _forward(random, n, f)
    for n, f in dict(uniform=np_uniform, random=np_random, random_sample=np_random, ranf=np_random, sample=np_random, rand=np_rand,
                     choice=np_choice, randint=np_randint, permutation=np_permutation, shuffle=np_shuffle,
                     multinomial=np_multinomial, default_rng=lambda *a: Generator()).items():
        _forward(np.random, n, f)
