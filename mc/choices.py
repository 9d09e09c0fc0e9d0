"""Controlled randomness: every entry point of the `random` module is replaced, before aalpy is imported, by a
trampoline.  While a controller is installed the explored code gets its random values from it, so that a depth-first
search over all answers (a stateless exploration of the environment) enumerates every execution.  Without a controller
the trampolines raise: no check may depend on unowned randomness."""
import random as _random
import tempfile, secrets, multiprocessing, queue, subprocess, uuid  # noqa: these keep the real generator

_real = {n: getattr(_random, n) for n in
         ('random', 'choice', 'choices', 'randint', 'randrange', 'shuffle', 'sample', 'uniform', 'seed', 'gauss',
          'getrandbits', 'betavariate', 'expovariate', 'triangular', 'normalvariate', 'getstate', 'setstate')}
RealRandom = _random.Random

_controller = None


class UncontrolledRandomness(Exception):
    pass


class PrefixDiverged(Exception):
    """The same choice prefix met a choice point of another arity: some nondeterminism is not owned."""


class Horizon(Exception):
    """More choice points in one execution than the stated horizon."""


class Controller:
    """One execution.  `prefix` is replayed, afterwards the default answer 0 is taken at every choice point.
    floats: the finite grid standing for random()/uniform()."""

    def __init__(self, prefix=(), floats=(0.0, 0.5, 1 - 2 ** -53), max_points=20000, shuffle='perms',
                 int_values=None, weights_zero=False, tail=None):
        self.prefix, self.trace, self.arity, self.labels = list(prefix), [], [], []
        self.floats, self.max_points, self.shuffle_mode = floats, max_points, shuffle
        self.int_values = int_values
        self.weights_zero = weights_zero
        # tail = number of choice points that are enumerated; later ones follow one fixed fair sequence
        self.tail = tail
        self.fair = RealRandom(12345) if tail is not None else None

    def pick(self, n, label=''):
        if n <= 1:
            return 0
        k = len(self.trace)
        if k >= self.max_points:
            raise Horizon()
        if self.tail is not None and k >= self.tail:
            v = self.fair.randrange(n)
        else:
            v = self.prefix[k] if k < len(self.prefix) else 0
        if v >= n:
            raise PrefixDiverged(f'choice {k}: replayed {v} but only {n} options ({label})')
        self.trace.append(v)
        self.arity.append(n)
        self.labels.append(label)
        return v

    # ---- the random API
    def random(self):
        return self.floats[self.pick(len(self.floats), 'random')]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self.pick(len(seq), 'choice')]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if len(r) == 0:
            raise ValueError(f'empty range in randrange({start}, {stop})')
        if self.int_values is not None:
            cand = [v for v in self.int_values(r)]
            return cand[self.pick(len(cand), 'randint')]
        return r[self.pick(len(r), 'randint')]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        n = len(population)
        if n == 0:
            raise IndexError('Cannot choose from an empty population')
        if cum_weights is not None:
            if weights is not None:
                raise TypeError('Cannot specify both weights and cumulative weights')
            cum = list(cum_weights)
            weights = [c - (cum[i - 1] if i else 0) for i, c in enumerate(cum)]
        if weights is not None:
            weights = list(weights)
            if len(weights) != n:
                raise ValueError('The number of weights does not match the population')
            if sum(weights) <= 0:
                raise ValueError('Total of weights must be greater than zero')
            opts = [i for i, w in enumerate(weights) if w > 0 or self.weights_zero]
        else:
            opts = list(range(n))
        return [population[opts[self.pick(len(opts), 'choices')]] for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        pool = list(population)
        if k > len(pool) or k < 0:
            raise ValueError('Sample larger than population or is negative')
        return [pool.pop(self.pick(len(pool), 'sample')) for _ in range(k)]

    def shuffle(self, x):
        if self.shuffle_mode == 'keep':
            return
        if self.shuffle_mode == 'ends':          # identity, reversal, rotation: a bounded set of permutations
            items = list(x)
            n = len(items)
            opts = [items, items[::-1], items[1:] + items[:1], items[-1:] + items[:-1]]
            uniq = []
            for o in opts:
                if not any(all(a is b for a, b in zip(o, u)) for u in uniq):
                    uniq.append(o)
            x[:] = uniq[self.pick(len(uniq), 'shuffle')]
            return
        pool = list(x)
        out = []
        while pool:
            out.append(pool.pop(self.pick(len(pool), 'shuffle')))
        x[:] = out

    def seed(self, *a, **k):
        return None

    def getrandbits(self, k):
        return self.pick(2 ** min(k, 4), 'bits')

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * (self.random() - 0.5)

    normalvariate = gauss

    def getstate(self):
        return None

    def setstate(self, s):
        return None


def _trampoline(name):
    def f(*a, **k):
        c = _controller
        if c is None:
            raise UncontrolledRandomness(name)
        return getattr(c, name)(*a, **k)
    f.__name__ = name
    return f


class ControlledRandomClass:
    """Stand-in for random.Random / random.SystemRandom instances created by explored code."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _trampoline(name)


def install():
    for n in _real:
        setattr(_random, n, _trampoline(n))
    _random.Random = ControlledRandomClass
    _random.SystemRandom = ControlledRandomClass


class controlled:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        global _controller
        self.old = _controller
        _controller = self.c
        return self.c

    def __exit__(self, *a):
        global _controller
        _controller = self.old


def explore(body, ctx=None, max_runs=None, max_dev=None, **kw):
    """Stateless depth-first enumeration of every answer sequence.  body(controller) is one complete execution.
    max_dev bounds the number of non-default answers (deviation bound).  Returns (runs, complete)."""
    stack = [()]
    runs = 0
    complete = True
    while stack:
        prefix = stack.pop()
        if max_runs is not None and runs >= max_runs:
            complete = False
            break
        c = Controller(prefix, **kw)
        if ctx is not None:
            ctx.choices = c
        with controlled(c):
            try:
                body(c)
            except Horizon:
                complete = False
        runs += 1
        if len(c.trace) < len(prefix):
            raise PrefixDiverged('execution met fewer choice points than its prefix')
        for i in range(min(len(c.trace), len(c.trace) if c.tail is None else c.tail) - 1, len(prefix) - 1, -1):
            base = c.trace[:i]
            if max_dev is not None and sum(1 for v in base if v) + 1 > max_dev:
                continue
            for alt in range(c.arity[i] - 1, 0, -1):
                stack.append(tuple(base) + (alt,))
    if ctx is not None:
        ctx.choices = None
    return runs, complete


class Weighted(Controller):
    """Carries the exact probability of the execution.  random()/uniform() are replaced by the midpoints of a uniform
    partition of [0, 1) into `grid` cells, which is exact for code that compares them with multiples of 1/grid."""

    def __init__(self, prefix=(), grid=16, **kw):
        super().__init__(prefix, floats=[(2 * i + 1) / (2 * grid) for i in range(grid)], **kw)
        from fractions import Fraction
        self.F = Fraction
        self.prob = Fraction(1)

    def weighted(self, ws, label):
        ws = [self.F(w) for w in ws]
        tot = sum(ws)
        opts = [i for i, w in enumerate(ws) if w > 0]
        i = opts[self.pick(len(opts), label)]
        self.prob *= ws[i] / tot
        return i

    def random(self):
        return self.floats[self.weighted([1] * len(self.floats), 'random')]

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self.weighted([1] * len(seq), 'choice')]

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if len(r) == 0:
            raise ValueError(f'empty range in randrange({start}, {stop})')
        return r[self.weighted([1] * len(r), 'randint')]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        n = len(population)
        if n == 0:
            raise IndexError('Cannot choose from an empty population')
        if cum_weights is not None:
            if weights is not None:
                raise TypeError('Cannot specify both weights and cumulative weights')
            cum = list(cum_weights)
            weights = [c - (cum[i - 1] if i else 0) for i, c in enumerate(cum)]
        weights = [1] * n if weights is None else list(weights)
        if len(weights) != n:
            raise ValueError('The number of weights does not match the population')
        if sum(weights) <= 0:
            raise ValueError('Total of weights must be greater than zero')
        return [population[self.weighted(weights, 'choices')] for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        pool = list(population)
        if k > len(pool) or k < 0:
            raise ValueError('Sample larger than population or is negative')
        return [pool.pop(self.weighted([1] * len(pool), 'sample')) for _ in range(k)]

    def shuffle(self, x):
        pool = list(x)
        out = []
        while pool:
            out.append(pool.pop(self.weighted([1] * len(pool), 'shuffle')))
        x[:] = out

    def getrandbits(self, k):
        return self.randrange(2 ** k)

    def numpy_choice(self, n, p=None):
        return self.weighted([1] * n if p is None else p, 'numpy')


def distribution(body, ctx=None, **kw):
    """Exact distribution {outcome: probability} of body(controller) over all random answers."""
    stack, dist = [()], {}
    while stack:
        prefix = stack.pop()
        c = Weighted(prefix, **kw)
        with controlled(c):
            r = body(c)
        dist[r] = dist.get(r, 0) + c.prob
        if ctx is not None:
            ctx.count('executions')
        for i in range(len(c.trace) - 1, len(prefix) - 1, -1):
            for alt in range(c.arity[i] - 1, 0, -1):
                stack.append(tuple(c.trace[:i]) + (alt,))
    return dist
