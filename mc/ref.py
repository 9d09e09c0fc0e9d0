"""Reference models: plain tables, independent of the code under test, with their own equivalence and minimization."""
from collections import deque
from itertools import product


class Ref:
    """Deterministic complete machine over input indices 0..k-1.
    kind 'dfa' | 'moore': out[s]; 'mealy': out[s][i].  State 0 is initial."""
    __slots__ = ('kind', 'k', 'delta', 'out')

    def __init__(self, kind, k, delta, out):
        self.kind, self.k, self.delta, self.out = kind, k, tuple(tuple(d) for d in delta), out

    @property
    def n(self):
        return len(self.delta)

    def state(self, word, s=0):
        for i in word:
            s = self.delta[s][i]
        return s

    def outputs(self, word, s=0):
        r = []
        for i in word:
            if self.kind == 'mealy':
                r.append(self.out[s][i])
                s = self.delta[s][i]
            else:
                s = self.delta[s][i]
                r.append(self.out[s])
        return r

    def sout(self, s):
        return self.out[s] if self.kind != 'mealy' else None

    def key(self):
        return (self.kind, self.k, self.delta, self.out)

    def minimal(self):
        """Moore partition refinement on the reachable part -> canonical minimal Ref (BFS order)."""
        reach, q = [0], deque([0])
        seen = {0}
        while q:
            s = q.popleft()
            for t in self.delta[s]:
                if t not in seen:
                    seen.add(t)
                    reach.append(t)
                    q.append(t)
        cls = {s: repr(self.out[s]) for s in reach}
        while True:
            sig = {s: (cls[s], tuple(cls[t] for t in self.delta[s])) for s in reach}
            ids = {}
            new = {s: ids.setdefault(sig[s], len(ids)) for s in reach}
            if len(ids) == len(set(cls.values())):
                cls = new
                break
            cls = new
        order, q, rep = {cls[0]: 0}, deque([0]), [0]
        while q:
            s = q.popleft()
            for t in self.delta[s]:
                if cls[t] not in order:
                    order[cls[t]] = len(order)
                    rep.append(t)
                    q.append(t)
        delta = tuple(tuple(order[cls[t]] for t in self.delta[s]) for s in rep)
        return Ref(self.kind, self.k, delta, tuple(self.out[s] for s in rep))

    def is_minimal(self):
        return self.minimal().n == self.n

    def access(self):
        acc, q = {0: ()}, deque([0])
        while q:
            s = q.popleft()
            for i, t in enumerate(self.delta[s]):
                if t not in acc:
                    acc[t] = acc[s] + (i,)
                    q.append(t)
        return acc

    def __repr__(self):
        return f'{self.kind}:{self.delta}/{self.out}'


def distinguish(a, sa, b, sb, state_out=True):
    """Shortest word on which state sa of a and sb of b differ (() when the state outputs differ), or None."""
    if state_out and a.kind != 'mealy' and a.out[sa] != b.out[sb]:
        return ()
    seen, q = {(sa, sb)}, deque([(sa, sb, ())])
    while q:
        x, y, w = q.popleft()
        for i in range(a.k):
            nx, ny = a.delta[x][i], b.delta[y][i]
            ox = a.out[x][i] if a.kind == 'mealy' else a.out[nx]
            oy = b.out[y][i] if b.kind == 'mealy' else b.out[ny]
            if ox != oy:
                return w + (i,)
            if (nx, ny) not in seen:
                seen.add((nx, ny))
                q.append((nx, ny, w + (i,)))
    return None


def equivalent(a, b):
    return distinguish(a, 0, b, 0) is None


def words(k, lo, hi):
    for n in range(lo, hi + 1):
        yield from product(range(k), repeat=n)


def structures(n, k):
    """All transition tables of exactly n states over k inputs in which every state is reachable, in BFS-canonical
    numbering (one representative per isomorphism class of initially connected structures)."""
    table = [[None] * k for _ in range(n)]

    def rec(pos, known):
        if pos == n * k:
            if known == n:
                yield tuple(tuple(r) for r in table)
            return
        s, i = divmod(pos, k)
        if s >= known:
            return
        for t in range(min(known + 1, n)):
            table[s][i] = t
            yield from rec(pos + 1, max(known, t + 1))
        table[s][i] = None

    yield from rec(0, 1)


def machines(kind, n, k, outs=2, minimal=None, sym=True):
    """Every initially connected machine with exactly n states, k inputs and outputs from range(outs) (bool for dfa).
    sym: outputs are numbered in order of first use (symmetry reduction; not for dfa)."""
    cells = n if kind != 'mealy' else n * k
    for delta in structures(n, k):
        for flat in product(range(outs), repeat=cells):
            if kind != 'dfa' and sym:
                m, ok = 0, True
                for o in flat:
                    if o > m:
                        ok = False
                        break
                    if o == m:
                        m += 1
                if not ok:
                    continue
            if kind == 'dfa':
                out = tuple(bool(o) for o in flat)
            elif kind == 'moore':
                out = flat
            else:
                out = tuple(flat[s * k:(s + 1) * k] for s in range(n))
            r = Ref(kind, k, delta, out)
            if minimal is not None and r.is_minimal() != minimal:
                continue
            yield r


def from_key(t):
    def tt(x):
        return tuple(tt(y) for y in x) if isinstance(x, (list, tuple)) else x
    kind, k, delta, out = t
    return Ref(kind, k, tt(delta), tt(out))


def family(kind, k=2):
    """Hand-picked larger structured machines (counters, combination locks, shift registers, chains with traps)."""
    def mk(delta, acc):
        n = len(delta)
        if kind == 'dfa':
            out = tuple(bool(acc(s)) for s in range(n))
        elif kind == 'moore':
            out = tuple((2 if acc(s) and s % 2 else 1 if acc(s) else 0) for s in range(n))
        else:
            out = tuple(tuple((1 if acc(t) else 0) if i else (2 if acc(t) else 0) for i, t in enumerate(delta[s]))
                        for s in range(n))
        return Ref(kind, k, delta, out)

    for n in (4, 5, 6):                      # modulo counters: input 0 increments, the others keep / decrement
        yield f'counter{n}', mk([[(s + 1) % n] + [(s if i == 1 else (s - 1) % n) for i in range(1, k)] for s in range(n)],
                                lambda s, n=n: s == n - 1)
    for secret in ((0, 1, 0), (0, 1, 1, 0), (1, 0, 0, 1, 1)):   # combination locks
        n = len(secret) + 1
        d = [[(s + 1 if i == secret[s] else 0) for i in range(k)] for s in range(n - 1)] + [[n - 1] * k]
        yield f'lock{n}', mk(d, lambda s, n=n: s == n - 1)
    for m in (2, 3):                         # shift registers: accept iff the m-th last input was 1
        n = 2 ** m
        d = [[((s * 2) + (1 if i == 1 else 0)) % n for i in range(k)] for s in range(n)]
        yield f'shift{m}', mk(d, lambda s, n=n: s >= n // 2)
    for n in (4, 5):                         # chain into an accepting trap, the last input resets
        d = [[min(s + 1, n - 1)] + [0] * (k - 1) for s in range(n)]
        yield f'chain{n}', mk(d, lambda s, n=n: s == n - 1)
    n = 5                                    # trap: wrong input leads to a dead state
    d = [[s + 1 if i == s % k else 4 for i in range(k)] for s in range(3)] + [[0] * k] + [[4] * k]
    yield 'trap5', mk(d, lambda s: s == 3)


def big(kind):
    """A few machines well beyond the exhaustive bounds (9-16 states, 2-4 inputs), against size-dependent mistakes."""
    def mk(k, delta, o):
        n = len(delta)
        if kind == 'mealy':
            out = tuple(tuple((o(delta[s][i]) + (i == k - 1 and s % 3 == 1)) % 3 for i in range(k)) for s in range(n))
        else:
            out = tuple(bool(o(s)) if kind == 'dfa' else o(s) for s in range(n))
        return Ref(kind, k, tuple(tuple(d) for d in delta), out)
    n = 12
    yield 'counter12', mk(2, [[(s + 1) % n, (s - 1) % n] for s in range(n)], lambda s: 1 if s == n - 1 else 2 if s == 4 else 0)
    secret = (0, 1, 2, 1, 1, 0, 2, 2, 0, 1)
    yield 'lock11', mk(3, [[(s + 1 if i == secret[s] else 0) for i in range(3)] for s in range(10)] + [[10] * 3], lambda s: 1 if s == 10 else 0)
    yield 'shift4', mk(2, [[(2 * s + i) % 16 for i in range(2)] for s in range(16)], lambda s: 1 if s >= 8 else 0)
    yield 'grid3x4', mk(4, [[(s // 4 + 1) % 3 * 4 + s % 4, (s // 4 - 1) % 3 * 4 + s % 4, s // 4 * 4 + (s + 1) % 4, s // 4 * 4 + (s - 1) % 4]
                            for s in range(12)], lambda s: 1 if s in (0, 7) else 2 if s == 9 else 0)
    yield 'mix9x4', mk(4, [[(s * (i + 2) + i * i + 1) % 9 for i in range(4)] for s in range(9)], lambda s: (s * s + s // 4) % 3)
    yield 'mix13', mk(3, [[(s + 1) % 13, (s * 5 + 2) % 13, (s * s + 1) % 13] for s in range(13)], lambda s: 1 if s % 5 == 2 else 0)
    yield 'wide12', mk(12, [[(s + 1) % 5 if i == 3 * s % 11 else 4 if i == 11 and s == 2 else s if i < 6 else (s * s + i) % 5 for i in range(12)] for s in range(5)], lambda s: 1 if s == 4 else 2 if s == 1 else 0)
