"""Reference tables of deterministic machines that may be incomplete, disconnected and non-minimal."""
from collections import deque
from itertools import product


class PRef:
    """cells[s][i] = None or (target, output); state_out[s] for dfa/moore (cell output None there)."""

    def __init__(self, kind, k, cells, so=None):
        self.kind, self.k, self.cells, self.so = kind, k, cells, so

    @property
    def n(self):
        return len(self.cells)

    def key(self):
        return (self.kind, self.k, self.cells, self.so)

    def lab(self, s):
        return self.so[s] if self.so is not None else None

    def __repr__(self):
        return f'{self.kind}:{self.cells}/{self.so}'


def of_key(t):
    return PRef(*t)


def all_partial(kind, n, k, outs=2, complete=False):
    """Every table, whether connected or not."""
    if kind == 'mealy':
        opts = [(t, o) for t in range(n) for o in range(outs)]
    else:
        opts = [(t, None) for t in range(n)]
    if not complete:
        opts = [None] + opts
    for flat in product(opts, repeat=n * k):
        cells = tuple(tuple(flat[s * k:(s + 1) * k]) for s in range(n))
        if kind == 'mealy':
            yield PRef(kind, k, cells)
        else:
            for so in product((False, True) if kind == 'dfa' else range(outs), repeat=n):
                yield PRef(kind, k, cells, so)


def build(p, alpha, order=None, ids=None, om=None, out=None):
    from aalpy.automata import Dfa, DfaState, MealyMachine, MealyState, MooreMachine, MooreState
    om = om or (lambda o: o)
    ids = ids or [f's{j}' for j in range(p.n)]
    if p.kind == 'dfa':
        st, cls = [DfaState(ids[j], is_accepting=bool(p.so[j])) for j in range(p.n)], Dfa
    elif p.kind == 'moore':
        st, cls = [MooreState(ids[j], om(p.so[j])) for j in range(p.n)], MooreMachine
    else:
        st, cls = [MealyState(ids[j]) for j in range(p.n)], MealyMachine
    for j in range(p.n):
        for i in range(p.k):
            c = p.cells[j][i]
            if c is not None:
                st[j].transitions[alpha[i]] = st[c[0]]
                if p.kind == 'mealy':
                    st[j].output_fun[alpha[i]] = om(c[1])
    lst = [st[q] for q in order] if order else list(st)
    m = cls(st[0], lst)
    if out is not None:
        out.extend(st)
    return m


def differs(a, x, b, y):
    """Shortest word showing that state x of a and y of b are not bisimilar (enabled inputs count), or None."""
    if a.lab(x) != b.lab(y):
        return ()
    seen, q = {(x, y)}, deque([(x, y, ())])
    while q:
        s, t, w = q.popleft()
        for i in range(a.k):
            c, d = a.cells[s][i], b.cells[t][i]
            if (c is None) != (d is None):
                return w + (i,)
            if c is None:
                continue
            if c[1] != d[1] or a.lab(c[0]) != b.lab(d[0]):
                return w + (i,)
            if (c[0], d[0]) not in seen:
                seen.add((c[0], d[0]))
                q.append((c[0], d[0], w + (i,)))
    return None


def shows_difference(a, b, w):
    """Does the word w itself reveal a difference (at its last step)?"""
    if not w:
        return a.lab(0) != b.lab(0)
    s, t = 0, 0
    for j, i in enumerate(w):
        c, d = a.cells[s][i], b.cells[t][i]
        if c is None or d is None:
            return j == len(w) - 1 and (c is None) != (d is None)
        s, t = c[0], d[0]
    return c[1] != d[1] or a.lab(s) != b.lab(t)


def reach(p, s0=0):
    seen, q = {s0: ()}, deque([s0])
    while q:
        s = q.popleft()
        for i in range(p.k):
            c = p.cells[s][i]
            if c is not None and c[0] not in seen:
                seen[c[0]] = seen[s] + (i,)
                q.append(c[0])
    return seen


def read(m, alpha):
    """Table of a deterministic model: all listed states, initial first."""
    st = [m.initial_state] + [s for s in m.states if s is not m.initial_state]
    idx = {id(s): j for j, s in enumerate(st)}
    kind = type(m).__name__
    kind = {'Dfa': 'dfa', 'MooreMachine': 'moore', 'MealyMachine': 'mealy'}[kind]
    cells = []
    for s in st:
        row = []
        for a in alpha:
            if a not in s.transitions:
                row.append(None)
            else:
                row.append((idx[id(s.transitions[a])], s.output_fun[a] if kind == 'mealy' else None))
        cells.append(tuple(row))
    so = None if kind == 'mealy' else tuple(s.is_accepting if kind == 'dfa' else s.output for s in st)
    return PRef(kind, len(alpha), tuple(cells), so), st


def of_ref(r):
    return PRef(r.kind, r.k, tuple(tuple((t, r.out[s][i] if r.kind == 'mealy' else None) for i, t in enumerate(d)) for s, d in enumerate(r.delta)),
                None if r.kind == 'mealy' else tuple(r.out))


def bigs(kind, variants=('full', 'twice', 'tail', 'holes')):
    """Larger machines (9-32 states): as they are, with every state duplicated, with unreachable states, with undefined inputs."""
    from .ref import big
    for name, r in big(kind):
        p = of_ref(r)
        n, k, mealy = p.n, p.k, kind == 'mealy'
        for v in variants:
            if v == 'full':
                yield name, p
            elif v == 'twice' and n <= 13:
                yield name + '*2', PRef(kind, k, tuple(tuple((c[0] + (n if (s + i) % 3 == 0 else 0), c[1]) for i, c in enumerate(p.cells[s % n])) for s in range(2 * n)),
                                        None if mealy else p.so * 2)
            elif v == 'tail':
                extra = tuple(tuple((n + j + 1 if i == 0 and j < 2 else (j * 5 + i) % n, p.cells[0][i][1]) for i in range(k)) for j in range(3))
                yield name + '+3', PRef(kind, k, p.cells + extra, None if mealy else p.so + p.so[1:4])
            elif v == 'holes':
                yield name + '-', PRef(kind, k, tuple(tuple(None if (s * 3 + i) % 5 == 2 else c for i, c in enumerate(row)) for s, row in enumerate(p.cells)), p.so)


def changes(p, full=True):
    """All tables that differ from p in one target, one output or one missing entry."""
    outs = (0, 1, 2)
    for s in range(p.n):
        for i in range(p.k):
            c = p.cells[s][i]

            def put(x):
                rows = list(p.cells)
                rows[s] = rows[s][:i] + (x,) + rows[s][i + 1:]
                return PRef(p.kind, p.k, tuple(rows), p.so)
            if c is None:
                yield put((s, outs[0] if p.kind == 'mealy' else None))
                continue
            yield put(None)
            for t in range(p.n) if full else {(c[0] + 1) % p.n, s, 0}:
                if t != c[0]:
                    yield put((t, c[1]))
            if p.kind == 'mealy':
                for o in outs:
                    if o != c[1]:
                        yield put((c[0], o))
        if p.kind != 'mealy':
            for o in (False, True) if p.kind == 'dfa' else outs:
                if o != p.so[s]:
                    yield PRef(p.kind, p.k, p.cells, p.so[:s] + (o,) + p.so[s + 1:])
