"""Observable non-deterministic systems: trace language, minimal size, a scheduled system and a truthful teacher."""
from itertools import product


def step(t, s, i):
    """{output: target} of an observable table (kinds onfsm and smm)."""
    return {o: x for x, o, _ in t.cells[s][i]}


def reachable(t):
    seen, todo = [0], [0]
    while todo:
        s = todo.pop(0)
        for i in range(t.k):
            for x, _, _ in t.cells[s][i]:
                if x not in seen:
                    seen.append(x)
                    todo.append(x)
    return seen


def classes(t):
    """state -> class of trace-equivalent reachable states."""
    R = reachable(t)
    cl = {s: 0 for s in R}
    while True:
        sig = {s: (cl[s],) + tuple(tuple(sorted((o, cl[x]) for o, x in step(t, s, i).items())) for i in range(t.k)) for s in R}
        ids = {}
        new = {s: ids.setdefault(sig[s], len(ids)) for s in R}
        if len(set(new.values())) == len(set(cl.values())):
            return new
        cl = new


def minimal_size(t):
    return len(set(classes(t).values()))


def traces(t, n):
    """All traces (letters and output indices) of length <= n."""
    r, layer = [], [((), 0)]
    for _ in range(n + 1):
        r += [w for w, _ in layer]
        layer = [(w + ((i, o),), x) for w, s in layer for i in range(t.k) for o, x in sorted(step(t, s, i).items())]
    return r


def runs(succ, s, word):
    """All traces of a word from a state, succ(state, letter) = {output: target}."""
    r = [((), s)]
    for i in word:
        r = [(w + ((i, o),), x) for w, y in r for o, x in succ(y, i).items()]
    return {w for w, _ in r}


class Hyp:
    """The learned model as {letter index: {output index: state}} per state."""

    def __init__(self, m, al, outs, check):
        self.m = m
        st = [m.initial_state] + [s for s in m.states if s is not m.initial_state]
        check(any(s is m.initial_state for s in m.states), 'the initial state is not a state of the model')
        idx = {id(s): j for j, s in enumerate(st)}
        check(len(idx) == len({s.state_id for s in st}), 'state identifiers repeat')
        self.n = len(st)
        self.d = []
        self.prob = []
        for s in st:
            row, pr = {}, {}
            for a in list(s.transitions):
                check(a in al, lambda: f'unknown input {a!r}')
                cell = {}
                for e in s.transitions[a]:
                    o, x, p = (e[0], e[1], None) if len(e) == 2 else (e[1], e[0], e[2])
                    check(any(o == y and type(o) is type(y) for y in outs), lambda: f'unknown output {o!r}')
                    o = outs.index(o)
                    check(o not in cell, lambda: f'not observable: {a!r}/{outs[o]!r} occurs twice in {s.state_id}')
                    check(id(x) in idx, 'transition to an unlisted state')
                    cell[o] = idx[id(x)]
                    pr[(al.index(a), o)] = p
                row[al.index(a)] = cell
            self.d.append(row)
            self.prob.append(pr)
        self.st = st

    def reach(self):
        seen, todo = {0}, [0]
        while todo:
            for c in self.d[todo.pop()].values():
                for x in c.values():
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
        return seen

    def can(self, w):
        s = 0
        for i, o in w:
            s = self.d[s].get(i, {}).get(o)
            if s is None:
                return False
        return True


class DetHyp(Hyp):
    """A learned model with possibly several targets per input and output: d is its subset construction, n its number of states."""

    def __init__(self, m, al, outs, check):
        st = [m.initial_state] + [s for s in m.states if s is not m.initial_state]
        check(any(s is m.initial_state for s in m.states), 'the initial state is not a state of the model')
        idx = {id(s): j for j, s in enumerate(st)}
        check(len(idx) == len({s.state_id for s in st}), 'state identifiers repeat')
        self.m, self.st, self.n, self.observable = m, st, len(st), True
        cells = []
        for s in st:
            row = {}
            for a in list(s.transitions):
                check(a in al, lambda: f'unknown input {a!r}')
                for o, x in s.transitions[a]:
                    check(any(o == y and type(o) is type(y) for y in outs), lambda: f'unknown output {o!r}')
                    check(id(x) in idx, 'transition to an unlisted state')
                    c = row.setdefault(al.index(a), {}).setdefault(outs.index(o), set())
                    check(idx[id(x)] not in c, lambda: f'{a!r}/{o!r} from {s.state_id} to {x.state_id} repeats')
                    c.add(idx[id(x)])
                    self.observable &= len(c) == 1
            cells.append(row)
        subs, todo = {frozenset([0]): 0}, [frozenset([0])]
        self.d, met = [], {0}
        for S in todo:
            row = {}
            for i in sorted({i for s in S for i in cells[s]}):
                row[i] = {}
                for o in sorted({o for s in S for o in cells[s].get(i, {})}):
                    T = frozenset(x for s in S for x in cells[s].get(i, {}).get(o, ()))
                    met |= T
                    if T not in subs:
                        subs[T] = len(todo)
                        todo.append(T)
                    row[i][o] = subs[T]
            self.d.append(row)
        self.met = met

    def reach(self):
        return self.met


def differences(t, h, extra=0, kinds='+-', cap=200):
    """Shortest (+extra) traces on which the system and the hypothesis differ: [(sign, trace)]; '+' only the system has it."""
    seen = {(0, 0)}
    layer = [((), 0, 0)]
    found, left = [], None
    while layer and len(found) < cap:
        nxt = []
        for w, s, x in layer:
            for i in range(t.k):
                a, b = step(t, s, i), h.d[x].get(i, {})
                for o in sorted(set(a) | set(b)):
                    v = w + ((i, o),)
                    if o in a and o in b:
                        if (a[o], b[o]) not in seen or (left is not None):
                            seen.add((a[o], b[o]))
                            nxt.append((v, a[o], b[o]))
                    elif o in a:
                        if '+' in kinds:
                            found.append(('+', v))
                    elif '-' in kinds:
                        found.append(('-', v))
        if found:
            left = extra if left is None else left - 1
            if left <= 0:
                break
        layer = nxt
    return found


def make_sul(t, al, outs, pick):
    """A SUL whose answers come from pick(history, letter index, options); history = tuple of (letter, output) indices."""
    from aalpy.base import SUL

    class S(SUL):
        def __init__(self):
            super().__init__()
            self.forced = None
            self.log = []
            self.open = False
            self.ix = {a: j for j, a in enumerate(al)}

        def pre(self):
            self.s, self.h = 0, ()
            self.log.append([])
            if self.open:
                raise AssertionError('pre() without post()')
            self.open = True

        def post(self):
            if not self.open:
                raise AssertionError('post() without pre()')
            self.open = False

        def step(self, letter):
            if not self.open:
                raise AssertionError('step() outside pre() and post()')
            i = self.ix[letter]
            d = step(t, self.s, i)
            opts = sorted(d)
            o = self.forced[len(self.h)][1] if self.forced is not None else opts[0] if len(opts) == 1 else pick(self.h, i, opts)
            self.s = d[o]
            self.h += ((i, o),)
            self.log[-1].append((i, o))
            return outs[o]
    return S()


class Fair:
    """After the first `depth` enumerated answers: round robin per history, or one fixed fair sequence.  (Round robin alone
    answers every new history alike, which correlates answers with the learner's queries: closing can then run forever.)"""

    def __init__(self, c=None, depth=0, robin=True):
        from .choices import RealRandom
        self.c, self.left, self.n = c, depth, {}
        self.rnd = None if robin else RealRandom(4711)

    def __call__(self, h, i, opts):
        if self.left > 0:
            self.left -= 1
            return opts[self.c.pick(len(opts), 'answer')]
        if self.rnd is not None:
            return opts[self.rnd.randrange(len(opts))]
        k = self.n.get((h, i), 0)
        self.n[(h, i)] = k + 1
        return opts[k % len(opts)]


class Rotated:
    """All weather: round robin per history; the first answers given in the first `depth` histories are enumerated."""

    def __init__(self, c, depth):
        self.c, self.left, self.n = c, depth, {}

    def __call__(self, h, i, opts):
        k = self.n.get((h, i))
        if k is None:
            k = 0
            if self.left > 0:
                self.left -= 1
                k = self.c.pick(len(opts), 'first answer')
        self.n[(h, i)] = k + 1
        return opts[k % len(opts)]
