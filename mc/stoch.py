"""Observable stochastic systems (mdp, smm): successor function, a scheduled system under learning."""


def succ(t, s, i):
    """{output: (target, probability)} (observable tables only)."""
    if t.kind == 'mdp':
        return {t.so[x]: (x, p) for x, _, p in t.cells[s][i]}
    return {o: (x, p) for x, o, p in t.cells[s][i]}


def observable(t):
    return all(len(succ(t, s, i)) == len(t.cells[s][i]) for s in range(t.n) for i in range(t.k))


def reachable(t):
    seen, todo = [0], [0]
    while todo:
        s = todo.pop(0)
        for i in range(t.k):
            for x, _ in succ(t, s, i).values():
                if x not in seen:
                    seen.append(x)
                    todo.append(x)
    return seen


def classes(t, probs=True):
    """state -> class of reachable states with equal (distributions of) traces."""
    R = reachable(t)
    cl = {s: t.so[s] if t.kind == 'mdp' else 0 for s in R}
    while True:
        sig = {s: (cl[s],) + tuple(tuple(sorted((o, cl[x], p if probs else 0) for o, (x, p) in succ(t, s, i).items())) for i in range(t.k)) for s in R}
        ids = {}
        new = {s: ids.setdefault(sig[s], len(ids)) for s in R}
        if len(set(new.values())) == len(set(cl.values())):
            return new
        cl = new


def run_to(t, w):
    s = 0
    for i, o in w:
        d = succ(t, s, i)
        if o not in d:
            return None
        s = d[o][0]
    return s


def make_sul(t, al, outs, pick):
    """Answers come from pick(state, history, letter, {output: probability}); the initial output of an MDP is answered to None."""
    from aalpy.base import SUL

    class S(SUL):
        def __init__(self):
            super().__init__()
            self.log, self.open = [], False
            self.ix = {a: j for j, a in enumerate(al)}

        def pre(self):
            if self.open:
                raise AssertionError('pre() without post()')
            self.open = True
            self.s, self.h = 0, ()
            self.log.append([])

        def post(self):
            if not self.open and self.log:
                raise AssertionError('post() without pre()')
            self.open = False

        def step(self, letter):
            if not self.open:
                raise AssertionError('step() outside pre() and post()')
            if letter is None:
                return outs[t.so[self.s]]
            i = self.ix[letter]
            d = succ(t, self.s, i)
            opts = sorted(d)
            o = opts[0] if len(opts) == 1 else pick(self.s, self.h, i, {x: d[x][1] for x in opts})
            self.s = d[o][0]
            self.h += ((i, o),)
            self.log[-1].append((i, o))
            return outs[o]
    return S()


class Proportional:
    """After `depth` enumerated answers: per state and input, always the output that is furthest behind its probability,
    so that observed frequencies follow the true distribution as closely as integers allow."""

    def __init__(self, c=None, depth=0, key='state'):
        self.c, self.left, self.n, self.key = c, depth, {}, key

    def __call__(self, s, h, i, d):
        k = (s if self.key == 'state' else h, i)
        n = self.n.setdefault(k, dict.fromkeys(d, 0))
        if self.left > 0:
            self.left -= 1
            o = sorted(d)[self.c.pick(len(d), 'answer')]
        else:
            tot = sum(n.values()) + 1
            o = max(sorted(d), key=lambda x: d[x] * tot - n[x])
        n[o] += 1
        return o
