"""Learning abstracted non-deterministic machines: observed traces are explained, states are abstractly distinguishable."""
from mc import anyaut as aa, nondet as nd
from mc.build import ALPHABETS
from mc.choices import explore
from mc.props import P
from checks.C31 import usable

META = P['C32']
CHUNK = 4


def part(amap):
    cls = list(range(3))
    for a, b in amap:
        cls = [cls[a] if c == cls[b] else c for c in cls]
    return cls


def cases(tier):
    q = tier == 'quick'
    j = 0
    for n, k, outs, width, step in ((1, 1, 2, 2, 1), (1, 2, 2, 2, 1), (2, 1, 2, 2, 1), (1, 1, 3, 3, 1), (2, 2, 2, 2, 17 if q else 3), (3, 1, 2, 2, 11 if q else 1),
                                    (2, 1, 3, 3, 2), (3, 1, 3, 3, 911 if q else 191), (3, 2, 2, 2, 30011 if q else 7001), (4, 1, 2, 2, 1997 if q else 397),
                                    (2, 2, 3, 3, 900007 if q else 190009)):
        for t in aa.tables('onfsm', n, k, step, outs=outs, width=width, partial=False):
            if not usable(t):
                continue
            for amap in ((), ((0, 1),)) if outs == 2 else ((), ((0, 1),), ((1, 2),), ((0, 1), (1, 2))):
                ab = part(amap)
                if weather(t, 5) > (64 if q else 96) or abstract_classes(t, lambda o: ab[o]) is None:
                    continue
                j += 1
                yield (t.key(), amap, j)
    for no in (2, 3):
        for _, t in aa.bigs('onfsm', outs=no, partial=False, sparse=9):
            if usable(t):
                for amap in ((), ((0, 1),)) if no == 2 else ((), ((0, 1),), ((1, 2),)):
                    ab = part(amap)
                    if weather(t, 9) <= 64 and abstract_classes(t, lambda o: ab[o]) is not None:
                        j += 1
                        yield (t.key(), amap, j)


def abstract_classes(t, ab):
    """state -> class of reachable states with the same abstract traces, or None if the abstraction is not compatible with the
    system: two such states agree on an input and a concrete output but continue in states with other abstract traces."""
    R = nd.reachable(t)

    def det(S, i):
        d = {}
        for s in S:
            for o, x in nd.step(t, s, i).items():
                d.setdefault(ab(o), set()).add(x)
        return {o: frozenset(v) for o, v in d.items()}

    def equal(a, b):
        seen, todo = set(), [(frozenset([a]), frozenset([b]))]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for i in range(t.k):
                x, y = det(p[0], i), det(p[1], i)
                if set(x) != set(y):
                    return False
                todo += [(x[o], y[o]) for o in x]
        return True
    cl = {}
    for s in R:
        cl[s] = next((cl[r] for r in cl if equal(s, r)), len(set(cl.values())))
    for a in R:
        for b in R:
            if cl[a] == cl[b]:
                for i in range(t.k):
                    x, y = nd.step(t, a, i), nd.step(t, b, i)
                    if any(cl[x[o]] != cl[y[o]] for o in x if o in y):
                        return None
    return cl


def weather(t, n):
    """Number of samples after which the round robin has given every answer to every word of up to n letters."""
    best = dict.fromkeys(range(t.n), 1)
    for _ in range(n):
        best = {s: max(len(c) * max(best[x] for x, _, _ in c) for c in t.cells[s]) for s in range(t.n)}
    return max(best[s] for s in nd.reachable(t))


def run(case, ctx):
    from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
    from aalpy.base import Oracle
    t, amap, j = aa.of_key(case[0]), tuple(map(tuple, case[1])), case[2]
    al = ALPHABETS[('str', 'int', 'tuple', 'word')[j % 4]][:t.k]
    outs = [['x', 'y', 'z'], [0, 'O', (0,)], ['', 'x', 0], ['q', 'p', '']][j // 4 % 4]
    cls = part(amap)
    mapping = {outs[o]: ('A', cls[o]) for o in range(3) if cls.count(cls[o]) > 1} if j % 2 else {outs[o]: outs[cls[o]] for o in range(3)}
    ab = lambda o: cls[o]
    ctx.state()
    q = ctx.tier == 'quick'
    cl = abstract_classes(t, ab)
    size = len(set(cl.values()))
    depth = (j % 3) * 2 if q else 6
    for ns in (weather(t, 5 if t.n < 5 else 9) + j % 3,):
        def body(c):
            pick = nd.Rotated(c, depth)
            sul = nd.make_sul(t, al, outs, pick)
            hyps = []
            what = f'abstracted ONFSM L* {mapping} {ns} on {t}'

            def states(m):
                """Each state has its own access trace and shows after it what the system shows, up to the abstraction."""
                met = []
                for s in m.states:
                    ctx.check(set(s.transitions) <= set(al), lambda: f'{what}: inputs {list(s.transitions)}')
                    w = [(al.index(a), outs.index(o)) for a, o in zip(*s.prefix)]
                    x = 0
                    for i, o in w:
                        x = nd.step(t, x, i).get(o) if x is not None else None
                    ctx.check(x is not None, lambda: f'{what}: access trace {w} is not a trace of the system')
                    met.append(cl[x])
                    for i, a in enumerate(al):
                        ctx.eq({ab(outs.index(o)) for o, _ in s.transitions[a]}, {ab(o) for o in nd.step(t, x, i)}, f'{what}: abstracted outputs of {a!r} in the state of {w}')
                ctx.check(len(set(met)) == len(met), lambda: f'{what}: states with the same abstracted traces: {[s.prefix for s in m.states]}')
                ctx.eq(tuple(m.initial_state.prefix), ((), ()), f'{what}: access trace of the initial state')

            class Teacher(Oracle):
                def find_cex(self, hyp):
                    h = nd.DetHyp(hyp, al, outs, lambda ok, m: ctx.check(ok, lambda: f'{what}: {m() if callable(m) else m}'))
                    states(hyp)
                    hyps.append(h)
                    ctx.check(len(hyps) <= 60, lambda: f'{what}: more than 60 rounds')
                    df = nd.differences(t, h, 0, '+', cap=4)
                    if not df:
                        return None
                    w = df[c.pick(len(df), 'cex')][1]
                    sul.forced = w
                    self.sul.pre()
                    for i, o in w:
                        self.sul.step(al[i])
                        self.num_steps += 1
                    self.sul.post()
                    sul.forced = None
                    self.num_queries += 1
                    return [al[i] for i, _ in w], [outs[o] for _, o in w]
            eq = Teacher(list(al), sul)
            m, info = run_abstracted_ONFSM_Lstar(list(al), sul, eq, dict(mapping), n_sampling=ns, print_level=0, return_data=True)
            ctx.trace()
            h = nd.DetHyp(m, al, outs, lambda ok, msg: ctx.check(ok, lambda: f'{what}: {msg() if callable(msg) else msg}'))
            ctx.eq(type(m).__name__, 'Onfsm', f'{what}: type')
            states(m)
            df = nd.differences(t, h, 0, '+')
            ctx.check(not df, lambda: f'{what}: model lacks {df[:2]}')
            ctx.check(h.observable, lambda: f'{what}: two transitions with the same input and output')
            for w in map(tuple, sul.log):
                ctx.check(h.can(w), lambda: f'{what}: model does not explain {w}')
            ctx.check(h.reach() == set(range(h.n)), lambda: f'{what}: unreachable states')
            ctx.check(h.n <= size, lambda: f'{what}: {h.n} states, at most {size} are distinguishable by abstracted outputs')
            ctx.eq(info['automaton_size'], h.n, f'{what}: reported size')
            ctx.eq(info['learning_rounds'], len(hyps), f'{what}: reported rounds')
            ctx.outcome((h.n, size, len(hyps), str(h.d)))
            ctx.trans(len(sul.log))
        n, complete = explore(body, ctx, max_runs=(20 if q else 100) if t.n < 5 else 2)
        if not complete:
            ctx.capped += 1
