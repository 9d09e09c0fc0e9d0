"""Minimization keeps the behaviour and merges exactly the equivalent states."""
from itertools import permutations
from mc import partial as pt
from mc.build import ALPHABETS
from mc.ref import family
from mc.props import P

META = P['C16']
CHUNK = 16


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k in ((1, 2), (2, 2), (1, 3), (2, 1), (3, 1), (4, 1)):
            step = 5 if (kind == 'mealy' and n == 4) else 1
            for i, m in enumerate(pt.all_partial(kind, n, k, complete=True)):
                if i % step == 0:
                    yield (m.key(), i)
        step = {'dfa': 1, 'moore': 1, 'mealy': 5}[kind] if q else {'dfa': 1, 'moore': 1, 'mealy': 2}[kind]
        for i, m in enumerate(pt.all_partial(kind, 3, 2, complete=True)):
            if i % step == 0:
                yield (m.key(), i)
        for i, m in enumerate(pt.all_partial(kind, 2, 2)):
            yield (m.key(), i)
        for j, (_, p) in enumerate(pt.bigs(kind)):
            yield (p.key(), j)
        if not q:
            for i, m in enumerate(pt.all_partial(kind, 4, 2, complete=True)):
                if i % (101 if kind != 'mealy' else 20011) == 0:
                    yield (m.key(), i)
        # unfolded families: every state of a structured machine duplicated
        for _, f in family(kind, 2):
            n = f.n
            cells = tuple(tuple((f.delta[s % n][i] + (n if (s + i) % 2 else 0), f.out[s % n][i] if kind == 'mealy' else None) for i in range(2))
                          for s in range(2 * n))
            yield ((kind, 2, cells, None if kind == 'mealy' else tuple(f.out) * 2), 0)


def run(case, ctx):
    key, idx = case
    p = pt.of_key(key)
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[idx % 4]][:p.k]
    complete = all(None not in r for r in p.cells)
    orders = list(permutations(range(p.n))) if p.n <= 3 else [tuple(range(p.n)), tuple(reversed(range(p.n)))]
    ctx.state()
    for o in orders:
        m = pt.build(p, al, order=o)
        used = m.get_input_alphabet()
        full = all(len(r) - sum(c is None for c in r) == len(used) for r in p.cells)
        init = m.initial_state
        before = list(m.states)
        mini0 = all(pt.differs(p, x, p, y) is not None for x in range(p.n) for y in range(x))
        ctx.eq(m.is_minimal(), full and mini0, f'is_minimal of {p} (states {o})')
        m.minimize()
        ctx.trace()
        r, st = pt.read(m, al)
        ctx.check(any(s is init for s in m.states) and m.initial_state is init, lambda: f'{p} (states {o}): initial state lost')
        ctx.eq(len({id(s) for s in m.states}), len(m.states), 'duplicate states')
        for s in m.states:
            for t in s.transitions.values():
                ctx.check(any(t is x for x in m.states), lambda: f'{p} (states {o}): transition to a removed state')
        ctx.check(pt.differs(p, 0, r, 0) is None, lambda: f'{p} (states {o}): behaviour changed to {r}')
        if not full:
            ctx.eq([id(s) for s in m.states], [id(s) for s in before], 'incomplete automaton changed')
            continue
        classes = []
        for x in range(p.n):
            if not any(pt.differs(p, x, p, y) is None for y in classes):
                classes.append(x)
        ctx.eq(r.n, len(classes), f'{p} (states {o}): number of states after minimization')
        for x in range(r.n):
            for y in range(x):
                ctx.check(pt.differs(r, x, r, y) is not None, lambda: f'{p} (states {o}): two equivalent states left')
        if complete:
            ctx.check(m.is_minimal(), lambda: f'{p}: not minimal afterwards')
        if len(pt.reach(p)) == p.n:
            for s in m.states:
                x = m.initial_state
                for a in s.prefix:
                    x = x.transitions[a]
                ctx.check(x is s, lambda: f'{p}: prefix {s.prefix} of a minimized state does not lead to it')
        ctx.outcome(r.key())
        ctx.trans(r.n * r.k)
    ctx.sample(case)
