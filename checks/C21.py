"""make_input_complete / is_input_complete on every automaton type."""
from mc import anyaut as aa, partial as pt
from mc.build import ALPHABETS
from mc.props import P

META = P['C21']
CHUNK = 16


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (4, 1, 5), (2, 3, 101 if q else 7), (3, 2, 997 if q else 53)):
            for i, m in enumerate(pt.all_partial(kind, n, k)):
                if i % step == 0:
                    j += 1
                    yield ('det', m.key(), j)
                if kind == 'mealy' and i > (200000 if q else 3000000):
                    break
        for name, m in pt.bigs(kind):
            j += 1
            yield ('det', m.key(), j)
    for kind in ('mdp', 'smm', 'ndmoore', 'onfsm'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 1, 1), (2, 2, 101 if q else 3), (3, 1, 41 if q else 3), (3, 2, 10 ** 6 + 3 if q else 10 ** 5 + 3)):
            if kind in ('smm', 'onfsm'):
                step = step * 11 if n * k > 2 else step
                if (n, k) == (3, 2):
                    step *= 1009
            if kind == 'mdp' and (n, k) == (3, 2):
                step *= 37
            for m in aa.tables(kind, n, k, step):
                j += 1
                yield ('nd', m.key(), j)
        for name, m in aa.bigs(kind):
            j += 1
            yield ('nd', m.key(), j)


def run(case, ctx):
    typ, key, j = case
    mod = pt if typ == 'det' else aa
    p = mod.of_key(key)
    kind, n = p.kind, p.n
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:p.k]
    outs = [['x', 'y', 'z'], [0, 1, 2], ['', None, 0], ['epsilon', 'sink_state', 'sink']][j // 4 % 4]
    ids = [[f's{x}' for x in range(n)], list(range(n)), aa.upto(['sink', 's', 'sink_', 'a'], n)][j % 3]
    ctx.state()
    for way in ('self_loop', 'sink_state'):
        for direct in (True, False):
            st = []
            m = mod.build(p, al, ids=ids, om=(lambda o: o) if kind == 'dfa' else lambda o: outs[o], out=st, order=list(reversed(range(n))) if j % 2 == 0 else None)
            d0 = aa.describe(m)
            before = list(m.states)
            used = {al[i] for row in p.cells for i, c in enumerate(row) if c}
            complete = all(c for row in p.cells for i, c in enumerate(row) if al[i] in used)
            what = f'{kind} {key} letters {al} {way}'
            ctx.eq(m.is_input_complete(), complete, f'{what}: is_input_complete()')
            m.current_state = st[-1]
            if direct:
                from aalpy.utils import make_input_complete
                r = make_input_complete(m, missing_transition_go_to=way)
                ctx.check(r is m, f'{what}: make_input_complete returns something else')
            else:
                m.make_input_complete(way)
            ctx.trace()
            ctx.trans(n * len(used))
            # expected automaton
            exp = {s: (lab, dict(tr)) for s, (lab, tr) in d0[2].items()}
            sink = None
            if way == 'sink_state' and not complete:
                new = [s for s in m.states if all(s is not x for x in before)]
                ctx.eq(len(new), 1, f'{what}: number of added states')
                sink = new[0].state_id
                ctx.check(sink not in exp, f'{what}: the sink has the identifier of another state')
                exp[sink] = ({'dfa': False, 'moore': 'sink_state', 'ndmoore': 'sink_state', 'mdp': 'sink_state'}.get(kind), {})
            elif len(m.states) != len(before):
                ctx.fail(f'{what}: states were added')
            for s, (lab, tr) in exp.items():
                for a in used:
                    if a not in tr:
                        t = s if sink is None else sink
                        tr[a] = [(t, {'mealy': ('epsilon',), 'onfsm': ('epsilon',), 'mdp': (1.0,), 'smm': ('epsilon', 1.0)}.get(kind, ()))]
            got = aa.describe(m)
            ctx.check(got == (d0[0], d0[1], exp), lambda: f'{what}: {got}, expected {exp}')
            ctx.check(all(a is b for a, b in zip(m.states, before)) and len(m.states) == len(before) + (sink is not None), f'{what}: existing states were replaced or moved')
            ctx.check(m.is_input_complete(), f'{what}: the result is not input complete')
            ctx.eq(set(m.get_input_alphabet()), used, f'{what}: alphabet of the result')
            ctx.check(m.current_state is st[-1], f'{what}: the current state changed')
            m.make_input_complete(way)
            ctx.check(aa.describe(m) == got, f'{what}: completing twice changes the automaton')
            ctx.outcome((kind, way, complete, repr(exp)))
    if j % 499 == 0:
        ctx.sample(case)
