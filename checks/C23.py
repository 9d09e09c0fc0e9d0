"""Non-deterministic and stochastic automata move along their branches with exactly the given probabilities."""
from fractions import Fraction as F
from mc import anyaut as aa
from mc.build import ALPHABETS
from mc.choices import distribution, explore
from mc.props import P

META = P['C23']
CHUNK = 8


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('mdp', 'smm', 'ndmoore', 'onfsm', 'mc'):
        for n, k, step, width, obs in ((1, 1, 1, 2, False), (1, 2, 1, 2, False), (2, 1, 1, 2, False), (2, 2, 53 if q else 5, 2, True), (3, 1, 23 if q else 3, 3, True),
                                       (3, 2, 10 ** 8 + 7 if q else 10 ** 7 + 19, 3, True)):
            if kind == 'mc' and k > 1:
                continue
            if kind in ('smm', 'onfsm'):
                step = step * 11 if n * k > 2 else step
                if (n, k) == (3, 2):
                    step *= 1009
            if kind in ('ndmoore', 'mc') and (n, k) == (3, 2):
                step = step // 10 ** 5
            if (kind, n, k) == ('smm', 2, 1):
                step = 7 if q else 1
            for m in aa.tables(kind, n, k, step, width=width, observable=obs):
                j += 1
                yield (m.key(), j)
        for name, m in aa.bigs(kind):
            j += 1
            yield (m.key(), j)


def run(case, ctx):
    from aalpy.SULs import AutomatonSUL
    key, j = case
    p = aa.of_key(key)
    kind, n, k = p.kind, p.n, p.k
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:k]
    outs = [['x', 'y'], [0, 1], ['', None], [(1,), False]][j // 4 % 4]
    ctx.state()
    st = []
    m = aa.build(p, al, om=lambda o: outs[o], out=st, order=list(reversed(range(n))) if j % 2 else None)
    sul = AutomatonSUL(m)
    d0 = aa.describe(m)
    idx = {id(s): x for x, s in enumerate(st)}
    al0, comp0 = m.get_input_alphabet() if kind != 'mc' else None, m.is_input_complete() if kind != 'mc' else None
    state_out = kind in aa.STATE_OUT
    outof = lambda t, o: outs[p.so[t]] if state_out else outs[o]

    def unchanged(what):
        ctx.check(aa.describe(m) == d0, f'{what} changes the automaton')
        if kind != 'mc':
            ctx.eq(m.get_input_alphabet(), al0, f'{what}: input alphabet afterwards')
            ctx.eq(m.is_input_complete(), comp0, f'{what}: input completeness afterwards')

    def branch_dist(s, i):
        bs = p.cells[s][i]
        d = {}
        for t, o, pr in bs:
            x = (t, repr(outof(t, o)))
            d[x] = d.get(x, 0) + (F(pr) if kind in aa.PROB else F(1, len(bs)))
        return d

    def seq_dist(s, w):
        d = {(s, ()): F(1)}
        for i in w:
            e = {}
            for (x, os), q in d.items():
                for (t, o), r in branch_dist(x, i).items():
                    e[(t, os + (o,))] = e.get((t, os + (o,)), 0) + q * r
            d = e
        return d

    letters = [None] if kind == 'mc' else al
    for s in range(n):
        for i in range(k):
            what = f'{p} letters {al}: input {letters[i]!r} in state {s}'
            bs = p.cells[s][i]
            if not bs:
                if kind == 'mc':
                    m.current_state = st[s]
                    ctx.eq(m.step(), outs[p.so[s]], f'{what}: step in a final state')
                    ctx.check(m.current_state is st[s], f'{what}: step leaves a final state')
                else:
                    def body(c):
                        m.current_state = st[s]
                        try:
                            r = m.step(al[i])
                        except Exception:
                            ctx.check(m.current_state is st[s], f'{what}: undefined input moves the automaton')
                            return
                        ctx.fail(f'{what}: undefined input is answered with {r!r}')
                    explore(body, ctx)
                    unchanged(f'{what} (undefined)')
            else:
                def body(c):
                    m.current_state = st[s]
                    r = m.step(letters[i])
                    return (idx[id(m.current_state)], repr(r))
                got, want = distribution(body, ctx), branch_dist(s, i)
                ctx.trace()
                ctx.trans(len(bs))
                ctx.check(got == want, lambda: f'{what}: outcomes {got}, expected {want}')

                # extreme random numbers: the branch taken exists and has a positive probability
                def body(c):
                    m.current_state = st[s]
                    r = m.step(letters[i])
                    ctx.check((idx[id(m.current_state)], repr(r)) in want, lambda: f'{what}: takes {idx[id(m.current_state)]}, {r!r}')
                explore(body, ctx, floats=(0.0, 1 - 2 ** -53, 2 ** -53))
            if kind in ('mdp', 'smm', 'onfsm', 'mc'):
                for o in outs + ['never seen']:
                    m.current_state = st[s]
                    r = m.step_to(o) if kind == 'mc' else m.step_to(al[i], o)
                    ts = [t for t, x, _ in bs if outof(t, x) == o]
                    if ts:
                        ctx.check(repr(r) == repr(o) and idx[id(m.current_state)] in ts, lambda: f'{what}: step_to {o!r} gives {r!r} in state {idx[id(m.current_state)]}')
                    else:
                        ctx.check(r is None and m.current_state is st[s], lambda: f'{what}: step_to {o!r} gives {r!r} in state {idx[id(m.current_state)]}')
                    ctx.trans()
                unchanged(f'{what}: step_to')
            if kind == 'onfsm':
                m.current_state = st[s]
                ctx.eq(m.outputs_on_input(al[i]), [outs[o] for _, o, _ in bs], f'{what}: outputs_on_input')
                ctx.eq([(o, idx[id(t)]) for o, t in st[s].get_transition(al[i])], [(outs[o], t) for t, o, _ in bs], f'{what}: get_transition')
                for o in outs + ['never seen']:
                    if o is None:
                        continue
                    r = st[s].get_transition(al[i], o)
                    ts = [t for t, x, _ in bs if outs[x] == o]
                    ctx.check((r is not None and isinstance(r, tuple) and repr(r[0]) == repr(o) and idx[id(r[1])] == ts[0]) if ts else r is None, lambda: f'{what}: get_transition with output {o!r} gives {r!r}')
                unchanged(f'{what}: get_transition')
        if state_out and kind != 'mc':
            m.current_state = st[s]
            ctx.check(repr(m.step(None)) == repr(outs[p.so[s]]) and m.current_state is st[s], f'{p}: current output of state {s}')
            unchanged('asking for the current output')
        if kind != 'mc':
            for f in ('step', 'step_to', 'outputs_on_input'):
                if not hasattr(m, f):
                    continue
                m.current_state = st[s]

                def body(c):
                    try:
                        r = getattr(m, f)(*(('never used', 'x') if f == 'step_to' else ('never used',)))
                    except Exception:
                        r = None
                    ctx.check(r is None or r == [], lambda: f'{p}: {f} with an unknown input gives {r!r}')
                explore(body, ctx)
                unchanged(f'{p}: {f} with an unknown input')
    # words: the joint distribution of the outputs, through the adapter
    W = [(a, b) for a in range(k) for b in range(k)]
    for w in W:
        word = tuple(letters[i] for i in w)
        ok = {0}
        for i in w:
            if any(not p.cells[s][i] for s in ok):
                ok = None
                break
            ok = {t for s in ok for t, _, _ in p.cells[s][i]}
        if ok is None:
            continue
        want = {}
        for (t, os), q in seq_dist(0, w).items():
            want[os] = want.get(os, 0) + q
        got = distribution(lambda c: tuple(map(repr, sul.query(word))), ctx)
        ctx.trace()
        ctx.check(got == want, lambda: f'{p} letters {al}: outputs of {word}: {got}, expected {want}')

        def body(c):
            r = m.execute_sequence(st[0], word)
            return tuple(map(repr, r))
        got = distribution(body, ctx)
        ctx.check(got == want, lambda: f'{p} letters {al}: execute_sequence({word}): {got}, expected {want}')
    unchanged('executing words')
    m.current_state = st[-1]
    m.reset_to_initial()
    ctx.check(m.current_state is st[0], 'reset_to_initial')
    ctx.outcome(repr(d0))
    if j % 499 == 0:
        ctx.sample(case)
