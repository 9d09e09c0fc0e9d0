"""Executing deterministic automata follows the transition table, whatever was executed before, and never changes it."""
from mc import anyaut as aa, partial as pt
from mc.build import ALPHABETS
from mc.props import P

META = P['C22']
CHUNK = 8


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 1, 1), (2, 2, 3 if q else 1), (3, 1, 2 if q else 1), (4, 1, 29 if q else 3), (2, 3, 499 if q else 29), (3, 2, 3001 if q else 101)):
            for i, m in enumerate(pt.all_partial(kind, n, k)):
                if i % step == 0:
                    j += 1
                    yield (m.key(), j)
                if kind == 'mealy' and i > (200000 if q else 3000000):
                    break
        for name, m in pt.bigs(kind, ('full', 'holes') if q else ('full', 'holes', 'tail', 'twice')):
            j += 1
            yield (m.key(), j)


def run(case, ctx):
    from aalpy.SULs import AutomatonSUL
    key, j = case
    p = pt.of_key(key)
    kind, n, k = p.kind, p.n, p.k
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:k]
    outs = [['x', 'y', 'z'], [0, 1, 2], ['', None, 0], [(1,), 2.5, False]][j // 4 % 4]
    om = (lambda o: bool(o)) if kind == 'dfa' else (lambda o: outs[o])
    ctx.state()
    st = []
    m = pt.build(p, al, om=om, out=st, order=list(reversed(range(n))) if j % 2 else None)
    d0 = aa.describe(m)
    idx = {id(s): x for x, s in enumerate(st)}
    sul = AutomatonSUL(m)
    depth = (6 if k == 1 else 4 if k == 2 else 3) if n < 3 else 4 if k < 4 else 3
    lab = lambda s: om(p.so[s]) if p.so is not None else None
    ctx.check(m.current_state is m.initial_state is st[0], f'{p}: initial state')
    bad = object()

    def undefined(f, letter, what):
        """An undefined input is an error; nothing changes."""
        cur = m.current_state
        try:
            r = f()
        except Exception:
            pass
        else:
            ctx.fail(f'{what}: undefined input {letter!r} is answered with {r!r}')
        ctx.check(m.current_state is cur, f'{what}: undefined input {letter!r} moves the automaton')

    # breadth-first over all words from every state; each continues on the same instance
    frontier = [(s, (), s, ()) for s in range(n)]
    for d in range(depth + 1):
        nxt = []
        for o, w, s, out in frontier:
            word, want = [al[i] for i in w], list(out)
            what = f'{p} letters {al}: {word} from state {o}'
            ctx.trace()
            ctx.trans(len(w))
            got = m.execute_sequence(st[o], word if len(w) % 2 else tuple(word))
            ctx.check(repr(got) == repr(want), lambda: f'{what}: execute_sequence gives {got}, expected {want}')
            ctx.check(m.current_state is st[s], f'{what}: execute_sequence leads elsewhere')
            if kind != 'mealy':
                ctx.check(repr(m.step(None)) == repr(lab(s)) and m.current_state is st[s], f'{what}: current output')
            # compute_output_seq and output_step leave the current state alone
            m.current_state = st[(o + 1) % n]
            got = m.compute_output_seq(st[o], word)
            exp = want if w or kind == 'mealy' else [lab(o)]
            ctx.check(repr(got) == repr(exp), lambda: f'{what}: compute_output_seq gives {got}, expected {exp}')
            ctx.check(m.current_state is st[(o + 1) % n], f'{what}: compute_output_seq moves the automaton')
            if len(w) == 1:
                got = m.output_step(st[o], word[0])
                ctx.check(repr(got) == repr(want[0]) and m.current_state is st[(o + 1) % n], f'{what}: output_step')
            if o == 0:
                m.reset_to_initial()
                got = [m.step(a) for a in word]
                ctx.check(repr(got) == repr(want), lambda: f'{what}: stepping gives {got}, expected {want}')
                if w or kind != 'mealy':
                    exp = want if w else [lab(0)]
                    got = list(sul.query(tuple(word)))
                    ctx.check(repr(got) == repr(exp), lambda: f'{what}: AutomatonSUL gives {got}, expected {exp}')
            m.execute_sequence(st[o], word)
            for i in range(k):
                c = p.cells[s][i]
                if c is None:
                    undefined(lambda: m.step(al[i]), al[i], what)
                    ctx.trans()
                elif d < depth:
                    t, oo = c
                    nxt.append((o, w + (i,), t, out + (om(oo) if kind == 'mealy' else lab(t),)))
            if d < 2:
                undefined(lambda: m.step('never used'), 'never used', what)
        frontier = nxt
    ctx.check(aa.describe(m) == d0 and repr(aa.describe(m)) == repr(d0), f'{p}: executing words changed the automaton')
    ctx.outcome(repr(d0))
    if j % 499 == 0:
        ctx.sample(case)
