"""PAPNI: the learned VPA agrees with every labelled well matched word, rejects all others, and does nothing unexercised."""
from itertools import product
from mc import push, passive as ps
from mc.props import P
from checks.C37 import ALS

META = P['C29']
CHUNK = 8


def wordpool(ni, nc, nr, n):
    return [w for l in range(n + 1) for w in push.balanced(ni, nc, nr, l)]


def cases(tier):
    q = tier == 'quick'
    j = 0
    for ni, nc, nr, n, step in ((1, 1, 1, 2, 1), (1, 1, 1, 3, 1), (0, 1, 1, 4, 1), (0, 1, 1, 6, 5 if q else 1), (0, 2, 2, 2, 1), (1, 2, 1, 2, 1),
                                (1, 1, 2, 2, 1), (1, 2, 2, 2, 1), (0, 2, 2, 4, 10 ** 15 if q else 10 ** 14), (1, 1, 1, 4, 10 ** 5 + 3 if q else 10 ** 4 + 3)):
        pool = wordpool(ni, nc, nr, n)
        tot = 3 ** len(pool)
        for x in range(0 if step == 1 else step, tot, step):
            j += 1
            lab, v = [], x
            for w in pool:
                lab.append(v % 3)
                v //= 3
            s = tuple((w, bool(l - 1)) for w, l in zip(pool, lab) if l)
            if s:
                yield ('s', (ni, nc, nr), s, j)
    # complete samples of 1-SEVPA tables
    from checks.C05 import pick
    for n, ni, nc, nr, dead, step in ((1, 1, 1, 1, True, 1), (2, 0, 1, 1, True, 5 if q else 1), (2, 1, 1, 1, False, 5 if q else 1), (2, 0, 2, 2, True, 16000037 if q else 1600009),
                                      (3, 0, 1, 1, True, 9973 if q else 997)):
        for v in pick(n, ni, nc, nr, dead, False, step, 1 if step > 1 else 0):
            j += 1
            yield ('m', v.key(), 6 if nc == 1 else 4, j)
    for x in range(3):
        for _, v in push.bigs():
            n = 2
            while len(wordpool(v.ni, v.nc, v.nr, n + 1)) <= (1000 if q else 5000):
                n += 1
            j += 1
            yield ('m', v.key(), n, j)


def run(case, ctx):
    from aalpy.automata import VpaAlphabet
    from aalpy.learning_algs import run_PAPNI
    if case[0] == 'm':
        v = push.VRef.of(case[1])
        dims = (v.ni, v.nc, v.nr)
        sample = tuple((w, v.accepts(w)) for w in wordpool(*dims, case[2]))
    else:
        dims, sample = case[1], push._tt(case[2])
    i = case[3]
    al = ALS[i % 3]
    letters = [(t, x) for t, n in zip('icr', dims) for x in range(n)]
    va = VpaAlphabet(*[[al[(t, x)] for x in range(n)] for t, n in zip('icr', dims)])
    base = [([al[x] for x in w], l) for w, l in sample]
    # words that are not well matched are ignored whatever their label
    junk = [([al[('r', 0)]], True), ([al[('c', 0)]], True), ([al[('r', 0)], al[('c', 0)]], False), ([al[('c', 0)]] * 2 + [al[('r', 0)]], True)]
    orders = [base, base[::-1] + junk] if case[0] == 's' else [base]
    if i % 3 == 0:
        orders.append(junk[:2] + base + base[::2])
    ctx.state()
    known = {w: l for w, l in sample}
    for data in orders:
        for algo in ('gsm', 'classic', 'edsm'):
            if algo == 'classic' and len(sample) > 25:
                continue
            what = f'PAPNI {algo} on {data}'
            arg = [(list(w), l) for w, l in data]
            m = run_PAPNI(arg, va, algorithm=algo, print_info=False)
            ctx.trace()
            ctx.check(m is not None, lambda: f'{what}: no model')
            for w, l in sample:
                word = [al[x] for x in w]
                m.reset_to_initial()
                got = [m.step(None)] + [m.step(x) for x in word]
                ctx.check(bool(got[-1]) == l, lambda: f'{what}: answers {got[-1]} for {word}')
            for n in range(1, 4):
                for w in product(letters, repeat=n):
                    k, bal = 0, True
                    for t, _ in w:
                        k += (t == 'c') - (t == 'r')
                        bal = bal and k >= 0
                    if k or not bal:
                        ctx.check(not m.execute_sequence(m.initial_state, [al[x] for x in w])[-1], lambda: f'{what}: accepts {w}, which is not well matched')
            # the model does exactly what the sample exercises: encode it as the DFA over letters and (return, matching call)
            used, seen = set(), {id(m.initial_state)}
            enc = []
            for w, l in sample:
                s, st, e = m.initial_state, [], []
                for t, x in w:
                    g = None
                    if t == 'c':
                        st.append(al[(t, x)])
                    elif t == 'r':
                        g = st.pop()
                    cand = [tr for tr in s.transitions.get(al[(t, x)], []) if t != 'r' or tr.stack_guard == g]
                    ctx.check(len(cand) == 1, lambda: f'{what}: {len(cand)} transitions for {(t, x)} on {w}')
                    ctx.check(cand[0].action == {'i': None, 'c': 'push', 'r': 'pop'}[t], lambda: f'{what}: wrong stack action for {(t, x)}')
                    used.add(id(cand[0]))
                    s = cand[0].target_state
                    seen.add(id(s))
                    e.append((t, x, None if g is None else repr(g)))
                enc.append((tuple(e), l))
            allt = [tr for s in m.states for l in s.transitions.values() for tr in l]
            ctx.check(used == {id(t) for t in allt}, lambda: f'{what}: transition not exercised by the sample')
            ctx.check(seen == {id(s) for s in m.states}, lambda: f'{what}: state not reached by the sample')
            view = VView(m, va)
            r = ps.Run(view, 'dfa', [(tuple(x if t != 'r' else (x, g) for t, x, g in _named(w, al)), l) for w, l in sample],
                       lambda c, msg: ctx.check(c, lambda: f'{what}: {msg() if callable(msg) else msg}'))
            for x in range(len(r.st)):
                for y in range(x):
                    ctx.check(not r.mergeable(y, x), lambda: f'{what}: states {r.st[y].state_id} and {r.st[x].state_id} could be merged')
            ctx.outcome((len(m.states), len(allt), algo))
            ctx.trans(len(allt))
    # contradictions: no model (None or a ValueError that says so), never a model or an accident
    j = i % len(base)
    if case[0] == 's':
        for algo in ('gsm', 'classic', 'edsm'):
            for bad in (base + [(base[j][0], not base[j][1])], [(base[j][0], not base[j][1])] + base):
                try:
                    m = run_PAPNI([(list(w), l) for w, l in bad], va, algorithm=algo, print_info=False)
                except ValueError:
                    m = None
                ctx.check(m is None, lambda: f'PAPNI {algo}: contradictory sample {bad} accepted')
                ctx.trace()
    if i % 499 == 0:
        ctx.sample(case)


def _named(w, al):
    st = []
    for t, x in w:
        g = None
        if t == 'c':
            st.append(al[(t, x)])
        elif t == 'r':
            g = st.pop()
        yield t, al[(t, x)], g


class _S:
    pass


class VView:
    """The VPA as a DFA over internal letters, calls and (return, matching call) pairs."""

    def __init__(self, m, va):
        by = {id(s): _S() for s in m.states}
        for s in m.states:
            v = by[id(s)]
            v.state_id, v.is_accepting, v.transitions = s.state_id, s.is_accepting, {}
            for l in s.transitions.values():
                for t in l:
                    v.transitions[(t.letter, t.stack_guard) if t.action == 'pop' else t.letter] = by[id(t.target_state)]
        self.initial_state, self.states = by[id(m.initial_state)], list(by.values())
