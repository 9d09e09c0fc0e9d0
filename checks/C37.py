"""Pushdown automata: execution against a configuration-level reference on every word; word generators produce accepted words."""
from itertools import product
from mc import push
from mc.choices import explore
from mc.props import P
from checks.C05 import tables, pick

META = P['C37']
CHUNK = 8
ALS = [{('i', 0): 'x', ('i', 1): 'y', ('c', 0): '(', ('c', 1): '[', ('r', 0): ')', ('r', 1): ']'},
       {('i', 0): 0, ('i', 1): '', ('c', 0): 2, ('c', 1): False and 3 or 3, ('r', 0): 4, ('r', 1): 5},
       {('i', 0): ('in', 1), ('i', 1): ('in', 2), ('c', 0): ('c', 1), ('c', 1): ('c', 2), ('r', 0): ('r', 1), ('r', 1): ('r', 2)}]
for _l in ((('i', 2), 'z', 6), (('i', 3), 'u', 7), (('i', 4), 'v', 8), (('c', 2), '{', 9), (('r', 2), '}', 10)):
    for _a, _x in zip(ALS, (_l[1], _l[2], (_l[0][0], 9 + _l[0][1]))):
        _a[_l[0]] = _x
GS = [['(', '['] + [f'g{j}' for j in range(30)], list(range(32)), ['', 'z'] + [('g', j) for j in range(30)]]


def larger():
    """A few automata well beyond the exhaustive bounds."""
    for _, v in push.bigs():
        yield 's', v
        yield 'v', push.vp_of_sevpa(v)

    def mk(n, ni, nc, nr, ng, fi, fc, fr, acc):
        cut = lambda t: t if t is None else t % n
        return push.VPRef(n, ni, nc, nr, ng, tuple(tuple(cut(fi(s, i)) for i in range(ni)) for s in range(n)),
                          tuple(tuple(None if fc(s, c) is None else (fc(s, c)[0] % n, fc(s, c)[1] % ng) for c in range(nc)) for s in range(n)),
                          tuple(tuple(tuple(cut(fr(s, r, g)) for g in range(ng)) for r in range(nr)) for s in range(n)), tuple(bool(acc(s)) for s in range(n)))
    yield 'v', mk(8, 2, 2, 2, 3, lambda s, i: s + 1 + i if s != 5 else None, lambda s, c: (2 * s + c, s + c), lambda s, r, g: s + g + r if (s + r) % 3 else None, lambda s: s in (0, 6))
    yield 'v', mk(11, 1, 1, 2, 5, lambda s, i: 3 * s + 1, lambda s, c: (s + 1, s), lambda s, r, g: s * g + r, lambda s: s % 4 == 2)
    yield 'v', mk(6, 4, 3, 3, 2, lambda s, i: s + i if i != s else None, lambda s, c: (s + c, c) if c != 2 or s else None, lambda s, r, g: s + r if g != r % 2 else None, lambda s: s in (0, 3))


def cases(tier):
    q = tier == 'quick'
    j = 0
    for dims, partial, step in (((1, 1, 1, 1, 1), True, 1), ((1, 0, 2, 1, 2), True, 1), ((1, 0, 1, 2, 2), True, 1), ((2, 0, 1, 1, 1), True, 1),
                                ((1, 1, 2, 2, 2), True, 23 if q else 1), ((2, 1, 1, 1, 1), True, 37 if q else 2), ((2, 1, 1, 1, 2), False, 61 if q else 7),
                                ((2, 0, 2, 2, 2), True, 1300021 if q else 130003), ((3, 1, 1, 1, 1), True, 1600033 if q else 160001),
                                ((3, 1, 2, 2, 2), True, 10 ** 13 + 37 if q else 10 ** 12 + 39)):
        tot = push.vp_count(*dims, partial)
        for i in range(1 if step > 1 else 0, tot, step):
            j += 1
            yield ('v', push.vp_at(*dims, partial, i).key(), j)
    for n, ni, nc, nr, dead, step in ((1, 1, 1, 1, True, 1), (1, 2, 1, 1, True, 1), (1, 1, 2, 2, True, 5 if q else 1), (2, 0, 1, 1, True, 1), (2, 1, 1, 1, False, 1),
                                      (2, 1, 1, 1, True, 29 if q else 3), (2, 0, 2, 2, True, 4000037 if q else 400009), (3, 1, 1, 1, True, 4003 if q else 401)):
        for v in pick(n, ni, nc, nr, dead, False, step, 1 if step > 1 else 0):
            j += 1
            yield ('s', v.key(), j)
    for x in range(3):
        for t, v in larger():
            j += 1
            yield (t, v.key(), j)


def reachable(v):
    """All states can be reached by well matched words (the random generator searches for ever for guards that cannot occur)."""
    R = {0}
    while True:
        N = R | {t for s in R for t in v.din[s]} | {v.ret(s, r, g, c) for s in R for g in R for r in range(v.nr) for c in range(v.nc)}
        N.discard(None)
        if N == R:
            return len(R) == v.n
        R = N


def run(case, ctx):
    from aalpy.SULs import AutomatonSUL
    typ, key, i = case
    al = ALS[i % 3]
    if typ == 'v':
        ref = push.VPRef.of(key)
        mk = lambda: push.build_vpa(ref, al, GS[i % 3])
    else:
        vref = push.VRef.of(key)
        ref = push.vp_of_sevpa(vref)
        mk = lambda: push.build_sevpa(vref, al)
    L = ref.letters()
    extra = []
    if ref.n > 3:
        B = [w for j in range(7) for w in push.balanced(min(ref.ni, 2), min(ref.nc, 2), min(ref.nr, 2), j)][-200:]
        extra = [tuple(L[(j * j + x) % len(L)] for j in range(y)) for x in range(3) for y in (9, 25, 60)] + [B[j] + B[-j] + B[3 * j % len(B)] for j in range(1, len(B), 4)]
        for j in (5, 12, 40):
            deep = tuple(('c', y % ref.nc) for y in range(j))
            extra += [deep, deep + tuple(('r', y % ref.nr) for y in range(j)), deep + B[7] + tuple(('r', (y + 1) % ref.nr) for y in range(j))]
    depth = 5 if len(L) <= 3 else 4 if len(L) <= 4 else 3 if len(L) <= 6 else 2
    m, other = mk(), mk()
    sul = AutomatonSUL(mk())
    view = lambda m: (sorted(map(repr, m.get_input_alphabet().internal_alphabet)), sorted(map(repr, m.get_input_alphabet().call_alphabet)),
                      sorted(map(repr, m.get_input_alphabet().return_alphabet)), m.is_input_complete(), m.size, m.is_balanced([]) if typ == 'v' else None)
    before = view(m)
    ctx.state()
    # the automaton says which letters it has: those of its transitions (a 1-SEVPA call letter occurs in stack guards)
    have = {t: {al[(t, x)] for x in range(n) if (
        any(ref.dint[s][x] is not None for s in range(ref.n)) if t == 'i' else
        any(any(y is not None for y in ref.dret[s][x]) for s in range(ref.n)) if t == 'r' else
        any(ref.dcall[s][x] is not None for s in range(ref.n)) if typ == 'v' else
        any(ref.dret[s][r][g * ref.nc + x] is not None for s in range(ref.n) for r in range(ref.nr) for g in range(ref.n)))}
        for t, n in (('i', ref.ni), ('c', ref.nc), ('r', ref.nr))}
    a = m.get_input_alphabet()
    for t, got in (('i', a.internal_alphabet), ('c', a.call_alphabet), ('r', a.return_alphabet)):
        ctx.check(len(got) == len(have[t]) and set(got) == have[t], lambda: f'input alphabet ({t}): {got}, expected {have[t]}')
    ctx.check(len(a.get_merged_alphabet()) == sum(map(len, have.values())), 'merged alphabet')
    if typ == 'v':
        full = all(ref.dint[s][x] is not None or al[('i', x)] not in have['i'] for s in range(ref.n) for x in range(ref.ni)) and \
            all(ref.dcall[s][x] is not None or al[('c', x)] not in have['c'] for s in range(ref.n) for x in range(ref.nc)) and \
            all(any(y is not None for y in ref.dret[s][x]) or al[('r', x)] not in have['r'] for s in range(ref.n) for x in range(ref.nr))
        # Vpa.from_state_setup adds the (empty) error state
        full = full and (len(m.states) == ref.n or not any(have.values()))
        ctx.eq(m.is_input_complete(), full, 'is_input_complete()')
    acc = []
    frontier = [((), ref.start())]
    prev = None
    for d in range(depth + 2):
        if d > depth:
            frontier = [(w, None) for w in extra]
        nxt = []
        for w, conf in frontier:
            word = [al[x] for x in w]
            exp = ref.run(w)
            # interactive execution, asking for the current output in between; another instance runs in between
            m.reset_to_initial()
            other.reset_to_initial()
            ctx.check(bool(m.step(None)) == ref.acc[0], lambda: f'step(None) initially on {ref.key()}')
            got = []
            for n, x in enumerate(word):
                got.append(m.step(x))
                if prev is not None and n < len(prev[0]):
                    o = other.step(prev[0][n])
                    ctx.check(bool(o) == prev[1][n], lambda: f'a second instance executing {prev[0]} is disturbed by {word}')
                ctx.check(bool(m.step(None)) == exp[n], lambda: f'step(None) after {word[:n + 1]}: expected {exp[n]}; {ref.key()}')
            ctx.check([bool(o) for o in got] == exp, lambda: f'stepping {word}: {got}, expected {exp}; {ref.key()}')
            ctx.check(all(isinstance(o, bool) for o in got), lambda: f'outputs {got} are not booleans')
            # the same word with execute_sequence straight after (whatever the stack holds) and through the adapter
            for _ in range(2):
                got = m.execute_sequence(m.initial_state, word)
                ctx.check([bool(o) for o in got] == exp, lambda: f'execute_sequence({word}): {got}, expected {exp}; {ref.key()}')
            got = sul.query(tuple(word))
            want = exp if w else [ref.acc[0]]
            ctx.check([bool(o) for o in got] == want, lambda: f'AutomatonSUL.query({word}): {got}, expected {want}; {ref.key()}')
            ctx.trace(4)
            ctx.trans(len(w) * 4)
            if typ == 'v':
                bal = True
                k = 0
                for t, x in w:
                    if al[(t, x)] in have[t]:
                        k += (t == 'c') - (t == 'r')
                        bal = bal and k >= 0
                if all(al[x] in have[x[0]] for x in w):
                    ctx.check(m.is_balanced(word) == (bal and k == 0), lambda: f'is_balanced({word})')
            if want[-1] and d <= depth:
                acc.append(word)
            prev = (word, exp)
            if d < depth:
                nxt += [(w + (x,), None) for x in L]
        frontier = nxt
    ctx.eq(view(m), before, f'alphabet, completeness and size after executing words ({ref.key()})')
    ctx.outcome((len(acc), before[3]))
    nonempty = [w for w in acc if w]
    accepted = lambda w: ref.run([next(k for k, v in al.items() if v == x and type(v) is type(x)) for x in w])[-1:] == [True] if len(w) else ref.acc[0]
    # random accepting words: whatever choices are made
    if typ == 'v' and i % 5 == 0:
        for lo, hi in ((0, 3), (1, 4), (2, 5)):
            def body(c):
                w = m.generate_random_accepting_word(min_steps=lo, max_steps=hi)
                ctx.trace()
                if w is None:
                    return
                ctx.check(accepted(w), lambda: f'generate_random_accepting_word({lo},{hi}) returns {w}, which is not accepted; {ref.key()}')
                ctx.check(lo <= len(w) <= hi, lambda: f'generate_random_accepting_word({lo},{hi}) returns {w} of length {len(w)}')
                seen.add(tuple(w))
            seen = set()
            _, complete = explore(body, ctx, max_runs=400)
            # every accepted word within the limits can be generated
            if complete:
                want = {tuple(w) for w in acc if lo <= len(w) < hi and (len(w) > 0 or lo == 0)}
                want = {w for w in want if not any(accepted(list(w[:j])) for j in range(lo, len(w)))}
                ctx.check(want <= seen, lambda: f'accepted words {want - seen} cannot be generated; {ref.key()}')
    if typ == 's' and nonempty and (i % 3 == 0 or vref.n == 1):
        short = min(map(len, nonempty))
        for num, lo in ((1, 0), (2, 2)):
            ok = [w for w in nonempty if len(w) >= lo]
            if len(ok) < num:
                continue

            def body(c):
                w = m.get_accepting_words_bfs(min_word_length=lo, num_words=num)
                ctx.trace()
                ctx.check(w is not None and len(w) == num and len(set(map(tuple, w))) == num, lambda: f'get_accepting_words_bfs({lo},{num}) returns {w}; {ref.key()}')
                for x in w:
                    ctx.check(accepted(x) and len(x) >= lo, lambda: f'get_accepting_words_bfs({lo},{num}) returns {x}; {ref.key()}')
                best = sorted(map(len, ok))[:num]
                ctx.eq([len(x) for x in w], best, f'lengths of the words found by get_accepting_words_bfs({lo},{num}); {ref.key()}')
            explore(body, ctx, max_runs=3, shuffle='ends')
        if i % 6 == 0 and reachable(vref):
            for lo in (1, 2):
                def body(c):
                    w = m.get_random_accepting_word(min_len=lo)
                    ctx.trace()
                    ctx.check(accepted(w) and len(w) >= lo, lambda: f'get_random_accepting_word(min_len={lo}) returns {w}; {ref.key()}')
                explore(body, ctx, max_runs=60, max_points=9, floats=(0.0, 1 - 2 ** -53))
    if i % 997 == 0:
        ctx.sample(case)
