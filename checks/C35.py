"""Stochastic L*: hypotheses are the observed frequencies of their representatives; ideal sampling gives the minimal model."""
from collections import Counter
from mc import anyaut as aa, stoch as st
from mc.build import ALPHABETS
from mc.choices import explore
from mc.props import P
from checks.C34 import OUTS, usable, flat

META = P['C35']
CHUNK = 2
STRATEGIES = ('classic', 'normal', 'chi2', 'custom')


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('mdp', 'smm'):
        m = kind == 'mdp'
        for n, k, outs, step in ((1, 1, 2, 1), (1, 2, 2, 1), (2, 1, 2, 1 if m else 11 if q else 1), (2, 2, 2, (43 if m else 1777) if q else (5 if m else 211)),
                                 (3, 1, 2, (13 if m else 97) if q else (1 if m else 7)), (3, 2, 2, (60007 if m else 7000003) if q else (9001 if m else 900007)),
                                 (3, 1, 3, (61 if m else 499) if q else (3 if m else 23)), (4, 1, 2, (1201 if m else 30011) if q else (151 if m else 4001))):
            for t in aa.tables(kind, n, k, step, outs=outs, partial=False):
                if usable(t):
                    j += 1
                    yield (t.key(), j)
    # larger systems: output patterns around a cycle (one of the steps may be random) and locks
    for kind in ('mdp', 'smm'):
        for t in larger(kind):
            j += 1
            yield (t.key(), j, 'big')


def necklaces(n):
    """Binary output sequences of cycles with n different states, one per rotation class."""
    for x in range(2 ** n):
        w = format(x, f'0{n}b')
        rot = [w[i:] + w[:i] for i in range(n)]
        if w == min(rot) and len(set(rot)) == n:
            yield w


PATTERNS = [w for n in (5, 6, 7) for w in necklaces(n)] + ['012013', '01012', '0102', '00010111', '000100110']


def larger(kind):
    for pat in PATTERNS:
        n = len(pat)
        o = [int(c) for c in pat]
        for coin in (None, n - 2):
            cells = []
            for s in range(n):
                tg = (s + 1) % n
                if coin == s:        # the pattern starts again with probability 1/4
                    row = (((tg, None, .75), (0, None, .25)) if kind == 'mdp' else ((tg, o[s], .75), (0, 1 - o[s] if o[s] < 2 else 0, .25)),)
                else:
                    row = (((tg, None if kind == 'mdp' else o[s], 1.0),),)
                cells.append(row)
            t = aa.NRef(kind, 1, tuple(cells), tuple(o) if kind == 'mdp' else None)
            if usable(t):
                yield t
    for code in ((0, 1, 0), (0, 0, 1, 0), (1, 1, 0, 1)):      # a lock: wrong inputs lead back
        n = len(code) + 1
        cells = []
        for s in range(n):
            row = []
            for i in range(2):
                tg = (s + 1 if i == code[s] else 0) if s < len(code) else 0
                row.append(((tg, None if kind == 'mdp' else int(s == len(code)), 1.0),))
            cells.append(tuple(row))
        t = aa.NRef(kind, 2, tuple(cells), tuple(int(s == n - 1) for s in range(n)) if kind == 'mdp' else None)
        if usable(t):
            yield t


def run(case, ctx):
    from aalpy.base import Oracle
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.learning_algs.stochastic.DifferenceChecker import AdvancedHoeffdingChecker
    t, j = aa.of_key(case[0]), case[1]
    q = ctx.tier == 'quick'
    al, outs = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:t.k], OUTS[j // 4 % 4]
    ctx.state()
    cl = st.classes(t)
    size = len(set(cl.values()))
    big = len(case) > 2
    if max([o for c in t.cells for b in c for _, o, _ in b if o is not None] + list(t.so or ())) > 2:
        outs = outs + ['w']
    for x in range(5 if big else 2 if q else 5):
        y = j * 3 + x * 7
        strategy = STRATEGIES[(j + x) % 4]
        cexp = (None, 'longest_prefix', 'rs')[y // 3 % 3]
        smp = (None, 'bfs', 'random:3:0.2')[y % 3]
        lim = (12, 3, 12, 5)[y // 2 % 4]
        depth = (0, 2)[y // 5 % 2]
        if big:
            strategy, cexp, smp, lim, depth = ('normal', 'chi2')[x % 2], (None, 'longest_prefix', 'rs')[x // 2], (None, 'bfs', 'random:3:0.2')[(j + x) % 3], 12, 0
        what = f'stochastic L* {strategy}, {cexp}, {smp}, max_rounds={lim} on {t}'

        def body(c):
            pick = st.Proportional(c, depth, key='history')
            force = []
            sul = st.make_sul(t, al, outs, lambda s, h, i, d: force[len(h)] if force else pick(s, h, i, d))
            seen = []
            counters = [0, 0]

            def model(m, n, complete):
                """The model against the frequencies observed so far."""
                S = list(m.states)
                ctx.check(any(s is m.initial_state for s in S), lambda: f'{what}: initial state missing')
                chaos = [s for s in S if (s.output if t.kind == 'mdp' else s.state_id) == 'chaos']
                real = [s for s in S if s not in chaos]
                ctx.check(len(chaos) <= 1 and (not chaos or not complete), lambda: f'{what}: chaos state in a hypothesis')
                ctx.check(len({s.state_id for s in S}) == len(S), lambda: f'{what}: state identifiers repeat')
                acc = {}
                d = {}
                for s in real:
                    p = tuple(s.prefix)
                    if t.kind == 'mdp':
                        ctx.eq(p[0], outs[t.so[0]], f'{what}: first output of the access trace {p}')
                        ctx.eq(s.output, p[-1], f'{what}: output of state {p}')
                        p = p[1:]
                    acc[id(s)] = p = tuple((al.index(p[y]), outs.index(p[y + 1])) for y in range(0, len(p), 2))
                    ctx.check(not p or not n or n[p] > 0, lambda: f'{what}: access trace {p} was never observed')
                    cells = {}
                    ctx.eq(set(s.transitions), set(al), f'{what}: inputs of state {p}')
                    for i, a in enumerate(al):
                        cell = {}
                        if len(s.transitions[a]) == 1 and any(s.transitions[a][0][0] is z for z in chaos):
                            ctx.eq(s.transitions[a][0][-1], 1.0, f'{what}: transition to chaos')
                            if n and strategy != 'classic':
                                ctx.check(not any(n[p + ((i, o),)] for o in range(len(outs))), lambda: f'{what}: chaos after {p} {a!r} which was observed')
                            cells[i] = None
                            continue
                        for e in s.transitions[a]:
                            ctx.check(any(e[0] is z for z in real), lambda: f'{what}: transition of {p} {a!r} leads to a state that is not in the model')
                            o = outs.index(e[0].output if t.kind == 'mdp' else e[1])
                            ctx.check(o not in cell, lambda: f'{what}: output {outs[o]!r} occurs twice for {a!r} in {p}')
                            cell[o] = (e[0], e[-1])
                        ctx.check(cell and abs(sum(pr for _, pr in cell.values()) - 1) < 1e-9, lambda: f'{what}: distribution of {a!r} in {p}: {cell}')
                        if n:
                            f = {o: n[p + ((i, o),)] for o in range(len(outs)) if n[p + ((i, o),)]}
                            ctx.check(set(f) == set(cell) and all(abs(cell[o][1] - f[o] / sum(f.values())) < 1e-9 for o in f),
                                      lambda: f'{what}: distribution of {a!r} after {p}: {[(o, cell[o][1]) for o in cell]}, observed {f}')
                        cells[i] = cell
                    d[id(s)] = cells
                # access traces are distinct, lead to possible states of the system, in pairwise different classes
                cls = [cl[st.run_to(t, acc[id(s)])] for s in real]
                ctx.check(len(set(acc.values())) == len(real), lambda: f'{what}: access traces repeat')
                if strategy != 'custom':
                    ctx.check(len(set(cls)) == len(cls), lambda: f'{what}: states {[acc[id(s)] for s in real]} behave alike but are separate ({size} classes)')
                i0 = m.initial_state
                ctx.eq(cl[st.run_to(t, acc[id(i0)])] == cl[0] or strategy == 'custom' or depth > 0 or len(real) < size, True, f'{what}: initial state is {acc[id(i0)]}')
                return acc, d, real, bool(chaos)

            def counts():
                n = Counter()
                for w in map(tuple, sul.log):
                    for z in range(1, len(w) + 1):
                        n[w[:z]] += 1
                return n

            class Teacher(Oracle):
                def reset_counter(self):
                    pass

                def find_cex(self, hyp):
                    acc, d, real, _ = model(hyp, counts(), True)
                    seen.append(hyp)
                    # shortest trace of the system that the hypothesis excludes
                    todo, done = [((), 0, hyp.initial_state)], set()
                    found = None
                    while todo and found is None:
                        w, s, h = todo.pop(0)
                        if (s, id(h)) in done:
                            continue
                        done.add((s, id(h)))
                        for i in range(t.k):
                            for o, (z, _) in sorted(st.succ(t, s, i).items()):
                                cell = d[id(h)][i]
                                if cell is None:
                                    continue
                                if o not in cell:
                                    found = found or w + ((i, o),)
                                else:
                                    todo.append((w + ((i, o),), z, cell[o][0]))
                    if found is None:
                        return None
                    force[:] = [o for _, o in found]
                    self.reset_hyp_and_sul(hyp)
                    for i, _ in found:
                        self.sul.step(al[i])
                        self.num_steps += 1
                    self.sul.post()
                    counters[0] += 1
                    counters[1] += len(found)
                    force.clear()
                    return list(flat(t, outs, al, found))
            eq = Teacher(list(al), sul)
            sul.post = post_any(sul)
            m, info = run_stochastic_Lstar(list(al), sul, eq, automaton_type=t.kind, min_rounds=min(lim, 8), max_rounds=lim, custom_oracle=True,
                                           strategy=AdvancedHoeffdingChecker(0.05, use_diff=j % 2 == 0) if strategy == 'custom' else strategy, cex_processing=cexp,
                                           samples_cex_strategy=smp, n_c=(20, 400)[lim == 12], n_resample=(150, 1500)[lim == 12], return_data=True, print_level=0)
            ctx.trace()
            ctx.trans(sum(map(len, sul.log)))
            ctx.eq(aa.kind_of(m), t.kind, f'{what}: type')
            acc, d, real, chaos = model(m, None, False)
            if seen and not chaos:
                pass
            ctx.eq(info['automaton_size'], len(m.states), f'{what}: reported size')
            ctx.check(1 <= info['learning_rounds'] <= lim, lambda: f'{what}: {info["learning_rounds"]} rounds')
            ctx.eq((info['queries_eq_oracle'], info['steps_eq_oracle']), (eq.num_queries, eq.num_steps), f'{what}: oracle counters')
            tot = [w for w in sul.log]
            init = 1 if t.kind == 'mdp' else 0
            ctx.eq((info['queries_learning'], info['steps_learning']), (len(tot) - init - counters[0], sum(map(len, tot)) - counters[1]), f'{what}: queries and steps of learning')
            # ideal sampling: the system, up to the accuracy of the frequencies
            if lim == 12 and strategy in ('normal', 'chi2') and cexp != 'rs':     # 'rs' is experimental
                ctx.eq((len(real), chaos), (size, False), f'{what}: states (minimal model)')
                todo, done = [(0, m.initial_state)], set()
                while todo:
                    s, h = todo.pop()
                    if (s, id(h)) in done:
                        continue
                    done.add((s, id(h)))
                    for i in range(t.k):
                        cell, sc = d[id(h)][i], st.succ(t, s, i)
                        ctx.check(set(cell) == set(sc) and all(abs(cell[o][1] - sc[o][1]) < 0.15 for o in sc), lambda: f'{what}: distribution {i} in state {s}: {[(o, cell[o][1]) for o in cell]}')
                        todo += [(sc[o][0], cell[o][0]) for o in sc]
            ctx.outcome((len(real), chaos, info['learning_rounds'], str(sorted(acc.values()))))
        n, complete = explore(body, ctx, max_runs=4 if q else 16, floats=[0.1, 0.5, 0.9], tail=depth)
        if not complete:
            ctx.capped += 1
    if j % 41 == 0:
        ctx.sample(case)


def post_any(sul):
    """Oracles of the library call post() before the first pre()."""
    def post():
        sul.open = False
    return post
