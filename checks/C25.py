"""Random model generators: whatever the random choices, the model has the promised size, alphabet and shape."""
import warnings
from mc import anyaut as aa
from mc.choices import explore
from mc.props import P

META = P['C25']
CHUNK = 1


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, o in ((1, 1, 2), (1, 2, 2), (2, 1, 2), (2, 2, 2), (2, 1, 3), (2, 3, 2), (3, 1, 2), (3, 2, 2), (3, 2, 4), (4, 1, 2), (1, 1, None), (2, 2, None), (2, 2, 1), (3, 1, 6)):
            if kind == 'dfa' and o not in (2, None):
                continue
            for minimal in (True, False):
                yield ('det', kind, n, k, o, minimal, None)
                if kind == 'dfa':
                    for acc in range(n + 1):
                        yield ('det', kind, n, k, o, minimal, acc)
    for n in (1, 2, 3, 4):
        for k in (1, 2):
            for minimal in (True, False):
                for acc in range(0, n + 2):
                    yield ('gdfa', n, k, acc, minimal)
                for o in (2, 3):
                    yield ('gmealy', n, k, o, minimal)
                    yield ('gmoore', n, k, o, minimal)
    for n in (1, 2, 3, 4):
        for k in (1, 2):
            for o in (1, 2, 3):
                for pp in (None, ((1.0,),), ((0.5, 0.5), (1.0,)) if n > 1 and o > 1 else ((1.0,),)):
                    yield ('mdp', n, k, o, pp)
                    yield ('smm', n, k, o, pp)
    for n in (1, 2, 3):
        for k in (1, 2):
            for o in (1, 2, 3):
                for p in (0.0, 0.33, 1.0):
                    yield ('onfsm', n, k, o, p)
    for n in (3, 4, 5):
        yield ('mc', n)
    for n in (1, 2, 3):
        for i, c, r in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (0, 1, 1), (0, 2, 2)):
            for acc in (0.0, 0.5, 1.0):
                for ret in (0.0, 0.5, 1.0):
                    yield ('sevpa', n, i, c, r, acc, ret)
    # larger parameters, fewer executions of each
    for n, k, o in ((6, 3, 3), (9, 2, 2), (9, 5, 4), (14, 3, 5), (25, 2, 4), (12, 12, 12)):
        for minimal in (True, False):
            for kind in ('dfa', 'moore', 'mealy'):
                if kind != 'dfa' or o == 2:
                    yield ('det', kind, n, k, o, minimal, None)
            for acc in (1, n // 3, n - 1):
                yield ('det', 'dfa', n, k, 2, minimal, acc)
        for pp in (None, ((0.5, 0.25, 0.25), (0.6, 0.4), (1.0,)) if o > 2 else ((0.6, 0.4), (1.0,))):
            yield ('mdp', n, k, o, pp)
            yield ('smm', n, k, o, pp)
        for p in (0.0, 0.33, 1.0):
            yield ('onfsm', n, k, o, p)
        if n < 20:
            yield ('sevpa', n, 2, 2, 3, 0.5, 0.5)
            yield ('sevpa', n, 3, 1, 1, 0.5, 1.0)
    for n in (7, 11, 30):
        yield ('mc', n)


def reach(m, kind):
    seen, todo = {id(m.initial_state)}, [m.initial_state]
    while todo:
        s = todo.pop()
        for i in (s.transitions if kind != 'mc' else [None]):
            for t, _ in (aa.branches(kind, s, i) if kind != 'mc' else s.transitions):
                if id(t) not in seen:
                    seen.add(id(t))
                    todo.append(t)
    return seen


def basic(ctx, m, cls, n, what, connected=True):
    ctx.eq(type(m).__name__, cls, f'{what}: type')
    ctx.eq(len(m.states), n, f'{what}: number of states')
    ctx.check(len({id(s) for s in m.states}) == n and len({s.state_id for s in m.states}) == n, f'{what}: states repeat')
    ctx.check(any(s is m.initial_state for s in m.states), f'{what}: the initial state is not a state')
    R = reach(m, aa.kind_of(m))
    ctx.check(R <= {id(s) for s in m.states}, f'{what}: transition to a state of another automaton')
    if connected:
        ctx.eq(len(R), n, f'{what}: number of reachable states')


def check_det(ctx, m, kind, n, inputs, outputs, minimal, acc, what, warned):
    from mc.build import read
    basic(ctx, m, {'dfa': 'Dfa', 'moore': 'MooreMachine', 'mealy': 'MealyMachine'}[kind], n, what)
    for s in m.states:
        ctx.check(set(s.transitions) == set(inputs), lambda: f'{what}: inputs of state {s.state_id}: {list(s.transitions)}')
        if kind == 'mealy':
            ctx.check(set(s.output_fun) == set(inputs), lambda: f'{what}: inputs of the output function {list(s.output_fun)}')
        used = list(s.output_fun.values()) if kind == 'mealy' else [s.is_accepting if kind == 'dfa' else s.output]
        ctx.check(all(o in outputs for o in used), lambda: f'{what}: outputs {used}')
        x = m.initial_state
        for a in s.prefix:
            x = x.transitions[a]
        ctx.check(x is s, f'{what}: access word {s.prefix} of {s.state_id}')
    if kind != 'dfa':
        used = {repr(o) for s in m.states for o in (s.output_fun.values() if kind == 'mealy' else [s.output])}
        ctx.eq(len(used), min(len(outputs), n * len(inputs) if kind == 'mealy' else n), f'{what}: number of different outputs used')
    if kind == 'dfa' and acc is not None:
        ctx.eq(sum(bool(s.is_accepting) for s in m.states), acc, f'{what}: number of accepting states')
    r = read(m, inputs)
    if minimal and not r.is_minimal():
        ctx.check(warned, lambda: f'{what}: not minimal ({r}) and no warning')
        ctx.outcome(('non-minimal', kind, n))
    ctx.outcome(r.key())


def check_dist(ctx, m, kind, n, k, outputs, pp, what):
    basic(ctx, m, 'Mdp' if kind == 'mdp' else 'StochasticMealyMachine', n, what)
    ins = [f'i{x + 1}' for x in range(k)]
    std = [(1.,), (0.9, 0.1), (0.8, 0.2), (0.7, 0.3), (0.8, 0.1, 0.1), (0.7, 0.2, 0.1), (0.6, 0.2, 0.1, 0.1)]
    allowed = {tuple(sorted(p)) for p in (pp or std)}
    for s in m.states:
        ctx.check(set(s.transitions) == set(ins), lambda: f'{what}: inputs of state {s.state_id}: {list(s.transitions)}')
        if kind == 'mdp':
            ctx.check(s.output in outputs, lambda: f'{what}: output {s.output!r}')
        for i in ins:
            l = s.transitions[i]
            os = [t[0].output for t in l] if kind == 'mdp' else [t[1] for t in l]
            ctx.check(len(set(os)) == len(os) and all(o in outputs for o in os), lambda: f'{what}: outputs of {s.state_id} under {i}: {os}')
            ctx.check(tuple(sorted(t[-1] for t in l)) in allowed, lambda: f'{what}: probabilities of {s.state_id} under {i}: {[t[-1] for t in l]}')
    ctx.outcome(repr(aa.describe(m)))


def run(case, ctx):
    from aalpy.utils import AutomatonGenerators as G
    ctx.state()
    typ = case[0]
    what = repr(case)
    runs, tail = (1500, 7) if ctx.tier == 'quick' else (40000, 12)
    size = case[2] if typ == 'det' else case[1]
    if size > 5:
        runs = 60 if ctx.tier == 'quick' else 400
    floats = (0.0, 0.4, 0.9, 1 - 2 ** -53)

    def body(c):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if typ == 'det':
                _, kind, n, k, o, minimal, acc = case
                kw = {} if acc is None else {'num_accepting_states': acc}
                m = G.generate_random_deterministic_automata(kind, n, k, o, ensure_minimality=minimal, **kw)
                outs = [True, False] if kind == 'dfa' else [f'o{x + 1}' for x in range(max(2, o or 2))]
                check_det(ctx, m, kind, n, [f'i{x + 1}' for x in range(k)], outs, minimal, n // 2 if acc is None else acc, what, bool(w))
            elif typ == 'gdfa':
                _, n, k, acc, minimal = case
                al = ['a', 0, (1,)][:k]
                m = G.generate_random_dfa(n, list(al), num_accepting_states=acc, ensure_minimality=minimal)
                check_det(ctx, m, 'dfa', n, al, [True, False], minimal, acc if acc < n else None, what, bool(w))
            elif typ in ('gmealy', 'gmoore'):
                _, n, k, o, minimal = case
                al, ol = ['a', 0, (1,)][:k], ['x', '', None][:o]
                m = (G.generate_random_mealy_machine if typ == 'gmealy' else G.generate_random_moore_machine)(n, al, ol, ensure_minimality=minimal)
                ctx.check(al == ['a', 0, (1,)][:k] and ol == ['x', '', None][:o], f'{what}: the alphabets passed are changed')
                check_det(ctx, m, typ[1:], n, al, ol, minimal, None, what, bool(w))
            elif typ in ('mdp', 'smm'):
                _, n, k, o, pp = case
                f = G.generate_random_mdp if typ == 'mdp' else G.generate_random_smm
                m = f(n, k, o, possible_probabilities=list(pp) if pp else None)
                check_dist(ctx, m, typ, n, k, [f'o{x + 1}' for x in range(max(2, o))], pp, what)
            elif typ == 'onfsm':
                _, n, k, o, p = case
                m = G.generate_random_ONFSM(n, k, o, multiple_out_prob=p)
                basic(ctx, m, 'Onfsm', n, what, connected=False)
                for s in m.states:
                    ctx.check(set(s.transitions) == {f'i{x + 1}' for x in range(k)}, f'{what}: inputs of {s.state_id}')
                    for l in s.transitions.values():
                        os = [x for x, _ in l]
                        ctx.check(1 <= len(os) == len(set(os)) <= o and set(os) <= {f'o{x + 1}' for x in range(o)}, lambda: f'{what}: outputs {os}')
                        if p == 1.0 and o >= 2:
                            ctx.check(len(os) >= 2, lambda: f'{what}: only outputs {os}')
                ctx.outcome(repr(aa.describe(m)))
            elif typ == 'mc':
                m = G.generate_random_markov_chain(case[1])
                basic(ctx, m, 'MarkovChain', case[1], what)
                for s in m.states:
                    ctx.check(not s.transitions and s is m.states[-1] or abs(sum(p for _, p in s.transitions) - 1) < 1e-9 and all(p > 0 for _, p in s.transitions),
                              lambda: f'{what}: distribution of {s.state_id}: {[p for _, p in s.transitions]}')
                    ctx.eq(len({id(t) for t, _ in s.transitions}), len(s.transitions), f'{what}: different targets of {s.state_id}')
                ctx.outcome(repr(aa.describe(m)))
            else:
                _, n, ni, nc, nr, acc, ret = case
                m = G.generate_random_sevpa(n, ni, nc, nr, acc, ret)
                basic(ctx, m, 'Sevpa', n, what, connected=False)
                I, C, R = [f'i{x}' for x in range(ni)], [f'c{x}' for x in range(nc)], [f'r{x}' for x in range(nr)]
                ids = [s.state_id for s in m.states]
                for s in m.states:
                    if acc in (0.0, 1.0):
                        ctx.eq(s.is_accepting, acc == 1.0, f'{what}: acceptance of {s.state_id}')
                    for i in I:
                        ctx.check(len(s.transitions[i]) == 1 and s.transitions[i][0].action is None and s.transitions[i][0].letter == i,
                                  lambda: f'{what}: internal transitions of {s.state_id} under {i}: {len(s.transitions[i])}')
                    for r in R:
                        ctx.check(all(t.action == 'pop' and t.letter == r for t in s.transitions[r]), f'{what}: return transitions of {s.state_id}')
                        g = [t.stack_guard for t in s.transitions[r]]
                        ctx.check(len(g) == len(set(g)) and set(g) == {(x, c) for x in ids for c in C}, lambda: f'{what}: stack guards of {s.state_id} under {r}: {g}')
                    ctx.check(set(s.transitions) <= set(I) | set(R), lambda: f'{what}: letters {list(s.transitions)}')
                a = m.get_input_alphabet()
                ctx.check((sorted(a.internal_alphabet), sorted(a.call_alphabet), sorted(a.return_alphabet)) == (I, C, R), lambda: f'{what}: alphabet {a.internal_alphabet, a.call_alphabet, a.return_alphabet}')
                ctx.outcome(repr(aa.describe(m)))
        ctx.trace()
        ctx.trans(len(c.trace))
    n, complete = explore(body, ctx, max_runs=runs, tail=tail, floats=floats, max_points=20000 if size < 6 else 400000)
    if not complete:
        ctx.capped += 1
