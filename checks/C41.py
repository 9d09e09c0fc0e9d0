"""Learning runs leave their arguments as they were, can be repeated, and do not influence each other."""
from itertools import product
import io
from contextlib import redirect_stdout
from mc import anyaut as aa, push
from mc.build import build, ALPHABETS
from mc.choices import Controller, Horizon, controlled
from mc.ref import machines, family, from_key, words
from mc.props import P

META = P['C41']
CHUNK = 4


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        pool = [m for n in (2, 3) for m in machines(kind, n, 2, minimal=True)]
        pool = pool[::max(1, len(pool) // (180 if q else 1500))] + [m for _, m in family(kind, 2)]
        for a, b in zip(pool, pool[1:] + pool[:1]):
            j += 1
            for alg in ('lstar', 'kv', 'lsharp', 'adaptive', 'rpni', 'gsm'):
                yield (alg, a.key(), b.key(), j)
    for kind, n, k, step in (('onfsm', 2, 2, 61), ('onfsm', 3, 1, 37), ('smm', 2, 2, 401), ('smm', 2, 1, 3), ('mdp', 2, 2, 17), ('mdp', 3, 1, 5)):
        pool = [t for t in aa.tables(kind, n, k, max(1, step // (3 if q else 10)), partial=False) if all(all(c) for c in t.cells)]
        pool = pool[::max(1, len(pool) // (60 if q else 400))]
        for a, b in zip(pool, pool[1:] + pool[:1]):
            j += 1
            for alg in (('nondet', 'abstracted', 'ktails') if kind == 'onfsm' else ('stochastic', 'nondet', 'alergia')):
                yield (alg, a.key(), b.key(), j)
    from checks.C05 import pick
    for n, ni, nc, nr, step in ((2, 0, 1, 1, 7 if q else 1), (2, 1, 1, 1, 1201 if q else 101)):
        pool = list(pick(n, ni, nc, nr, True, False, step, 1))
        pool = pool[::max(1, len(pool) // (60 if q else 600))]
        for a, b in zip(pool, pool[1:] + pool[:1]):
            j += 1
            for alg in ('vpa', 'papni'):
                yield (alg, a.key(), b.key(), j)


# ---------------------------------------------------------------- describing results
def canon(m):
    """The model up to the names of its states (reachable part, breadth first), plus the number of its states."""
    if m is None:
        return None
    kind = aa.kind_of(m)
    idx, todo = {id(m.initial_state): 0}, [m.initial_state]
    rows = []
    for s in todo:
        ins = [None] if kind == 'mc' else sorted((i for i in s.transitions if s.transitions[i]), key=repr)
        row = []
        for i in ins:
            br = s.transitions if kind == 'mc' else None
            br = [(t, (p,)) for t, p in br] if kind == 'mc' else aa.branches(kind, s, i)
            br = sorted(br, key=lambda b: (repr(b[1]), repr(aa.label(kind, b[0])), idx.get(id(b[0]), 10 ** 9)))
            for t, _ in br:
                if id(t) not in idx:
                    idx[id(t)] = len(todo)
                    todo.append(t)
            row.append((i, [(idx[id(t)], r) for t, r in br]))
        rows.append((aa.label(kind, s), row))
    return repr((kind, len([s for s in m.states if s.state_id != 'ErrorSinkState']), rows))


def wreck(m):
    """Destroys a model: what anybody does to a returned model must not matter to other runs."""
    for s in m.states:
        for v in list(s.transitions.values() if isinstance(s.transitions, dict) else ()):
            if isinstance(v, list):
                v.clear()
        s.transitions.clear()
        if hasattr(s, 'output_fun'):
            s.output_fun.clear()
    m.states.clear()


def frozen(x):
    """Structure, order and types of an argument."""
    if hasattr(x, 'initial_state'):
        return aa.describe(x), [s.state_id for s in x.states]
    if isinstance(x, dict):
        return type(x).__name__, [(frozen(a), frozen(b)) for a, b in x.items()]
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [frozen(y) for y in x]
    if hasattr(x, 'internal_alphabet'):
        return frozen(x.internal_alphabet), frozen(x.call_alphabet), frozen(x.return_alphabet), frozen(getattr(x, 'exclusive_call_return_pairs', None))
    return type(x).__name__, repr(x)


def copied(x):
    if isinstance(x, (list, tuple)):
        return type(x)(copied(y) for y in x)
    return x


LEVEL = [0]


def level():
    """How much the run prints; runs of a history differ in nothing else."""
    return LEVEL[0]


def history(ctx, what, args, learn):
    """args: objects shared by all runs; learn(system) -> model, for the systems 'A' and 'B'."""
    before = repr(frozen(args))

    def run(which, lv=0):
        LEVEL[0] = lv
        with redirect_stdout(io.StringIO()) as text, controlled(Controller((), tail=0, floats=(0.1, 0.4, 0.6, 0.9), max_points=2 * 10 ** 5 if what.startswith('abstr') else 10 ** 7)):
            m = learn(which)
        LEVEL[0] = 0
        # warnings are always shown; general state merging has no such option
        shown = [x for x in text.getvalue().splitlines() if not x.startswith('Warning')]
        ctx.check(bool(shown) == (lv > 0) or what.startswith('GSM') and not shown, lambda: f'{what}: print level {lv} prints {shown}')
        ctx.trace()
        ctx.trans()
        ctx.check(repr(frozen(args)) == before, lambda: f'{what}: a run changed its arguments from {before} to {frozen(args)!r}')
        return m
    got, first = [], {}
    top = 2 if what.startswith(('kv', 'KV')) else 3                  # KV draws its tree with an external tool on level 3
    for which, lv in (('A', 0), ('B', 0), ('A', 1 + len(before) % top)):
        m = run(which, lv)
        d = canon(m)
        ctx.check(first.setdefault(which, d) == d, lambda: f'{what}: a repeated run gives {d}, the first one {first[which]}')
        for w, x in got:
            ctx.check(canon(x) == first[w], lambda: f'{what}: a later run changed the model returned earlier to {canon(x)}, was {first[w]}')
            if m is not None and x is not None:
                ctx.check(not aa.containers(m) & aa.containers(x), lambda: f'{what}: two returned models share states or transitions')
        got.append((which, m))
    if got[2][1] is not None:
        wreck(got[2][1])
    for w, x in got[:2]:
        ctx.check(canon(x) == first[w], lambda: f'{what}: destroying one model changed another to {canon(x)}, was {first[w]}')
    ctx.check(repr(frozen(args)) == before, lambda: f'{what}: destroying a returned model changed the arguments to {frozen(args)!r}')
    d = canon(run('A'))
    ctx.eq(d, first['A'], f'{what}: run after a returned model was destroyed')
    ctx.outcome((what.split(' on ')[0], d))


def run(case, ctx):
    from aalpy.SULs import AutomatonSUL
    from aalpy import oracles as O, learning_algs as L
    alg, j = case[0], case[3]
    ctx.state()
    if alg in ('lstar', 'kv', 'lsharp', 'adaptive'):
        from mc.active import configs
        a, b = from_key(case[1]), from_key(case[2])
        al = list(ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:2])
        models = {'A': build(a, al), 'B': build(b, al)}
        cfgs = configs(alg, 'full')
        for x in range(2):
            cfg = cfgs[(j * 7 + x * 31) % len(cfgs)]
            kw = dict(cfg)
            args = [al, models['A'], models['B']]
            if alg == 'adaptive':
                refs = [build(b, al), build(a, al)][(j + x) % 2:]
                refs.insert(j % 2, build(a, ['other', 'letters']))
                args.append(refs)
                kw['references'] = refs
            if alg != 'kv' and (j + x) % 3 == 0:
                from aalpy.SULs import AutomatonSUL as AS
                smp = {w: [(u, tuple(AS(models[w]).query(u))) for u in ((al[0],), (al[1], al[0]), (al[0], al[0], al[1]))] for w in 'AB'}
                args.append(smp)
            suls = {w: AutomatonSUL(models[w]) for w in 'AB'}      # some callers use one system object for all runs

            def learn(w):
                sul = suls[w] if x else AutomatonSUL(models[w])
                if alg in ('lsharp', 'adaptive'):
                    eq = O.PerfectKnowledgeEqOracle(al, sul, models[w])
                else:
                    eq = [lambda: O.PerfectKnowledgeEqOracle(al, sul, models[w]), lambda: O.BreadthFirstExplorationEqOracle(al, sul, 4),
                          lambda: O.StatePrefixEqOracle(al, sul, 3, 4), lambda: O.RandomWordEqOracle(al, sul, num_walks=10, min_walk_len=1, max_walk_len=4)][j % 4]()
                if alg != 'kv' and (j + x) % 3 == 0:
                    kw['samples'] = smp[w]
                return getattr(L, {'lstar': 'run_Lstar', 'kv': 'run_KV', 'lsharp': 'run_Lsharp', 'adaptive': 'run_adaptive_Lsharp'}[alg])(
                    alphabet=al, sul=sul, eq_oracle=eq, automaton_type=a.kind, print_level=level(), **kw)
            history(ctx, f'{alg} {cfg} on {a} and {b}', args, learn)
    elif alg in ('rpni', 'gsm'):
        a, b = from_key(case[1]), from_key(case[2])
        al = list(ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:2])
        lab = lambda r, w: r.out[r.state(w)] if r.kind != 'mealy' else r.outputs(w)[-1]
        ws = list(words(2, 1 if a.kind == 'mealy' else 0, 3))[::-1 if j % 2 else 1]
        seq = (lambda w: [al[i] for i in w]) if j % 3 else (lambda w: tuple(al[i] for i in w))
        data = {w: [(seq(u), lab(r, u)) for u in ws] for w, r in (('A', a), ('B', b))}
        for x, (comp, shape) in enumerate(product((None, 'sink_state', 'self_loop'), (list, tuple))):
            if (x + j) % 2:
                continue
            dt = {w: shape(shape(e) if shape is list else e for e in d) for w, d in data.items()}
            if alg == 'rpni':
                for algo in ('gsm', 'classic'):
                    history(ctx, f'RPNI {algo} {comp} {shape.__name__} on {a} and {b}', [dt],
                            lambda w: L.run_RPNI(dt[w], a.kind, algorithm=algo, input_completeness=comp, print_info=level() > 0))
            else:
                from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, ScoreWithSinks, ScoreWithKTail, EDSM_score
                history(ctx, f'EDSM {comp} {shape.__name__} on {a} and {b}', [dt], lambda w: L.run_EDSM(dt[w], a.kind, input_completeness=comp, print_info=level() > 0))
                score = ScoreWithKTail(ScoreWithSinks(ScoreCalculation(score_function=EDSM_score()), lambda n: not n.transitions), 2)
                history(ctx, f'GSM with shared score {shape.__name__} on {a} and {b}', [dt],
                        lambda w: L.run_GSM(dt[w], output_behavior='mealy' if a.kind == 'mealy' else 'moore', transition_behavior='deterministic',
                                            score_calc=score, data_format='labeled_sequences'))
    elif alg in ('vpa', 'papni'):
        from aalpy.automata import SevpaAlphabet, VpaAlphabet
        from checks.C05 import AL, teacher
        va, vb = push.VRef.of(case[1]), push.VRef.of(case[2])
        al = AL[j % 3]
        parts = [[al[(t, x)] for x in range(n)] for t, n in zip('icr', (va.ni, va.nc, va.nr))]
        refs = {'A': va, 'B': vb}
        if alg == 'vpa':
            letters = SevpaAlphabet(*parts)
            proc = ('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd')[j % 5]
            for cache in (False, True):
                def learn(w):
                    sul = push.vsul(refs[w], al)
                    return L.run_KV(letters, sul, teacher(al, sul, refs[w], letters, 'first', ctx), 'vpa', cex_processing=proc,
                                    cache_and_non_det_check=cache, print_level=level())
                history(ctx, f'KV {proc} {cache} on {va} and {vb}', [letters, parts], learn)
        else:
            letters = VpaAlphabet(*parts)
            pool = [w for n in range(7 if va.ni == 0 else 5) for w in push.balanced(va.ni, va.nc, va.nr, n)][::-1 if j % 2 else 1]
            seq = list if j % 3 else tuple
            data = {w: [(seq(al[x] for x in u), refs[w].accepts(u)) for u in pool] for w in 'AB'}
            for algo in ('gsm', 'classic', 'edsm'):
                history(ctx, f'PAPNI {algo} on {va} and {vb}', [data, letters, parts], lambda w: L.run_PAPNI(data[w], letters, algorithm=algo, print_info=level() > 0))
    else:
        a, b = aa.of_key(case[1]), aa.of_key(case[2])
        al = list(ALPHABETS[('str', 'zero', 'tuple', 'str' if alg == 'alergia' else 'mixed')[j % 4]][:a.k])
        outs = ['x', '' if alg == 'alergia' else 0, 'z']
        models = {w: aa.build(r, al, om=lambda o: outs[o]) for w, r in (('A', a), ('B', b))}
        args = [al, models['A'], models['B']]
        if alg in ('nondet', 'abstracted'):
            if a.kind == 'mdp':
                return
            mapping = {'x': 'X', 0: 'X'} if j % 2 else {'z': 'x'}
            args.append(mapping)
            if alg == 'abstracted':
                from checks.C32 import abstract_classes
                ab = {'x': 0, 0: 0, 'z': 1} if j % 2 else {'x': 0, 0: 1, 'z': 0}
                if any(abstract_classes(r, lambda o: ab[outs[o]]) is None for r in (a, b)):
                    return
            for st in ((False, True) if alg == 'nondet' else (None,)):
                def learn(w):
                    sul = AutomatonSUL(models[w])
                    eq = O.RandomWordEqOracle(al, sul, num_walks=10, min_walk_len=1, max_walk_len=4)
                    if alg == 'nondet':
                        return L.run_non_det_Lstar(al, sul, eq, n_sampling=6, stochastic=st, max_learning_rounds=4, print_level=level())
                    return L.run_abstracted_ONFSM_Lstar(al, sul, eq, mapping, n_sampling=6, max_learning_rounds=4, print_level=level())
                try:
                    history(ctx, f'{alg} {st} on {a} and {b}', args, learn)
                except Horizon:      # sampling may miss answers, then this algorithm need not converge
                    ctx.capped += 1
        elif alg == 'stochastic':
            strategy = ('normal', 'chi2', 'classic')[j % 3]

            def learn(w):
                sul = AutomatonSUL(models[w])
                eq = O.RandomWordEqOracle(al, sul, num_walks=10, min_walk_len=1, max_walk_len=4)
                return L.run_stochastic_Lstar(al, sul, eq, automaton_type=a.kind, strategy=strategy, cex_processing=(None, 'longest_prefix')[j % 2],
                                              samples_cex_strategy=(None, 'bfs', 'random:5:0.3')[j // 2 % 3], min_rounds=2, max_rounds=4, print_level=level())
            history(ctx, f'stochastic L* {strategy} on {a} and {b}', args, learn)
        else:
            data = {}
            with controlled(Controller((), tail=0, floats=(0.1, 0.4, 0.6, 0.9), max_points=10 ** 7)):
                for w in 'AB':
                    sul = AutomatonSUL(models[w])
                    data[w] = []
                    for u in list(product(al, repeat=3)) * (2 if len(al) > 1 else 8):
                        o = sul.query(u)
                        first = [outs[(a if w == 'A' else b).so[0]]] if a.kind == 'mdp' else []
                        data[w].append(first + [(x, y) for x, y in zip(u, o)])
            args = [data]
            if alg == 'ktails':
                for typ, k in (('mealy', 1), ('mealy', 2), ('moore', 1)):
                    dt = {w: [['i'] + t for t in d] for w, d in data.items()} if typ == 'moore' else data
                    history(ctx, f'k-tails {typ} {k} on {a} and {b}', [dt], lambda w: L.run_k_tails(dt[w], typ, k, print_info=level() > 0))
            else:
                from aalpy.learning_algs.general_passive.GsmAlgorithms import run_Alergia_EDSM
                for eps in (0.05, 0.5, 'auto'):
                    history(ctx, f'Alergia {eps} on {a} and {b}', args, lambda w: L.run_Alergia(data[w], a.kind, eps=eps, print_info=level() > 0))
                history(ctx, f'Alergia EDSM on {a} and {b}', args, lambda w: run_Alergia_EDSM(data[w], a.kind, eps=0.5, print_info=level() > 0))
    if j % 29 == 0:
        ctx.sample(case)
