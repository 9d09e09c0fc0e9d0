"""Exhaustive exploration of the deterministic active learners against an adversarial teacher."""
import io
from contextlib import redirect_stdout
from itertools import product
from .ref import machines, family, big, from_key, equivalent, words, Ref
from .build import read, ref_sul, ALPHABETS, kind_of
from .teach import teacher
from .choices import explore

CEX = [None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
OUTMAPS = {
    'id': (lambda o: o, lambda o: o),
    'str': (lambda o: f'out{o}', lambda o: int(o[3:])),
    'tuple': (lambda o: (o, 'x'), lambda o: o[0]),
    'falsy': (lambda o: [None, '', (), 'z', 4, 5][o], lambda o: {'None': 0, "''": 1, '()': 2, "'z'": 3, '4': 4, '5': 5}[repr(o)]),
    'bool': (lambda o: [True, False][o], lambda o: [True, False].index(o)),
}


def configs(alg, which):
    if alg == 'lstar':
        full = [dict(cex_processing=c, closing_strategy=cl, e_set_suffix_closed=e, all_prefixes_in_obs_table=p,
                     cache_and_non_det_check=ca)
                for c in CEX for cl in ('shortest_first', 'longest_first', 'single')
                for e in (False, True) for p in (True, False) for ca in (True, False)]
        core = [c for c in full if c['cache_and_non_det_check'] and c['closing_strategy'] == 'shortest_first']
        mini = [c for c in core if c['all_prefixes_in_obs_table'] and not c['e_set_suffix_closed']] + \
               [c for c in full if not c['cache_and_non_det_check'] and c['closing_strategy'] == 'single' and
                not c['all_prefixes_in_obs_table'] and c['e_set_suffix_closed']]
    elif alg == 'kv':
        full = [dict(cex_processing=c, cache_and_non_det_check=ca) for c in
                ('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd') for ca in (True, False)]
        core = mini = [c for c in full if c['cache_and_non_det_check']] + full[1:2]
    elif alg == 'lsharp':
        full = [dict(extension_rule=e, separation_rule=s, cache_and_non_det_check=ca)
                for e in (None, 'SepSeq', 'ADS') for s in ('SepSeq', 'ADS') for ca in (True, False)]
        core = mini = [c for c in full if c['cache_and_non_det_check']] + full[1:2]
    elif alg == 'adaptive':
        full = [dict(extension_rule=e, separation_rule=s, rebuilding=rb, state_matching=sm, cache_and_non_det_check=ca)
                for e in (None, 'SepSeq', 'ADS') for s in ('SepSeq', 'ADS')
                for rb, sm in ((True, 'Approximate'), (True, 'Total'), (True, None), (False, 'Approximate'), (False, 'Total'))
                for ca in (True, False)]
        core = [c for c in full if c['cache_and_non_det_check']] + full[1:2]
        mini = [c for c in core if c['extension_rule'] != 'ADS'][:]
    return dict(full=full, core=core, mini=mini)[which]


def runner(alg):
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp
    if alg == 'lstar':
        return run_Lstar
    if alg == 'kv':
        return run_KV
    if alg == 'lsharp':
        return run_Lsharp
    from aalpy.learning_algs import run_adaptive_Lsharp
    return run_adaptive_Lsharp


def state_out(s):
    return s.is_accepting if hasattr(s, 'is_accepting') else getattr(s, 'output', None)


def check_hypothesis(ctx, hyp, h, kind, what, intermediate=False, shown=False):
    """Every hypothesis a learner shows: right type, complete, prefixes access their states; W of the result separates.
    Hypotheses of KV and characterization sets of L* (whose suffixes need not be closed) only promise this for the result."""
    ctx.check(kind_of(hyp) == kind, f'{what}: hypothesis has type {type(hyp).__name__}')
    if intermediate:
        return
    ctx.eq(hyp.size, h.n, f'{what}: hypothesis lists states that are not reachable')
    ctx.check(any(s is hyp.initial_state for s in hyp.states), f'{what}: initial state not among states')
    ctx.eq(len({repr(s.state_id) for s in hyp.states}), hyp.size, f'{what}: duplicate state ids')
    for s in hyp.states:
        ctx.check(s.prefix is not None, f'{what}: state without access sequence')
        x = hyp.initial_state
        for a in s.prefix:
            x = x.transitions[a]
        ctx.check(x is s, f'{what}: prefix {s.prefix!r} does not lead to its state')
    cs = hyp.characterization_set
    if cs and not shown:
        rows = {tuple(tuple(hyp.compute_output_seq(s, e)) if len(e) else (state_out(s),) for e in cs) for s in hyp.states}
        ctx.eq(len(rows), hyp.size, f'{what}: characterization set {cs!r} does not separate the states')


def learn(ctx, alg, ref, mini, cfg, policy, alpha, om='id', pick=None, samples=None, as_list=False, execute=False,
          max_rounds=None, references=None, exact=True, print_level=0):
    f, inv = OUTMAPS[om]
    sul = ref_sul(ref, alpha, f, budget=20000)
    what = f'{alg} {cfg} teacher={policy} alphabet={alpha} out={om} samples={samples} rounds={max_rounds}'
    ctx.note = what
    t = teacher(list(alpha), sul, ref, policy, pick=pick, ctx=ctx, as_list=as_list, execute=execute, inv=inv,
                on_hyp=lambda hy, h: check_hypothesis(ctx, hy, h, ref.kind, what,
                                                      intermediate=alg == 'kv', shown=True))
    kw = dict(cfg)
    if samples is not None:
        kw['samples'] = samples
    if references is not None:
        kw['references'] = references
    if max_rounds:
        kw['max_learning_rounds'] = max_rounds
    if print_level:              # progress is printed (and only the model returned)
        with redirect_stdout(io.StringIO()) as text:
            hyp = runner(alg)(alphabet=list(alpha), sul=sul, eq_oracle=t, automaton_type=ref.kind, print_level=print_level, **kw)
        ctx.check(not isinstance(hyp, tuple), f'{what}: statistics returned without being asked for')
        ctx.check(text.getvalue(), f'{what}: print level {print_level} prints nothing')
        info = {'automaton_size': hyp.size}
    else:
        hyp, info = runner(alg)(alphabet=list(alpha), sul=sul, eq_oracle=t, automaton_type=ref.kind, print_level=0,
                                return_data=True, **kw)
    h = read(hyp, alpha, inv)
    ctx.trace()
    ctx.count('learning_runs')
    # KV stopped by a round limit may return a model nobody was shown: a state of it can still be unreachable
    check_hypothesis(ctx, hyp, h, ref.kind, what, intermediate=bool(max_rounds) and alg == 'kv', shown=bool(max_rounds))
    sizes = [n for n, _ in t.hyps]
    ctx.check(all(a < b for a, b in zip(sizes, sizes[1:])), f'hypothesis sizes do not grow: {sizes}')
    ctx.check(len(t.hyps) <= mini.n, f'{len(t.hyps)} equivalence queries for a system with {mini.n} states')
    ctx.check(not sul.protocol, lambda: f'reset protocol: {sul.protocol[:1]}')
    if not max_rounds:
        ctx.check(equivalent(h, ref), lambda: f'learned model differs from the system: {h} vs {ref}')
        ctx.eq(hyp.size, mini.n, 'learned model is not minimal: states')
    else:
        lim = max_rounds + (1 if alg == 'kv' else 0)
        ctx.check(len(t.hyps) <= lim, f'{len(t.hyps)} rounds although the limit is {max_rounds}')
        if len(t.hyps) < lim and alg != 'kv':   # KV counts constructed, not only shown, hypotheses
            ctx.check(equivalent(h, ref), lambda: f'stopped before the limit with a wrong model: {h} vs {ref}')
            ctx.eq(hyp.size, mini.n, 'learned model is not minimal: states')
    ctx.eq(info['automaton_size'], hyp.size, 'reported automaton size')
    ctx.outcome((h.key(), tuple(sizes)))
    return hyp, info, sul, t


def spaces(alg, tier):
    """(machine key, plan) pairs.  A plan names configurations, teacher policies and alphabets."""
    q = tier == 'quick'
    out = []
    heavy = {'lstar': 3, 'kv': 1, 'lsharp': 2, 'adaptive': 8}[alg]
    for kind in ('dfa', 'moore', 'mealy'):
        for k, nmax in ((1, 4), (2, 2), (3, 1)):
            for n in range(1, nmax + 1):
                for m in machines(kind, n, k, outs=3 if kind == 'moore' and k == 2 else 2):
                    yield (m.key(), 'small')
        for name, m in family(kind, 2):
            yield (m.key(), 'family')
        for name, m in family(kind, 3):
            yield (m.key(), 'family')
        for name, m in big(kind):
            yield (m.key(), 'big')
    for kind, n, k, keep in (('dfa', 3, 2, None), ('moore', 3, 2, None), ('mealy', 3, 2, None), ('dfa', 2, 3, None),
                             ('moore', 2, 3, None), ('mealy', 2, 3, None)):
        for m in machines(kind, n, k, minimal=True):
            yield (m.key(), 'medium')
    if not q:
        for kind in ('dfa', 'moore'):
            for m in machines(kind, 4, 2, minimal=True):
                yield (m.key(), 'large')
        for m in machines('moore', 3, 2, outs=3, minimal=True):
            yield (m.key(), 'large')
        for m in machines('mealy', 3, 2, outs=3, minimal=True):
            yield (m.key(), 'large')


def run_case(ctx, alg, case, tier, refs=None):
    key, plan = case
    ref = from_key(key)
    mini = ref.minimal()
    A = ALPHABETS['str'][:ref.k]

    def go(cfg, policy, alpha=A, **kw):
        return learn(ctx, alg, ref, mini, cfg, policy, alpha, **kw)

    if plan == 'small':
        for cfg in configs(alg, 'full'):
            for pol in ('first', 'last', 'long2', 'late2'):
                go(cfg, pol)
        for ci, cfg in enumerate(configs(alg, 'mini')):
            for an in ('zero', 'mixed', 'tuple'):
                for om in (('str', 'falsy') if ref.kind != 'dfa' else ('id',)):
                    go(cfg, 'long1', ALPHABETS[an][:ref.k], om=om, as_list=bool(ci % 2), execute=not ci % 2)
            for r in (1, 2, 3):
                go(cfg, 'first', max_rounds=r)
            go(cfg, 'long1', ALPHABETS[('mixed', 'tuple', 'str')[ci % 3]][:ref.k], om='falsy' if ref.kind != 'dfa' else 'id', print_level=1 + ci % (2 if alg == 'kv' else 3), max_rounds=(None, 2)[ci % 2])
            if alg != 'kv':
                # samples: correct traces seed the cache
                ws = [tuple(A[i] for i in w) for w in words(ref.k, 1, 2)]
                tr = [(w, tuple(ref.outputs([A.index(a) for a in w]))) for w in ws]
                for s in ([], tr[:1], tr[-1:], tr, tr[::-1]):
                    go(cfg, 'first', samples=s)
        for cfg in configs(alg, 'core'):
            runs, complete = explore(lambda c: go(cfg, 'any', pick=c.pick), ctx, max_runs=400)
            ctx.capped += not complete
            ctx.count('teacher_schedules', runs)
    elif plan == 'family':
        for cfg in configs(alg, 'full' if alg != 'adaptive' else 'core'):
            for pol in (('first', 'last', 'long4') if ref.k == 2 and ref.n < 7 else ('first', 'long1')):
                go(cfg, pol)
        for cfg in configs(alg, 'mini'):
            go(cfg, 'long1', ALPHABETS['word'][:ref.k], om='str' if ref.kind != 'dfa' else 'id', as_list=True, execute=True)
            go(cfg, 'late', ALPHABETS['tuple'][:ref.k], om='falsy' if ref.kind != 'dfa' else 'id')
    elif plan == 'big':
        for ci, cfg in enumerate(configs(alg, 'mini')):
            for pol in ('first', 'pad7'):
                go(cfg, pol)
            go(cfg, 'first', print_level=1 + ci % (2 if alg == 'kv' else 3))
            if ci < 3:
                go(cfg, 'pad2', ALPHABETS[('word', 'tuple', 'mixed')[ci]][:ref.k], om='falsy' if ref.kind != 'dfa' else 'id', max_rounds=(None, 2, 4)[ci])
    elif plan == 'medium':
        for cfg in configs(alg, 'mini' if tier == 'quick' else 'core'):
            for pol in (('long1', 'late2', 'first') if tier == 'quick' else ('first', 'long2', 'late')):
                go(cfg, pol)
    else:
        for cfg in configs(alg, 'mini'):
            go(cfg, 'long1')
    ctx.sample((alg, case))
