"""RPNI (both implementations): consistency with the sample, unmergeable states, identification in the limit."""
from mc import passive as ps
from mc.build import ALPHABETS, read
from mc.ref import big as bigs, machines, equivalent, family, from_key
from mc.props import P

META = P['C26']
CHUNK = 8
OM = {'dfa': [True, False], 'moore': [0, 'y', '']}


def cases(tier):
    q = tier == 'quick'
    # every labelled sample over a small prefix tree
    for kind, k, n, outs, step in (('dfa', 2, 2, 2, 1), ('dfa', 1, 5, 2, 1), ('dfa', 3, 1, 2, 1), ('moore', 2, 2, 3, 5 if q else 1),
                                   ('moore', 1, 4, 3, 1), ('dfa', 2, 3, 2, 9973 if q else 997)):
        for i, s in ps.samples(k, n, range(outs)):
            if i % step == 0:
                yield ('s', kind, k, s, i)
    for k, d, o, step in ((2, 2, 2, 1), (1, 4, 2, 1), (3, 1, 2, 1), (2, 3, 2, 300 if q else 17), (2, 2, 3, 5 if q else 1)):
        for i, t in enumerate(ps.mealy_trees(k, d, o)):
            if i % step == 0:
                yield ('s', 'mealy', k, tuple(ps.tree_sample(t)), i)
    # complete samples of every machine
    for kind in ('dfa', 'moore', 'mealy'):
        i = 0
        for n, k in ((1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
            for m in machines(kind, n, k, minimal=True):
                i += 1
                big = n * k >= 6
                if big and i % ({'dfa': 2, 'moore': 2, 'mealy': 40}[kind] if q else {'dfa': 1, 'moore': 1, 'mealy': 5}[kind]):
                    continue
                yield ('m', m.key(), 2 * n, i)
        for name, f in family(kind, 2):
            m = f.minimal()
            if m.n <= (5 if q else 6):
                yield ('m', m.key(), 2 * m.n - 1, 0)
        # characteristic samples of larger machines, and the same with observations left out
        for name, f in list(bigs(kind)) + [x for x in family(kind, 2) if x[1].n > 4]:
            m = f.minimal()
            for thin in (0, 2, 3, 4, 5, 7, 11):
                yield ('c', m.key(), thin, 0)


def learn(data, kind, algo, comp=None):
    from aalpy.learning_algs import run_RPNI
    return run_RPNI(data, kind, algorithm=algo, input_completeness=comp, print_info=False)


def run(case, ctx):
    if case[0] == 'm':
        _, key, n, i = case
        ref = from_key(key)
        kind, k = ref.kind, ref.k
        sample = ps.full_sample(ref, n)
        algos = ('gsm', 'classic') if ref.n <= 2 or (ref.n == 3 and i % 16 == 0) else ('gsm',)
    elif case[0] == 'c':
        _, key, thin, i = case
        ref = from_key(key)
        kind, k = ref.kind, ref.k
        sample = ps.char_sample(ref)
        if thin:
            sample, ref = ps.thinned(sample, thin, kind), None
        algos = ('gsm', 'classic') if len(sample) < 250 else ('gsm',)
    else:
        _, kind, k, sample, i = case
        ref = None
        algos = ('gsm', 'classic')
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[i % 4]][:k]
    lab = (lambda l: bool(l)) if kind == 'dfa' else (lambda l: OM['moore'][l])
    base = [(tuple(al[x] for x in w), lab(l)) for w, l in sample]
    orders = [base, base[::-1]] if ref is None and case[0] == 's' else [base] if ref is None else [base[i % 3:] + base[:i % 3]]
    if case[0] == 's' and i % 3 == 0:
        orders.append(base + base[::2])           # repeated observations
    ctx.state()
    for oi, data in enumerate(orders):
        runs = []
        for algo in algos:
            m = learn(list(data), kind, algo)
            ctx.trace()
            what = f'{algo} RPNI ({kind}) on {data}'
            ctx.check(m is not None, lambda: f'{what}: consistent sample rejected')
            r = ps.Run(m, kind, data, lambda c, msg, what=what: ctx.check(c, lambda: f'{what}: {msg() if callable(msg) else msg}'))
            runs.append(r)
            ctx.check(len(r.seen) == len(r.st), lambda: f'{what}: state not reached by the sample')
            ctx.check(r.used == {(s, a) for s, d in enumerate(r.delta) for a in d}, lambda: f'{what}: transition not exercised by the sample')
            for x in range(len(r.st)):
                for y in range(x):
                    ctx.check(not r.mergeable(y, x), lambda: f'{what}: states {r.st[y].state_id} and {r.st[x].state_id} could be merged')
            ctx.outcome((len(r.st), tuple(tuple(sorted(d.values())) for d in r.delta)))
            ctx.trans(len(r.used))
            if ref is not None:
                inv = {v: j for j, v in enumerate(OM['moore'])}.get if kind != 'dfa' else None
                got = read(m, al, inv)
                ctx.check(got.n == ref.n and equivalent(ref, got), lambda: f'{what}: complete sample of {ref} gives {got}')
        if len(runs) == 2:
            ctx.check(runs[0].iso(runs[1]), lambda: f'the two implementations of RPNI disagree on {data} ({kind})')
        if case[0] == 's' and oi == 0:
            for comp in ('sink_state', 'self_loop'):
                if comp == 'sink_state' and kind == 'moore' and not data:
                    continue
                m = learn(list(data), kind, 'gsm', comp)
                ps.Run(m, kind, data, lambda c, msg: ctx.check(c, lambda: f'RPNI {comp} on {data}: {msg() if callable(msg) else msg}'))
                ctx.check(m.is_input_complete(), f'RPNI {comp} on {data}: not input complete')
    if case[0] == 's' and base:
        # contradictory sample: one observation repeated with another label
        j = i % len(base)
        if kind != 'mealy' or base[j][0]:
            other = (not base[j][1]) if kind == 'dfa' else OM['moore'][(OM['moore'].index(base[j][1]) + 1) % 3]
            for algo in algos:
                for bad in (base + [(base[j][0], other)], [(base[j][0], other)] + base):
                    ctx.check(learn(list(bad), kind, algo) is None, lambda: f'{algo} RPNI ({kind}): contradictory sample {bad} accepted')
                    ctx.trace()
    ctx.sample(case)
