"""Active use of the passive learners: every model is learned from exactly the data collected so far, every sample is a run of the system."""
from itertools import product
from mc import anyaut as aa, passive as ps
from mc.build import ALPHABETS, build
from mc.choices import explore
from mc.ref import machines, words, from_key
from mc.props import P

META = P['C30']
CHUNK = 2
OM = {'dfa': None, 'moore': lambda o: [0, 'y', ''][o], 'mealy': lambda o: ['x', 0, ''][o]}


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'moore', 'mealy'):
        j = 0
        for n, k in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2)):
            for m in machines(kind, n, k, minimal=True):
                j += 1
                if n * k >= 4 and j % ({'dfa': 3, 'moore': 3, 'mealy': 11}[kind] if q else 1):
                    continue
                for walks, lo, hi, it in ((1, 1, 3, 2), (2, 2, 2, 2), (1, 0, 1, 4), (3, 1, 1, 1), (2, 0, 0, 2)) if not q else \
                        (((1, 1, 2, 2), (2, 1, 1, 2), (1, 0, 1, 3), (1, 3, 3, 1))[j % 4], ((2, 0, 0, 2), (0, 1, 1, 2))[j % 2]):
                    if kind == 'mealy' and lo == 0 and walks:
                        lo, hi = 1, max(hi, 1)
                    yield ('lib', m.key(), walks, lo, hi, it, j)
                yield ('own', m.key(), 2 if q else 3, j)
    for kind in ('mdp', 'smm'):
        j = 0
        for n, k, step in ((1, 1, 1), (2, 1, 3 if q else 1), (2, 2, 3001 if q else 307)):
            for t in aa.tables(kind, n, k, step, partial=False):
                if kind == 'mdp' and any(len({t.so[x] for x, _, _ in c}) < len(c) for row in t.cells for c in row):
                    continue          # not deterministically labelled
                j += 1
                for walks, lo, hi, it in ((1, 1, 2, 2), (2, 2, 2, 1), (1, 0, 1, 3), (2, 1, 1, 2)) if not q else \
                        (((1, 1, 2, 2), (2, 2, 2, 1), (1, 0, 1, 3), (2, 1, 1, 2))[j % 4],):
                    if kind == 'smm' and lo == 0:
                        lo = 1
                    yield ('alergia', t.key(), walks, lo, hi, it, j)


class Rec:
    """Stands between the learner and the sampler; keeps the protocol."""

    def __init__(self, inner, sul, data, ctx):
        self.inner, self.sul, self.data, self.ctx = inner, sul, data, ctx
        self.models, self.snaps, self.new = [], [], []

    def sample(self, sul, model):
        self.ctx.check(sul is self.sul, 'the sampler gets another system')
        self.models.append(model)
        self.snaps.append(list(self.data))
        r = self.inner(sul, model)
        self.new.append(list(r))
        return r


def same_data(a, b):
    f = lambda d: sorted(repr((tuple(w) if isinstance(w, (list, tuple)) else w, l)) for w, l in d)
    return f(a) == f(b)


def run_det(case, ctx):
    from aalpy.SULs import AutomatonSUL
    from aalpy.learning_algs import run_active_RPNI, run_RPNI
    from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler
    ref = from_key(case[1])
    kind, j = ref.kind, case[-1]
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:ref.k]
    om = OM[kind]
    lab = (lambda w: bool(ref.out[ref.state(w)])) if kind == 'dfa' else (lambda w: om(ref.out[ref.state(w)])) if kind == 'moore' \
        else (lambda w: om(ref.outputs(w)[-1]))
    ix = {a: i for i, a in enumerate(al)}
    truth = lambda w: lab(tuple(ix[a] for a in w))
    init = [[(tuple(al[x] for x in w), lab(w)) for w in words(ref.k, 1, 1)]]
    if kind != 'mealy':
        init.append([((), lab(()))] + init[0])
    init.append([(tuple(al[x] for x in w), lab(w)) for w in words(ref.k, 1, 2)])
    first = init[j % len(init)]
    it = case[5] if case[0] == 'lib' else case[2]
    walks, lo, hi = case[2:5] if case[0] == 'lib' else (0, 0, 0)

    def body(c):
        sul = AutomatonSUL(build(ref, al, om) if om else build(ref, al))
        data = list(first)
        if case[0] == 'lib':
            lib = RandomWordSampler(walks, lo, hi)
            inner = lib.sample
            q = []
            orig = sul.query
            sul.query = lambda w: (q.append(tuple(w)), orig(w))[1]
        else:
            pool = [tuple(al[x] for x in w) for w in words(ref.k, 1 if kind == 'mealy' else 0, 2)]

            def inner(s, m):
                w = pool[c.pick(len(pool), 'word')]
                r = [(w[:x], truth(w[:x])) for x in range(1, len(w) + 1)] if kind == 'mealy' else [(w, truth(w))]
                return r if c.pick(2, 'empty') == 0 else []
        rec = Rec(inner, sul, data, ctx)
        m = run_active_RPNI(data, sul, rec, it, kind, print_info=False)
        what = f'active RPNI ({kind}) on {ref}, samples {rec.new}'
        ctx.trace()
        ctx.eq(len(rec.models), it, f'{what}: sampling rounds')
        ctx.check(m is rec.models[-1], lambda: f'{what}: not the last learned model')
        exp = list(first)
        for r in range(it):
            ctx.check(same_data(rec.snaps[r], exp), lambda: f'{what}: round {r} is learned from {rec.snaps[r]}, collected {exp}')
            x = ps.Run(rec.models[r], kind, exp, lambda ok, msg, r=r: ctx.check(ok, lambda: f'{what}: round {r}: {msg() if callable(msg) else msg}'))
            y = ps.Run(run_RPNI(list(exp), kind, print_info=False), kind, exp, lambda ok, msg: None)
            ctx.check(x.iso(y), lambda: f'{what}: model of round {r} is not the one RPNI learns from the data')
            ctx.outcome((len(x.st), len(exp)))
            exp = exp + rec.new[r]
        ctx.check(same_data(data, exp), lambda: f'{what}: data at the end {data}, collected {exp}')
        if case[0] == 'lib':
            ctx.eq(len(q), walks * it, f'{what}: number of walks')
            ctx.check(all(lo <= len(w) <= hi for w in q), lambda: f'{what}: walks {q}')
            ctx.check(all(a in al for w in q for a in w), lambda: f'{what}: letters of {q}')
            for r in range(it):
                pre = {w[:x] for w in q[r * walks:(r + 1) * walks] for x in range(1, len(w) + 1)}
                got = [tuple(w) for w, _ in rec.new[r]]
                ctx.check(set(got) == pre, lambda: f'{what}: walks {q} give samples of {got}')
                for w, l in rec.new[r]:
                    ctx.check(type(l) is type(truth(w)) and l == truth(w), lambda: f'{what}: sample ({w}, {l!r}), the system says {truth(w)!r}')
        ctx.trans(len(c.trace))
    n, complete = explore(body, ctx, max_runs=400 if ctx.tier == 'quick' else 6000)
    if not complete:
        ctx.capped += 1


def run_st(case, ctx):
    from aalpy.SULs import AutomatonSUL
    from aalpy.learning_algs import run_active_Alergia, run_Alergia
    from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler
    from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
    t = aa.of_key(case[1])
    kind, walks, lo, hi, it, j = t.kind, *case[2:]
    al = ALPHABETS[('str', 'int', 'tuple', 'word')[j % 4]][:t.k]       # Alergia orders access words: comparable symbols
    om = lambda o: ([['x', 'y', ''], [1, 0, 2]][j % 2])[o]
    ix = {a: i for i, a in enumerate(al)}
    first = []
    for w in words(t.k, 1, 1):       # every branch of every first input
        for x, o, _ in t.cells[0][w[0]]:
            first.append(([om(t.so[0])] if kind == 'mdp' else []) + [(al[w[0]], om(t.so[x]) if kind == 'mdp' else om(o))])
    conf = [dict(eps=0.05), dict(eps=2), dict(compatibility_checker=HoeffdingCompatibility(0.9)), dict(eps=0.005)][j % 4]
    if kind == 'smm' or j % 2:
        conf['automaton_type'] = kind        # 'mdp' is the documented default

    def body(c):
        sul = AutomatonSUL(aa.build(t, al, om=om))
        data = [list(s) for s in first]
        q, outs = [], []
        orig = sul.query

        def query(w):
            r = orig(w)
            q.append(tuple(w))
            outs.append(list(r))
            return r
        sul.query = query
        rec = Rec(RandomWordSampler(walks, lo, hi).sample, sul, data, ctx)
        m = run_active_Alergia(data, sul, rec, it, print_info=False, **conf)
        what = f'active Alergia ({kind}) on {t}, walks {q}, outputs {outs}'
        ctx.trace()
        ctx.eq(len(rec.models), it, f'{what}: sampling rounds')
        ctx.check(m is rec.models[-1], lambda: f'{what}: not the last learned model')
        exp = list(first)
        for r in range(it):
            ctx.check(sorted(map(repr, rec.snaps[r])) == sorted(map(repr, exp)), lambda: f'{what}: round {r} is learned from {rec.snaps[r]}, collected {exp}')
            ctx.eq(aa.kind_of(rec.models[r]), kind, f'{what}: type of the model')
            cf = {k: v for k, v in conf.items() if k != 'automaton_type'}
            y = run_Alergia([list(s) for s in exp], kind, **cf)
            ctx.eq(aa.describe(rec.models[r]), aa.describe(y), f'{what}: model of round {r} and the one Alergia learns from the data')
            ctx.outcome((len(y.states), len(exp)))
            exp = exp + rec.new[r]
        ctx.check(sorted(map(repr, data)) == sorted(map(repr, exp)), lambda: f'{what}: data at the end {data}, collected {exp}')
        # the queries that are walks, in order (a sampler may also read the initial output)
        walked = [(w, o) for w, o in zip(q, outs)]
        if len(walked) > walks * it:
            walked = [(w, o) for w, o in walked if w]
        ctx.eq(len(walked), walks * it, f'{what}: number of walks')
        flat = [s for r in rec.new for s in r]
        ctx.eq(len(flat), walks * it, f'{what}: number of samples')
        for (w, o), s in zip(walked, flat):
            ctx.check(lo <= len(w) <= hi and all(a in al for a in w), lambda: f'{what}: walk {w}')
            want = ([om(t.so[0])] if kind == 'mdp' else []) + (list(zip(w, o)) if w else [])
            ctx.eq(list(s), want, f'{what}: sample of the walk {w} with outputs {o}')
        ctx.trans(len(c.trace))
    n, complete = explore(body, ctx, max_runs=400 if ctx.tier == 'quick' else 6000)
    if not complete:
        ctx.capped += 1


def run(case, ctx):
    ctx.state()
    (run_st if case[0] == 'alergia' else run_det)(case, ctx)
    if case[-1] % 29 == 0:
        ctx.sample(case)
