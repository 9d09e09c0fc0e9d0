"""W- and Wp-method: no counterexample means equivalence with every system of at most m states."""
from mc.ref import machines, family, big as larger, from_key, equivalent, Ref
from mc.build import ALPHABETS, build, read, ref_sul
from mc.choices import explore, Controller, controlled
from mc.active import runner, configs
from mc.props import P

META = P['C12']
CHUNK = 4
A = ALPHABETS['str']
BIGSTEP = 1


def mutants(r, full):
    """All single-output and single-target changes of a machine and all one-state splits: a copy of state t is inserted
    behind one transition and differs in one output or one target (the classical extra-state faults)."""
    outs = [False, True] if r.kind == 'dfa' else [0, 1, 2]

    def setout(out, s, i, o):
        out = [list(x) if r.kind == 'mealy' else x for x in out]
        if r.kind == 'mealy':
            out[s][i] = o
            return tuple(tuple(x) for x in out)
        out[s] = o
        return tuple(out)
    cells = [(s, i) for s in range(r.n) for i in range(r.k)]
    for s, i in (cells if r.kind == 'mealy' else [(s, 0) for s in range(1, r.n)]):
        for o in outs:
            yield Ref(r.kind, r.k, r.delta, setout(r.out, s, i, o))
    for s, i in cells:
        for t in range(r.n):
            d = [list(x) for x in r.delta]
            d[s][i] = t
            yield Ref(r.kind, r.k, d, r.out)
    for s, i in cells:                       # split the target of (s, i)
        t = r.delta[s][i]
        d = [list(x) for x in r.delta] + [list(r.delta[t])]
        d[s][i] = r.n
        o0 = tuple(r.out) + (r.out[t],)
        if r.kind == 'mealy':
            for j in range(r.k):
                for o in outs:
                    yield Ref(r.kind, r.k, d, setout(o0, r.n, j, o))
        else:
            for o in outs:
                yield Ref(r.kind, r.k, d, setout(o0, r.n, 0, o))
        for j in range(r.k):
            for t2 in range(r.n + 1) if full else (0, r.n):
                d2 = [list(x) for x in d]
                d2[r.n][j] = t2
                yield Ref(r.kind, r.k, d2, o0)


_cache = {}


def systems(kind, k, n, thin=1):
    if (kind, k, n, thin) not in _cache:
        _cache[kind, k, n, thin] = list(machines(kind, n, k, minimal=True))[::thin]
    return _cache[kind, k, n, thin]


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'moore', 'mealy'):
        big = kind == 'mealy'
        for n in (1, 2):
            for i, h in enumerate(systems(kind, 2, n)):
                yield ('pairs', h.key(), (1, 2), 1, 1)
                if not q or i % 3 == 0:
                    yield ('pairs', h.key(), (3,), (97 if big else 7) if q else (13 if big else 1), 0)
                yield ('mut', h.key(), 2)
                yield ('seq', h.key())
        for n in (1, 2, 3):
            for h in systems(kind, 1, n):
                yield ('pairs', h.key(), (1, 2, 3, 4), 1, 1)
        for h in systems(kind, 3, 1):
            yield ('pairs', h.key(), (1, 2), 23 if big else 1, 0)
        t3 = systems(kind, 2, 3)
        for h in t3[::(31 if big else 3) if q else (5 if big else 1)]:
            yield ('pairs', h.key(), (1, 2, 3), (17 if big else 3) if q else (7 if big else 1), 0)
            yield ('mut', h.key(), 1)
        for _, h in list(family(kind, 2)) + ([] if q else list(family(kind, 3))):
            yield ('mut', h.minimal().key(), 1 if q or h.n > 5 else 2)
        for n, thin in ((1, 1), (2, 1 if not big else 5), (3, (13 if not big else 61) if q else (1 if not big else 29))):
            for s in systems(kind, 2, n)[::thin]:
                yield ('learn', s.key())
        for _, h in larger(kind):
            h = h.minimal()
            for part in range(4):
                yield ('mut', h.key(), 2 if h.k == 2 else 1, part)
            yield ('learn', h.key(), True)
        for _, s in family(kind, 2):
            if s.n <= (5 if q else 6):
                yield ('learn', s.key())


def oracles(sul, m, k, wp=True):
    from aalpy.oracles import WMethodEqOracle, WpMethodEqOracle
    yield 'W', WMethodEqOracle(A[:k], sul, m)
    if wp:
        yield 'Wp', WpMethodEqOracle(A[:k], sul, m)


def compare(ctx, h, s, m, precomputed=False):
    for which in range(2):
        sul = ref_sul(s, A[:h.k], budget=10 ** 7)
        sul.keep_log = False
        nm, orac = list(oracles(sul, m, h.k))[which]
        hyp = build(h, A[:h.k])
        hyp.compute_prefixes()
        if precomputed:
            hyp.characterization_set = hyp.compute_characterization_set()
        with controlled(Controller(shuffle='keep')):
            c = orac.find_cex(hyp)
        ctx.trace()
        ctx.trans(sul.raw_steps)
        ctx.outcome((nm, m, c))
        eq = equivalent(h, s)
        if c is None:
            ctx.check(eq, lambda: f'{nm}(m={m}) accepts hypothesis {h} although the {s.n}-state system {s} differs')
        else:
            w = [A.index(a) for a in c]
            ctx.check(s.outputs(w) != h.outputs(w), lambda: f'{nm}(m={m}): {c} is no counterexample')
            ctx.check(not eq, lambda: f'{nm}: equivalent hypothesis refuted')


def run(case, ctx):
    kind = case[0]
    h = from_key(case[1])
    ctx.state()
    if kind == 'pairs':
        _, _, sizes, thin, extra = case
        for n in sizes:
            for j, s in enumerate(systems(h.kind, h.k, n, thin)):
                if h.kind != 'mealy' and h.out[0] != s.out[0]:
                    continue
                lo = max(h.n, n)
                for m in range(lo, lo + 1 + extra):
                    compare(ctx, h, s, m, precomputed=bool(j % 2))
    elif kind == 'mut':
        seen = set()
        lot = mutants(h, case[2] > 1)
        for s in lot if len(case) < 4 else sorted(lot, key=Ref.key)[case[3]::4 * BIGSTEP]:
            s = s.minimal()
            if s.key() in seen:
                continue
            seen.add(s.key())
            for m in range(max(h.n, s.n), h.n + case[2]):
                compare(ctx, h, s, m)
    elif kind == 'seq':
        # one oracle instance sees hypotheses of growing size against the same system; tests done for the first must not
        # be lost for the second
        s = h
        hyps = [x for n in (1, 2) for x in systems(s.kind, s.k, n)]
        if s.kind == 'mealy':
            hyps = hyps[::7]
        hyps = [x for x in hyps if x.kind == 'mealy' or x.out[0] == s.out[0]]
        for a in hyps:
            for b in hyps:
                if b.n < a.n:
                    continue
                for which in range(2):
                    sul = ref_sul(s, A[:s.k])
                    nm, orac = list(oracles(sul, 2, s.k))[which]
                    for rnd, x in enumerate((a, b)):
                        hyp = build(x, A[:s.k])
                        hyp.compute_prefixes()
                        with controlled(Controller(shuffle='keep')):
                            c = orac.find_cex(hyp)
                        ctx.trace()
                        ctx.eq(c is None, equivalent(x, s), f'{nm} call {rnd + 1} on hypothesis {x} of system {s} (after {a}): accepted')
    else:
        s = h
        al = A[:s.k]
        for alg in ('lstar', 'kv', 'lsharp'):
            for cfg in configs(alg, 'mini'):
                for which in range(2):
                    for m in (s.n,) if len(case) > 2 else (s.n, s.n + 1):
                        sul = ref_sul(s, al, budget=10 ** 7)
                        nm, orac = list(oracles(sul, m, s.k))[which]
                        with controlled(Controller(shuffle='keep')):
                            hyp = runner(alg)(al, sul, orac, s.kind, print_level=0, **cfg)
                        r = read(hyp, al)
                        ctx.trace()
                        ctx.trans(sul.raw_steps)
                        ctx.check(equivalent(r, s), lambda: f'{alg} {cfg} with {nm}(m={m}) ends with a wrong model {r} of {s}')
                        ctx.eq(r.n, s.minimal().n, f'{alg} with {nm}: size')
                        ctx.outcome((alg, nm, r.key()))
    ctx.sample(case)
