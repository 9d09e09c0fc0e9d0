"""Oracle soundness: a returned counterexample is always one, and a correct hypothesis is never refuted."""
from mc import orc
from mc.ref import from_key, equivalent, machines
from mc.build import build, ref_sul, ALPHABETS
from mc.choices import explore
from mc.props import P

META = P['C11']
CHUNK = 4
A = ['a', 'b']


def cases(tier):
    yield from nondet_cases(tier)
    for j, (s, h) in enumerate(orc.pairs(tier, 4 if tier == 'quick' else 1)):
        yield ('det', s, h, j % 2)


def run(case, ctx):
    if case[0] != 'det':
        return run_nondet(case, ctx)
    sref, href = from_key(case[1]), from_key(case[2])
    eq = equivalent(sref, href)
    F = orc.factories()
    ctx.state()
    memo = {}

    def differs(t, every):
        if (t, every) not in memo:
            w = [A.index(a) for a in t]
            so, ho = sref.outputs(w), href.outputs(w)
            # the oracles that do not compare every step compare the walk that follows a prefix
            memo[(t, every)] = so != ho if every else so[-1:] != ho[-1:]
        return memo[(t, every)]
    for name in orc.OPTS:
        def body(c):
            base, sul, hyp, x = orc.env(name, sref, href, A)
            orac = F[name](list(A), sul, x)
            model = build(sref, A)
            model.compute_prefixes()
            for rnd, (h, hr) in enumerate(((hyp, href), (hyp, href), (model, sref)) if case[3] else ((model, sref), (hyp, href), (hyp, href))):
                seen = len(base.log)
                cex = orac.find_cex(h)
                if base.open:
                    base.post()
                same = eq if hr is href else True
                ctx.trace()
                what = f'{name} round {rnd} system {sref} hypothesis {hr}'
                if cex is None:
                    ctx.outcome((name, rnd, None))
                    for t in base.log[seen:]:
                        if (hr is href and not eq) and differs(t, name in orc.FIRST_DIFF):
                            ctx.fail(f'{what}: accepted although the executed test {t} shows a difference')
                    continue
                ctx.check(isinstance(cex, (tuple, list)), f'{what}: counterexample of type {type(cex).__name__}')
                w = [A.index(a) for a in cex]
                ctx.check(not same, f'{what}: counterexample {cex} although both are equivalent')
                so, ho = sref.outputs(w), hr.outputs(w)
                ctx.check(w and so[-1] != ho[-1], f'{what}: {cex} is no counterexample (system {so}, hypothesis {ho})')
                if name in orc.FIRST_DIFF:
                    ctx.check(so[:-1] == ho[:-1], f'{what}: {cex} differs before its last step')
                ctx.outcome((name, rnd, tuple(w)))
                ctx.trans(len(w))
        cap = 250 if ctx.tier == 'quick' else 3000
        runs, complete = explore(body, ctx, max_runs=cap, max_dev=3 if ctx.tier == 'quick' else 5, **orc.OPTS[name])
        if not complete:
            ctx.count('capped_' + name)
            ctx.capped += 1
    ctx.sample(case)


# ---- hypotheses that are non-deterministic or stochastic: the returned trace was really observed and is impossible in the hypothesis
def nd_tables(n):
    """Non-deterministic systems over one or two inputs: per (state, input) a non-empty set of (output, target)."""
    from itertools import product, combinations
    prim = [(o, t) for o in 'xy' for t in range(n)]
    opts = [c for r in (1, 2) for c in combinations(prim, r)]
    return opts


def nondet_cases(tier):
    o1 = nd_tables(1)
    for kind in ('onfsm', 'mdp', 'smm'):
        for a in o1:
            for b in o1:
                yield ('nd1', kind, a, b)
        two = [(((('x', 1),), (('y', 1),))), ((('x', 0), ('y', 1)), (('x', 1),)), ((('x', 1), ('y', 1)), (('y', 0),)),
               ((('x', 0),), (('x', 0),))]
        for a in two:
            for b in two:
                yield ('nd2', kind, a, b)


def run_nondet(case, ctx):
    from aalpy.automata import Onfsm, OnfsmState, Mdp, MdpState, StochasticMealyMachine, StochasticMealyState
    from aalpy.base import SUL
    from aalpy import oracles as O
    _, kind, sysd, hypd = case
    if case[0] == 'nd1':
        sysd, hypd = (sysd,), (hypd,)

    def bld(d):
        if kind == 'onfsm':
            st = [OnfsmState(f's{i}') for i in range(len(d))]
            for i, ts in enumerate(d):
                for o, t in ts:
                    st[i].transitions['a'].append((o, st[t]))
            return Onfsm(st[0], st)
        if kind == 'smm':
            st = [StochasticMealyState(f's{i}') for i in range(len(d))]
            for i, ts in enumerate(d):
                for o, t in ts:
                    st[i].transitions['a'].append((st[t], o, 1 / len(ts)))
            return StochasticMealyMachine(st[0], st)
        # mdp: state (o, t) pairs; output on the state
        names = {}
        st = []

        def get(o, t):
            if (o, t) not in names:
                names[(o, t)] = MdpState(f'q{len(st)}', o)
                st.append(names[(o, t)])
                for o2, t2 in d[t]:
                    names[(o, t)].transitions['a'].append((get(o2, t2), 1 / len(d[t])))
            return names[(o, t)]
        init = get('init', 0)
        return Mdp(init, st)

    class NdSul(SUL):
        def __init__(self, c):
            super().__init__()
            self.c, self.runs = c, []

        def pre(self):
            self.q, self.tr = 0, []
            self.runs.append(self.tr)

        def post(self):
            pass

        def step(self, letter):
            o, t = sysd[self.q][self.c.pick(len(sysd[self.q]), 'system')]
            self.q = t
            self.tr.append((letter, o))
            return o

    def admits(tr):
        cur = {0}
        for _, o in tr:
            cur = {t for q in cur for oo, t in hypd[q] if oo == o}
            if not cur:
                return False
        return True

    def det_hyp(d):   # observation determinism is what the formalisms assume
        return all(len({o for o, _ in ts}) == len(ts) for ts in d)

    if not det_hyp(hypd):
        return
    for nm, mk in (('walk', lambda s, r: O.RandomWalkEqOracle(['a'], s, num_steps=3, reset_prob=0.5, reset_after_cex=r)),
                   ('word', lambda s, r: O.RandomWordEqOracle(['a'], s, num_walks=2, min_walk_len=1, max_walk_len=2, reset_after_cex=r))):
      for again in (True, False):
        def body(c):
            sul, hyp = NdSul(c), bld(hypd)
            orac = mk(sul, again)
            left = full = 3 if nm == 'walk' else 2
            for rnd in range(2):
                done = len(sul.runs)
                cex = orac.find_cex(hyp)
                ctx.trace()
                what = f'{kind} {nm} reset_after_cex={again} round {rnd}'
                used = sum(map(len, sul.runs[done:])) if nm == 'walk' else len(sul.runs) - done
                if cex is None:
                    for tr in sul.runs[done:]:
                        ctx.check(admits(tr), lambda: f'{what}: accepted although trace {tr} is impossible in the hypothesis')
                    ctx.eq(used, left, f'{what}: tests executed before accepting')
                    left = 0
                    continue
                left = full if again else left - used
                if kind == 'onfsm':
                    ctx.check(isinstance(cex, tuple) and len(cex) == 2 and len(cex[0]) == len(cex[1]), lambda: f'{what}: counterexample {cex} is no pair of inputs and outputs')
                    tr = list(zip(*cex))
                elif kind == 'mdp':
                    ctx.eq(cex[0], 'init', 'counterexample does not start with the initial output')
                    tr = list(zip(cex[1::2], cex[2::2]))
                    ctx.check(len(cex) == 2 * len(tr) + 1, 'malformed trace')
                else:
                    tr = list(zip(cex[0::2], cex[1::2]))
                ctx.check(tr in sul.runs, f'{what}: trace {tr} was never observed, observed {sul.runs}')
                ctx.check(not admits(tr), f'{what}: trace {tr} is possible in the hypothesis')
                ctx.check(admits(tr[:-1]), f'{what}: trace {tr} is not the shortest')
                ctx.outcome((kind, nm, tuple(tr)))
        explore(body, ctx, max_runs=3000, floats=(orc.HIGH, orc.LOW))
    ctx.state()
