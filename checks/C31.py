"""Learning observable non-deterministic machines: the result is trace-equivalent and, under fair sampling, minimal."""
from itertools import product
from mc import anyaut as aa, nondet as nd
from mc.build import ALPHABETS
from mc.choices import explore
from mc.props import P

META = P['C31']
CHUNK = 4


def usable(t):
    return len(nd.reachable(t)) == t.n


def cases(tier):
    q = tier == 'quick'
    j = 0
    for n, k, outs, width, step in ((1, 1, 2, 2, 1), (1, 2, 2, 2, 1), (2, 1, 2, 2, 1), (1, 1, 3, 3, 1), (2, 2, 2, 2, 7 if q else 1), (3, 1, 2, 2, 5 if q else 1),
                                    (3, 2, 2, 2, 12007 if q else 1511), (2, 1, 3, 3, 2 if q else 1), (4, 1, 2, 2, 997 if q else 131), (2, 2, 3, 3, 600011 if q else 60013)):
        for t in aa.tables('onfsm', n, k, step, outs=outs, width=width, partial=False):
            if not usable(t):
                continue
            j += 1
            yield (t.key(), 'fair', j)
            if j % (3 if q else 1) == 0:
                yield (t.key(), 'adv', j)
    for _, t in aa.bigs('onfsm', partial=False):
        if usable(t):
            for _ in range(2 if q else 6):
                j += 1
                yield (t.key(), 'big', j)


def run(case, ctx):
    from aalpy.learning_algs import run_non_det_Lstar
    from aalpy.base import Oracle
    t, mode, j = aa.of_key(case[0]), case[1], case[2]
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:t.k]
    outs = [['x', 'y', 'z'], [0, 'y', 2], ['', 'x', (0,)], [(1,), False, 'q']][j // 4 % 4]
    ctx.state()
    size = nd.minimal_size(t)
    q = ctx.tier == 'quick'
    plans = []
    for kinds in ('+',):          # counterexamples are observed traces, as those of every oracle of the library
        for ns in (1, 3, 16):
            for extra in (0, 1):
                for smp in (0, 2):
                    for stoch in (False, True):
                        plans.append((kinds, ns, extra, smp, stoch))
    plans = [plans[(j * 5 + 7 * x) % len(plans)] for x in range(2 if q else 4)] + ([('+', 16, 0, 0, False)] if mode == 'fair' else [])
    if mode == 'big':
        plans = [('+', 16, 0, 0, j % 2 == 0), ('+', 3, 0, 0, False)]
        mode = 'fair'
    for plan in plans:
        kinds, ns, extra, smp, stoch = plan
        depth = 0 if mode == 'fair' else 5 if q or ns == 1 else 7

        def body(c):
            pick = nd.Fair(c, depth, robin=ns == 16)
            sul = nd.make_sul(t, al, outs, pick)
            hyps = []
            what = f'ONFSM L* {plan} {mode} on {t}'

            class Teacher(Oracle):
                def find_cex(self, hyp):
                    h = nd.Hyp(hyp, al, outs, lambda ok, m: ctx.check(ok, lambda: f'{what}: {m() if callable(m) else m}'))
                    ctx.check(h.reach() == set(range(h.n)), lambda: f'{what}: unreachable states in the hypothesis')
                    for x, s in enumerate(h.st):
                        # access words lead to their states
                        y = 0
                        for i, o in zip(*s.prefix):
                            y = h.d[y].get(al.index(i), {}).get(outs.index(o))
                        ctx.check(y == x, lambda: f'{what}: access trace {s.prefix} of {s.state_id}')
                    hyps.append(h)
                    ctx.check(len(hyps) <= 60, lambda: f'{what}: more than 60 rounds')
                    # every trace observed so far is explained
                    for w in map(tuple, sul.log):
                        ctx.check(h.can(w), lambda: f'{what}: hypothesis does not explain the observed trace {w}')
                    df = nd.differences(t, h, extra, kinds, cap=4)
                    if not df:
                        return None
                    sign, w = df[c.pick(len(df), 'cex') if mode == 'fair' and extra else 0]
                    if sign == '+':
                        sul.forced = w
                    self.sul.pre()
                    for i, o in w[:None if sign == '+' else -1]:
                        if sign == '-':
                            sul.forced = w
                        self.sul.step(al[i])
                        self.num_steps += 1
                    self.sul.post()
                    sul.forced = None
                    self.num_queries += 1
                    return tuple(al[i] for i, _ in w), tuple(outs[o] for _, o in w)
            samples = None
            if smp:
                samples = [(tuple(al[i] for i, _ in w), tuple(outs[o] for _, o in w)) for w in nd.traces(t, smp) if w]
            eq = Teacher(list(al), sul)
            m, info = run_non_det_Lstar(list(al), sul, eq, n_sampling=ns, samples=samples, stochastic=stoch, print_level=0, return_data=True)
            ctx.trace()
            ctx.eq(aa.kind_of(m), 'smm' if stoch else 'onfsm', f'{what}: type')
            h = nd.Hyp(m, al, outs, lambda ok, msg: ctx.check(ok, lambda: f'{what}: {msg() if callable(msg) else msg}'))
            ctx.check(not sul.open, f'{what}: post() missing')
            df = nd.differences(t, h, 0, kinds)
            ctx.check(not df, lambda: f'{what}: model differs from the system on {df[:2]}')
            ctx.check(all(h.d[x].get(i) for x in range(h.n) for i in range(t.k)), lambda: f'{what}: model is not input complete')
            obs = {()}
            for w in list(map(tuple, sul.log)) + [tuple((al.index(a), outs.index(o)) for a, o in zip(*x)) for x in samples or ()]:
                obs.update(w[:x] for x in range(1, len(w) + 1))
            pref = [tuple((al.index(a), outs.index(o)) for a, o in zip(*s.prefix)) for s in h.st]
            E = [tuple(al.index(a) for a in e) for e in m.characterization_set]
            full = True
            for x, p in enumerate(pref):
                ctx.check(h.can(p), lambda: f'{what}: access trace {p}')
                for i in range(t.k):
                    for o in h.d[x][i]:
                        ctx.check(p + ((i, o),) in obs, lambda: f'{what}: transition {i}/{o} of state {x} was never observed after {p}')
            tops = pref + [p + ((i, o),) for x, p in enumerate(pref) for i in range(t.k) for o in h.d[x][i]]
            for p in tops:
                s0 = 0
                for i, o in p:
                    s0 = nd.step(t, s0, i)[o]
                full = full and all(p + w in obs for e in E for w in nd.runs(lambda s, i: nd.step(t, s, i), s0, e))
            if full:
                # all answers to all table cells were seen: the model is right on them and has no superfluous states
                ctx.count('fully sampled')
                ctx.check(h.n <= size, lambda: f'{what}: {h.n} states, minimal model has {size}')
                for x, p in enumerate(pref):
                    s0 = 0
                    for i, o in p:
                        s0 = nd.step(t, s0, i)[o]
                    for e in E:
                        ctx.eq(nd.runs(lambda s, i: h.d[s].get(i, {}), x, e), nd.runs(lambda s, i: nd.step(t, s, i), s0, e), f'{what}: answers of state {x} to {e}')
                if not nd.differences(t, h, 0):
                    ctx.eq(h.n, size, f'{what}: number of states (minimal model)')
            if stoch:
                from fractions import Fraction
                for x in range(h.n):
                    for i in range(t.k):
                        ps = {o: p for (y, o), p in h.prob[x].items() if y == i}
                        ctx.check(abs(sum(ps.values()) - 1) < 1e-9 and all(p > 0 for p in ps.values()), lambda: f'{what}: distribution {ps}')
            ctx.eq(info['automaton_size'], h.n, f'{what}: reported size')
            ctx.eq(info['learning_rounds'], len(hyps), f'{what}: reported rounds')
            ctx.eq((info['queries_eq_oracle'], info['steps_eq_oracle']), (eq.num_queries, eq.num_steps), f'{what}: oracle counters')
            ctx.outcome((h.n, len(hyps), str(h.d)))
            ctx.trans(len(sul.log))
            if mode == 'fair' and len(hyps) > 1 and not stoch:
                lim = 1 + j % (len(hyps) - 1)
                n0 = len(hyps)
                hyps0 = list(hyps)
                hyps.clear()
                sul.log.clear()
                c2 = c
                pick.__init__(c, 0, robin=ns == 16)
                eq2 = Teacher(list(al), sul)
                if not extra:
                    m2, info2 = run_non_det_Lstar(list(al), sul, eq2, n_sampling=ns, samples=samples, max_learning_rounds=lim, print_level=0, return_data=True)
                    ctx.eq(info2['learning_rounds'], lim, f'{what}: rounds with max_learning_rounds={lim}')
                    h2 = nd.Hyp(m2, al, outs, lambda ok, msg: ctx.check(ok, msg))
                    ctx.eq(h2.d, hyps0[lim - 1].d, f'{what}: with max_learning_rounds={lim}, not the model of that round')
        n, complete = explore(body, ctx, max_runs=40 if q else 64)
        if not complete:
            ctx.capped += 1
    if j % 199 == 0:
        ctx.sample(case)
