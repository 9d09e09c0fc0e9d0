"""Stochastic state merging: Alergia for Markov chains, MDPs and stochastic Mealy machines, stochastic GSM, Alergia_EDSM."""
from itertools import combinations_with_replacement, product
from math import log, sqrt
from mc.props import P

META = P['C28']
CHUNK = 4
IN = {0: ['a', 'b', 'c'], 1: ['b1', 'a1', 'c1']}
OUT = {0: ['x', 'y', 'z'], 1: ['', 'q', 'r']}
EPS = (2, 0.9, 0.05, 1e-6)
MULT = ((1, 1, 1, 1), (9, 1, 2, 3), (1, 40, 40, 2), (60, 7, 1, 25))


def cases(tier):
    q = tier == 'quick'
    for k, o, ln, num, step in ((1, 2, 3, 2, 1), (2, 2, 2, 2, 1), (1, 2, 3, 3, 1), (2, 2, 2, 3, 1), (1, 3, 3, 2, 1),
                                (2, 2, 3, 2, 9 if q else 1), (1, 2, 5, 2, 2 if q else 1), (1, 2, 3, 4, 29 if q else 5)):
        tr = [t for l in range(0, ln + 1) for t in product([(i, x) for i in range(k) for x in range(o)], repeat=l)]
        for i, ts in enumerate(combinations_with_replacement(tr, num)):
            if i % step == 0:
                yield (k, ts, i)
    from mc.passive import long_traces
    i = 0
    for k in (1, 2, 3):
        for num, ln in ((3, 8), (6, 12), (10, 14)) if q else ((3, 8), (4, 10), (6, 12), (10, 14), (14, 18)):
            for _, ts in long_traces(k, num, ln, True):
                for _ in range(2):
                    i += 3
                    yield (k, ts, i)


def hoeff(a, b, eps):
    """Do two frequency tables differ significantly? None: within rounding of the bound."""
    n1, n2 = sum(a.values()), sum(b.values())
    if not n1 or not n2:
        return False
    bound = (sqrt(1 / n1) + sqrt(1 / n2)) * sqrt(0.5 * log(2 / eps))
    worst = max(abs(a.get(o, 0) / n1 - b.get(o, 0) / n2) for o in set(a) | set(b))
    return None if abs(worst - bound) < 1e-9 else worst > bound


class Pta:
    def __init__(self, traces, typ):
        self.typ = typ
        self.cnt = {(): {}}
        for t in traces:
            for j in range(len(t)):
                d = self.cnt.setdefault(t[:j], {})
                d[t[j]] = d.get(t[j], 0) + 1
                self.cnt.setdefault(t[:j + 1], {})

    def tables(self, n):
        """input -> output frequencies"""
        r = {}
        for (i, o), c in self.cnt[n].items():
            r.setdefault(i, {})[o] = c
        return r

    def out(self, n):
        return 'init' if not n else n[-1][1]

    def compatible(self, p, q, eps):
        """The recursive test of Alergia on the original counts; None = undecided by rounding."""
        if self.typ != 'smm' and self.out(p) != self.out(q):
            return False
        und = False
        a, b = self.tables(p), self.tables(q)
        for i in a:
            if i in b:
                h = hoeff(a[i], b[i], eps)
                if h:
                    return False
                und |= h is None
        for el in self.cnt[p]:
            if el in self.cnt[q]:
                c = self.compatible(p + (el,), q + (el,), eps)
                if c is False:
                    return False
                und |= c is None
        return None if und else True


def node_compat(a, b, eps, ob):
    """The same recursion on the counts a state of stochastic GSM recorded before merging."""
    if ob == 'moore' and a.get_prefix_output() != b.get_prefix_output():
        return False
    tabs = [{i: {o: t for o, t in d.items() if t.original_count} for i, d in n.transitions.items()} for n in (a, b)]
    und = False
    for i in tabs[0]:
        if i in tabs[1]:
            h = hoeff(*({o: t.original_count for o, t in tb[i].items()} for tb in tabs), eps)
            if h:
                return False
            und |= h is None
            for o in tabs[0][i]:
                if o in tabs[1][i]:
                    c = node_compat(tabs[0][i][o].original_target, tabs[1][i][o].original_target, eps, ob)
                    if c is False:
                        return False
                    und |= c is None
    return None if und else True


def replay(m, typ, traces, ctx, what):
    """Runs every trace, counts transition uses, checks that probabilities are the relative frequencies."""
    use, seen = {}, {id(m.initial_state)}
    ctx.check(any(m.initial_state is s for s in m.states), f'{what}: initial state not listed')
    if typ != 'smm':
        ctx.eq(m.initial_state.output, 'init', f'{what}: initial output')
    for t in traces:
        s = m.initial_state
        for a, o in t:
            if typ == 'mc':
                nxt = [(x, 0) for x, _ in s.transitions if x.output == o]
            elif typ == 'mdp':
                nxt = [(x, 0) for x, _ in s.transitions.get(a, []) if x.output == o]
            else:
                nxt = [(x, 0) for x, y, _ in s.transitions.get(a, []) if y == o]
            ctx.check(len(nxt) == 1, lambda: f'{what}: trace {t} has {len(nxt)} continuations at {a}/{o}')
            u = use.setdefault(id(s), {}).setdefault(None if typ == 'mc' else a, {})
            u[(id(nxt[0][0]), o)] = u.get((id(nxt[0][0]), o), 0) + 1
            s = nxt[0][0]
            seen.add(id(s))
    ctx.eq(len({id(s) for s in m.states}), len(seen), f'{what}: states not reached by the data')
    for s in m.states:
        groups = {None: s.transitions} if typ == 'mc' else s.transitions
        for a, l in groups.items():
            if not l:
                continue
            u = use.get(id(s), {}).get(a, {})
            tot = sum(u.values())
            ctx.eq(len(l), len(u), f'{what}: number of transitions of {s.state_id} for {a!r}')
            for c in l:
                o = c[1] if typ == 'smm' else c[0].output
                want = u.get((id(c[0]), o), 0) / tot if tot else None
                ctx.check(want is not None and abs(c[-1] - want) < 1e-12, lambda: f'{what}: probability {c[-1]} of {s.state_id} -{a}/{o}->, frequency {want}')
    ctx.trans(sum(len(x) for u in use.values() for x in u.values()))


def data_of(traces, typ):
    if typ == 'mc':
        return [['init'] + [o for _, o in t] for t in traces]
    if typ == 'mdp':
        return [['init'] + [tuple(x) for x in t] for t in traces]
    return [[tuple(x) for x in t] for t in traces]


def walk(m, typ, word):
    s = m.initial_state
    for a, o in word:
        s = [c[0] for c in (s.transitions if typ == 'mc' else s.transitions[a]) if (c[1] if typ == 'smm' else c[0].output) == o][0]
    return s


def run(case, ctx):
    from aalpy.learning_algs import run_Alergia, run_GSM
    from aalpy.learning_algs.general_passive.GsmAlgorithms import run_Alergia_EDSM
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import hoeffding_compatibility, ScoreCalculation
    k, ts, i = case
    ctx.state()
    al, out = IN[i % 2], OUT[i % 2]
    base = [tuple((al[a], out[o]) for a, o in t) for t in ts]
    for mult in (MULT[i % 4], MULT[(i + 1) % 4]):
        traces = [t for j, t in enumerate(base) for _ in range(mult[j % 4])]
        if i % 3 == 0:
            traces.reverse()
        for typ in ('mc', 'mdp', 'smm') if k == 1 else ('mdp', 'smm'):
            pta = Pta([tuple((al[0], o) for _, o in t) for t in traces] if typ == 'mc' else traces, typ)
            for eps in (EPS[i % 4], EPS[(i + 2) % 4]):
                what = f'Alergia {typ} eps={eps} on {mult} x {base}'
                m = run_Alergia(data_of(traces, typ), typ, eps=eps)
                ctx.trace()
                replay(m, typ, traces, ctx, what)
                ctx.check(all(a.state_id != b.state_id for x, a in enumerate(m.states) for b in m.states[:x]), 'state ids not unique')
                pre = [tuple((al[0], o) for o in s.prefix) if typ == 'mc' else tuple(s.prefix) for s in m.states]
                for p, s in zip(pre, m.states):
                    ctx.check(walk(m, typ, p) is s, lambda: f'{what}: prefix {p} does not lead to its state')
                for x in range(len(pre)):
                    for y in range(x):
                        ctx.check(pta.compatible(pre[y], pre[x], eps) is not True, lambda: f'{what}: states {pre[y]} and {pre[x]} are compatible but were not merged')
                # every other continuation was compatible with some state it could be merged into
                for n in pta.cnt:
                    if n and n not in pre and n[:-1] in pre:
                        # a child of a kept state that was not kept itself: merged into a state compatible with it
                        tgt = walk(m, typ, n)
                        c = pta.compatible(pre[[id(s) for s in m.states].index(id(tgt))], n, eps)
                        ctx.check(c is not False, lambda: f'{what}: {n} was merged into an incompatible state')
                ctx.outcome((typ, len(m.states), tuple(sorted(pre))))
                # stochastic GSM with the same compatibility, EDSM variant
                if typ != 'mc':
                    fm = 'io_traces'
                    ob = 'moore' if typ == 'mdp' else 'mealy'
                    for on_pta, fut in ((True, True), (False, True), (False, False), (True, False)):
                        w2 = f'stochastic GSM {typ} eps={eps} pta={on_pta} futures={fut} on {mult} x {base}'
                        sc = ScoreCalculation(hoeffding_compatibility(eps, on_pta))
                        g = run_GSM(data_of(traces, typ), output_behavior=ob, transition_behavior='stochastic', score_calc=sc, data_format=fm,
                                    compatibility_on_pta=on_pta, compatibility_on_futures=fut)
                        ctx.trace()
                        replay(g, typ, traces, ctx, w2)
                        if on_pta and fut:
                            root = run_GSM(data_of(traces, typ), output_behavior=ob, transition_behavior='stochastic', score_calc=sc, data_format=fm,
                                           compatibility_on_pta=on_pta, compatibility_on_futures=fut, convert=False)
                            gp = root.get_all_nodes()
                            for x in range(len(gp)):
                                for y in range(x):
                                    ctx.check(node_compat(gp[y], gp[x], eps, ob) is not True, lambda: f'{w2}: {gp[y].get_prefix()} and {gp[x].get_prefix()} are compatible but were not merged')
                if typ == 'mc' and not any(traces):
                    continue
                e = run_Alergia_EDSM(data_of(traces, typ), typ, eps=eps)
                replay(e, typ, traces, ctx, f'Alergia_EDSM {typ} eps={eps} on {mult} x {base}')
            steps = sum(len(t) for t in traces)
            m = run_Alergia(data_of(traces, typ), typ, eps='auto')
            replay(m, typ, traces, ctx, f'Alergia {typ} eps=auto on {mult} x {base}')
            if steps:
                n = run_Alergia(data_of(traces, typ), typ, eps=min(2, 10 / steps))
                ctx.eq(len(m.states), len(n.states), f'Alergia {typ} eps=auto on {mult} x {base}: states')
    ctx.sample(case)
