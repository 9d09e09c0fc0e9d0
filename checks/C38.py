"""State merging follows its specification: every promotion and merge is judged on an independent quotient of the prefix tree."""
from contextlib import redirect_stdout
from io import StringIO
from itertools import combinations_with_replacement, product
from math import log
from mc import passive as ps
from mc.build import ALPHABETS
from mc.props import P

META = P['C38']
CHUNK = 4
OUT = ['x', 'y', 'z']


def cases(tier):
    q = tier == 'quick'
    for k, n, step in ((2, 2, 5 if q else 1), (1, 4, 1), (1, 5, 3 if q else 1), (2, 3, 40009 if q else 3001)):
        for i, s in ps.samples(k, n, range(2)):
            if i % step == 0:
                yield ('lab', 'moore', k, s, i)
    for k, d, o, step in ((2, 2, 2, 1), (1, 4, 2, 1), (2, 3, 2, 1499 if q else 61)):
        for i, t in enumerate(ps.mealy_trees(k, d, o)):
            if i % step == 0:
                yield ('lab', 'mealy', k, tuple(ps.tree_sample(t)), i)
    for k, ln, num, step in ((1, 3, 2, 1), (2, 2, 2, 1), (1, 3, 3, 1 if not q else 3), (2, 2, 3, 7 if q else 1), (2, 3, 2, 17 if q else 1),
                             (1, 4, 3, 29 if q else 3), (2, 3, 3, 9001 if q else 401)):
        tr = [t for l in range(0, ln + 1) for t in product([(i, x) for i in range(k) for x in range(2)], repeat=l)]
        for i, ts in enumerate(combinations_with_replacement(tr, num)):
            if i % step == 0:
                yield ('tr', None, k, ts, i)
    yield ('combi',)


class Fold:
    """A quotient of the prefix tree: classes with their label, edges key -> (child, count, output)."""

    def __init__(self, moore, det):
        self.moore, self.det = moore, det
        self.par, self.lab, self.edge, self.low = {}, {}, {}, {}

    def copy(self):
        f = Fold(self.moore, self.det)
        f.par, f.lab, f.low = dict(self.par), dict(self.lab), dict(self.low)
        f.edge = {n: dict(d) for n, d in self.edge.items()}
        return f

    def find(self, x):
        while self.par[x] != x:
            x = self.par[x]
        return x

    def add(self, n, lab):
        if n not in self.par:
            self.par[n], self.lab[n], self.edge[n], self.low[n] = n, lab, {}, (len(n), [ord(c) for c in repr(n)])

    def step(self, n, key, out, child, label=None):
        """One recorded step from tree node n."""
        self.add(child, label)
        c = self.edge[n].get(key, (child, 0, None))
        self.edge[n][key] = (child, c[1] + 1, out if c[2] is None else c[2])

    def merge(self, a, b):
        """Merge two classes and what follows from it. False: contradiction."""
        work, ok = [(a, b)], True
        while work:
            a, b = work.pop()
            a, b = self.find(a), self.find(b)
            if a == b:
                continue
            self.par[b] = a
            la, lb = self.lab[a], self.lab[b]
            if self.moore and la is not None and lb is not None and la != lb:
                return False
            self.lab[a] = lb if la is None else la
            self.low[a] = min(self.low[a], self.low[b])
            for key, (c, n, o) in self.edge.pop(b).items():
                if key in self.edge[a]:
                    c2, n2, o2 = self.edge[a][key]
                    if not self.moore and o is not None and o2 is not None and o != o2:
                        return False
                    self.edge[a][key] = (c2, n + n2, o if o2 is None else o2)
                    work.append((c2, c))
                else:
                    self.edge[a][key] = (c, n, o)
        return True

    def classes(self):
        return list(self.edge)

    def stats(self):
        edges, llh = 0, 0.
        for n, d in self.edge.items():
            tot = {}
            for key, (_, c, _) in d.items():
                edges += 1
                i = key if self.det else key[0]
                tot[i] = tot.get(i, 0) + c
                llh += c * log(c)
            llh -= sum(t * log(t) for t in tot.values())
        return len(self.edge), edges, llh

    def evidence(self, old):
        """Uses of those transitions that were united with another one."""
        group = {}
        for n, d in old.edge.items():
            for key, (_, c, _) in d.items():
                group.setdefault((self.find(n), key), []).append(c)
        return sum(sum(g) for g in group.values() if len(g) > 1)

    def tables(self, n):
        r = {}
        for (i, o) in self.edge[n]:
            r.setdefault(i, set()).add(o)
        return r

    def tails(self, a, b, k):
        """Same outputs for common inputs in all pairs of states reached by common traces shorter than k (b is in a tree)."""
        a, b = self.find(a), self.find(b)
        if self.moore and self.lab[a] != self.lab[b]:
            return False
        if k > 0:
            ta, tb = self.tables(a), self.tables(b)
            if any(ta[i] != tb[i] for i in ta if i in tb):
                return False
        return all(self.tails(self.edge[a][key][0], self.edge[b][key][0], k - 1) for key in self.edge[b] if key in self.edge[a])


def tree(typ, traces, moore, det):
    f = Fold(moore, det)
    f.add((), 'init' if typ == 'tr' and moore else None)
    if typ == 'tr':
        for t in traces:
            for j, (a, o) in enumerate(t):
                f.step(t[:j], a if det else (a, o), o, t[:j + 1], o)
        return f
    for w, l in traces:
        for j in range(len(w)):
            f.step(w[:j], w[j], None, w[:j + 1])
        f.lab[w] = l
        if w:
            c = f.edge[w[:-1]][w[-1]]
            f.edge[w[:-1]][w[-1]] = (c[0], c[1], l)
    return f


PLAN = []
for _mb in (False, True):
    for _df in (False, True):
        for _or in (None, 'low', 'high'):
            PLAN.append((_mb, _df, _or))


def make(score):
    """The library score for a name, and the reference verdict: (viable, value) of a candidate."""
    from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as S
    name, arg = score
    if name == 'first':
        return S.ScoreCalculation(), lambda c: (True, True)
    if name == 'edsm':
        return S.ScoreCalculation(score_function=S.EDSM_score(arg)), lambda c: (arg < c['states'], c['states'])
    if name == 'freq':
        return S.ScoreCalculation(score_function=S.EDSM_frequency_score(arg)), lambda c: (arg < c['evidence'], c['evidence'])
    if name == 'aic':
        return S.ScoreCalculation(score_function=S.AIC_score(arg)), lambda c: (None if abs(c['aic'] - arg) < 1e-9 else arg < c['aic'], c['aic'])
    if name == 'greedy':
        return S.make_greedy(S.ScoreCalculation(score_function=S.EDSM_score(arg))), lambda c: (arg < c['states'], True)
    if name == 'comb':
        return (S.ScoreCombinator([S.ScoreCalculation(), S.ScoreCalculation(score_function=S.EDSM_score())]),
                lambda c: (True, [True, c['states']]))
    if name == 'sinks':
        return (S.ScoreWithSinks(S.ScoreCalculation(score_function=S.EDSM_score()), lambda n: n.count() == 0, arg),
                lambda c: (c['sinks'][0] == c['sinks'][1] and (arg or not c['sinks'][0]), c['states']))
    if name == 'tails':
        from aalpy.learning_algs.general_passive.GsmNode import GsmNode
        inner = S.ScoreCalculation(GsmNode.deterministic_compatible, S.EDSM_score())
        return S.ScoreWithKTail(inner, arg), lambda c: (c['tails'](arg), c['states'])
    raise KeyError(name)


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a is not True and b is not True and abs(a - b) < 1e-6
    return type(a) is type(b) and a == b


def monitor(typ, data, traces, moore, det, score, plan, ctx, futures=False):
    from aalpy.learning_algs import run_GSM
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import Instrumentation
    from aalpy.learning_algs.general_passive.Instrumentation import MergeViolationDebugger
    mb, df, order = plan
    what = f'GSM {"moore" if moore else "mealy"} {"deterministic" if det else "stochastic"} score={score} futures={futures} plan={plan} on {data}'
    calc, verdict = make(score)
    cur = [tree(typ, traces, moore, det)]
    name, red = {}, []

    def blues():
        f, r = cur[0], {cur[0].find(x) for x in red}
        return {f.find(c) for x in r for c, _, _ in f.edge[x].values()} - r

    def candidate(a, b):
        f = cur[0]
        g = f.copy()
        if not g.merge(a, b):
            return False, None
        s0, s1 = f.stats(), g.stats()
        ev = g.evidence(f) if score[0] == 'freq' else None
        ctx.trans()
        c = {'states': s0[0] - s1[0], 'aic': (s0[1] - s1[1]) - (s0[2] - s1[2]), 'evidence': ev,
             'sinks': (not f.edge[a], not f.edge[b]), 'tails': lambda k: f.tails(a, b, k)}
        return verdict(c)

    def rank(n):
        x = cur[0].low[cur[0].find(name[id(n)])]
        return x if order == 'low' else (-x[0], [-c for c in x[1]])

    def key(c):
        x = cur[0].low[c]
        return x if order == 'low' else (-x[0], [-c for c in x[1]])

    # the debugger compares every event with a given model: here with what state merging learns by default from the same data
    conf = dict(output_behavior='moore' if moore else 'mealy', transition_behavior='deterministic' if det else 'stochastic',
                data_format='io_traces' if typ == 'tr' else 'labeled_sequences', convert=False)
    given = [list(t) for t in data] if typ == 'tr' else list(data)
    truth = run_GSM(list(given), **conf)
    debug, said, owner = MergeViolationDebugger(truth), [], {}
    unknown = []

    def true_state(prefix):
        n = truth
        for a, o in prefix:
            if a is not None:
                n = next((t.target for x, y, t in n.transition_iterator() if (x, y) == (a, o)), None)
                if n is None:
                    break        # the outputs on the way were not known when the model was learned
        return n

    class Watch(Instrumentation):
        merges = promotes = 0

        def reset(self, gsm):
            debug.reset(gsm)

        def pta_construction_done(self, root):
            for n in root.get_all_nodes():
                p = tuple(n.get_prefix()) if typ == 'tr' else tuple(n.get_prefix(False))
                name[id(n)] = p
                keep.append(n)
                ctx.check(p in cur[0].par, lambda: f'{what}: the prefix tree has a node {p}')
            ctx.eq(len(name), len(cur[0].par), f'{what}: size of the prefix tree')

        def log_promote(self, node):
            p = node.get_prefix()
            with redirect_stdout(StringIO()) as out:
                debug.log_promote(node)
            if true_state(p) is None:
                unknown.append(p)
            else:
                first = owner.setdefault(id(true_state(p)), node) is node
                said.append(('promote' if first else 'wrong promote', p))
                ctx.check(bool(out.getvalue()) != first, lambda: f'{what}: the debugger prints {out.getvalue()!r} on promotion of {p}')
            f = cur[0]
            b = f.find(name[id(node)])
            if red:
                bl = blues()
                ctx.check(b in bl, lambda: f'{what}: {b} was promoted but is not a child of a red state')
                for r in red:
                    v = candidate(f.find(r), b)
                    ctx.check(not v[0], lambda: f'{what}: {b} was promoted though the merge with {r} is possible ({v})')
                if order:
                    for x in bl:
                        ctx.check(key(b) <= key(x) or not mb and any(candidate(f.find(r), x)[0] is not False for r in red),
                                  lambda: f'{what}: {b} was promoted before {x}')
            else:
                ctx.check(b == (), f'{what}: first promotion is not the root')
            red.append(b)
            self.promotes += 1

        def log_merge(self, part):
            p, q = part.red.get_prefix(), part.blue.get_prefix()
            x, y = true_state(p), true_state(q)
            kind = 'broken merge' if x is None or y is None else 'merge' if x is y else 'wrong merge'
            with redirect_stdout(StringIO()) as out:
                debug.log_merge(part)
            said.append((kind, p, q))
            ctx.check(bool(out.getvalue()) == (kind == 'wrong merge'), lambda: f'{what}: the debugger prints {out.getvalue()!r} on the merge of {p} and {q}')
            f = cur[0]
            r, b = f.find(name[id(part.red)]), f.find(name[id(part.blue)])
            rs = [f.find(x) for x in red]
            bl = blues()
            ctx.check(r in rs, lambda: f'{what}: merge into {r} which is not red')
            ctx.check(b in bl, lambda: f'{what}: merge of {b} which is not a child of a red state')
            ok, val = candidate(r, b)
            ctx.check(ok is not False, lambda: f'{what}: inadmissible merge of {b} into {r}')
            ctx.check(same(val, part.score), lambda: f'{what}: merging {b} into {r} scores {part.score!r}, expected {val!r}')
            for x in bl:
                if mb and x != b:
                    if order:
                        ctx.check(key(b) <= key(x), lambda: f'{what}: {b} was considered before {x}')
                    continue
                vs = [(y, candidate(y, x)) for y in rs]
                if val is not True:
                    for y, v in vs:
                        ctx.check(v[0] is not True or v[1] <= val + (1e-9 if isinstance(val, float) else 0 if not isinstance(val, list) else []),
                                  lambda: f'{what}: {b} was merged into {r} (score {val!r}) although merging {x} into {y} scores {v[1]!r}')
                    ctx.check(mb or any(v[0] is not False for _, v in vs), lambda: f'{what}: {x} cannot be merged but {b} was merged before its promotion')
                elif order and x == b:
                    for y, v in vs:
                        ctx.check(not v[0] or key(r) <= key(y), lambda: f'{what}: {b} was merged into {r} before {y}')
                elif order:
                    ctx.check(key(b) <= key(x), lambda: f'{what}: {b} was considered before {x}')
            f.merge(r, b)
            self.merges += 1

        def learning_done(self, root):
            f = cur[0]
            ctx.check(not blues(), f'{what}: states left over')
            ctx.eq(len(f.edge), len(red), f'{what}: classes and red states')

    keep = []
    w = Watch()
    root = run_GSM(given, score_calc=calc, consider_only_min_blue=mb, depth_first=df, compatibility_on_futures=futures,
                   node_order=(lambda a, b: rank(a) < rank(b)) if order else None, instrumentation=w, **conf)
    ctx.eq([e for e in debug.log if 'promote' not in e[0] or e[1] not in unknown], said, f'{what}: log of the debugger')
    ctx.trace()
    f = cur[0]
    nodes = root.get_all_nodes()
    ctx.eq(len(nodes), len(f.edge), f'{what}: size of the result')
    for n in nodes:
        c = f.find(name[id(n)])
        got = {}
        for a, o, t in n.transition_iterator():
            got[a if det else (a, o)] = (f.find(name[id(t.target)]), t.count, o if not det or not moore else None)
        want = {k: (f.find(x), m, o if not det or not moore else None) for k, (x, m, o) in f.edge[c].items()}
        ctx.eq(got, want, f'{what}: transitions of {c}')
        if moore:
            ctx.eq(n.get_prefix_output(), f.lab[c], f'{what}: output of {c}')
    ctx.outcome((len(nodes), w.merges, tuple(sorted(map(len, f.edge)))))
    return w


def consistent(traces):
    d = {}
    return all(d.setdefault(tuple(a for a, _ in t[:j]), t[j - 1][1]) == t[j - 1][1] for t in traces for j in range(1, len(t) + 1))


def progress(typ, data, moore, det, ctx):
    """The progress report counts what happened."""
    from aalpy.learning_algs import run_GSM
    from aalpy.learning_algs.general_passive.Instrumentation import ProgressReport
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, EDSM_score
    for lvl in (1, 2):
        rep = ProgressReport(lvl)
        for _ in range(2):
            m = run_GSM([list(t) for t in data] if typ == 'tr' else list(data), output_behavior='moore' if moore else 'mealy',
                        transition_behavior='deterministic' if det else 'stochastic', score_calc=ScoreCalculation(score_function=EDSM_score()),
                        data_format='io_traces' if typ == 'tr' else 'labeled_sequences', instrumentation=rep)
            ctx.eq(rep.nr_red_states, len(m.states), f'progress report on {data}: red states')
            ctx.eq(sum(1 for e in rep.log if e[0] == 'promote'), len(m.states), f'progress report on {data}: promotions')
            ctx.eq(sum(1 for e in rep.log if e[0] == 'merge'), rep.nr_merged_states, f'progress report on {data}: merges')
            if lvl == 2:
                ctx.eq(rep.pta_size, rep.nr_red_states + rep.nr_merged_states_total, f'progress report on {data}: states accounted for')


def combinators(ctx):
    from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as S
    calls = []

    class Stub(S.ScoreCalculation):
        def __init__(self, compat, score, tag):
            super().__init__()
            self.c, self.s, self.tag = compat, score, tag

        def reset(self):
            calls.append(self.tag)

        def local_compatibility(self, a, b):
            return self.c

        def score_function(self, part):
            return self.s
    vals, scs = (True, False, None), (0, 1, 3, False, True)
    for n in (0, 1, 2, 3):
        for cs in product(vals, repeat=n):
            for ss in product(scs, repeat=n) if n < 3 else [(0, 1, 3), (False, 1, True)]:
                ctx.state()
                ctx.trans()
                parts = [Stub(c, s, j) for j, (c, s) in enumerate(zip(cs, ss))]
                comb = S.ScoreCombinator(parts)
                want = next((c for c in cs if c is not None), True)
                ctx.check(comb.local_compatibility(None, None) is want, lambda: f'ScoreCombinator compatibility of {cs}')
                got = comb.score_function({})
                ctx.check([(type(x), x) for x in got] == [(type(x), x) for x in ss], lambda: f'ScoreCombinator score of {ss}: {got}')
                own = S.ScoreCombinator(parts, aggregate_compatibility=lambda it: all(x is not False for x in it), aggregate_score=lambda it: sum(it))
                ctx.check(own.local_compatibility(None, None) is all(c is not False for c in cs), lambda: f'ScoreCombinator own aggregation of {cs}')
                ctx.eq(own.score_function({}), sum(ss), f'ScoreCombinator own aggregation of {ss}')
                ctx.check(comb.has_score_function() and comb.has_local_compatibility(), 'a combined score counts as default')
                calls.clear()
                comb.reset()
                ctx.eq(calls, list(range(n)), 'reset of a combined score')
    for s in scs:
        for th in (-1, 0, 1, 2, 3):
            ctx.state()
            low = s if th < s else False
            greedy = s is not False
            kinds = {
                'value': (lambda t, x=s: t(x)),
                'function': (lambda t, x=s: t(lambda part: x)({})),
                'function of any arguments': (lambda t, x=s: t(lambda *a: x)(1, 2)),
                'calculation with function': (lambda t, x=s: t(S.ScoreCalculation(score_function=lambda part: x)).score_function({})),
                'calculation class': (lambda t, x=s: t(Stub(True, x, 0)).score_function({})),
                'combined': (lambda t, x=s: t(S.ScoreCombinator([Stub(True, x, 0)], aggregate_score=lambda it: next(iter(it)))).score_function({})),
            }
            for kname, kind in kinds.items():
                ctx.trans()
                for tname, t, want in (('make_greedy', S.make_greedy, greedy), (f'lower_threshold {th}', lambda x: S.lower_threshold(x, th), low),
                                       ('transform_score', lambda x: S.transform_score(x, lambda y: ('t', y)), ('t', s)),
                                       ('twice', lambda x: S.make_greedy(S.lower_threshold(x, th)), low is not False)):
                    got = kind(t)
                    ctx.check(type(got) is type(want) and got == want, lambda: f'{tname} of a {kname} scoring {s}: {got!r}')
            calc = S.make_greedy(Stub(False, s, 7))
            calls.clear()
            calc.reset()
            ctx.check(calls == [7] and calc.local_compatibility(None, None) is False, 'transforming a score changes its compatibility')
    # local to global: every old node with its new node
    for n in (0, 1, 2, 3):
        for bad in product((True, False), repeat=n):
            seen = []
            part = {('o', j): ('n', j // 2) for j in range(n)}
            got = S.local_to_global_compatibility(lambda a, b: seen.append((a, b)) or bad[b[1]])(part)
            ctx.check(got is all(bad), lambda: f'local_to_global_compatibility of {bad}: {got}')
            ctx.check(set(seen) <= {(v, k) for k, v in part.items()}, 'local_to_global_compatibility: argument order')
            ctx.state()


def run(case, ctx):
    if case[0] == 'combi':
        return combinators(ctx)
    typ, kind, k, raw, i = case
    ctx.state()
    al = ALPHABETS[('str', 'zero', 'word', 'int')[i % 4]][:k]
    plans = [PLAN[(i + j * 5) % len(PLAN)] for j in range(2)]
    if typ == 'lab':
        data = [(tuple(al[a] for a in w), OUT[l]) for w, l in raw]
        if i % 2:
            data.reverse()
        for j, score in enumerate((('first', 0), ('edsm', (-1, 0, 1)[i % 3]), ('sinks', i % 2 == 0), ('greedy', -1), ('comb', 0))):
            if (i + j) % 2:
                monitor(typ, data, data, kind == 'moore', True, score, plans[j % 2], ctx)
        if i % 5 == 0 and data:
            progress(typ, data, kind == 'moore', True, ctx)
        return
    base = [tuple((al[a], OUT[o]) for a, o in t) for t in raw]
    for moore in (True, False):
        mult = ((1, 1, 1), (3, 1, 2), (1, 5, 1))[(i + moore) % 3]
        traces = [t for j, t in enumerate(base) for _ in range(mult[j])]
        data = [['init'] + list(t) for t in traces] if moore else [list(t) for t in traces]
        ambiguous = not moore and all(len(t) == 0 for t in traces)
        if consistent(traces):
            for j, score in enumerate((('first', 0), ('edsm', (-1, 0, 1)[i % 3]), ('freq', (-1, 0, 2, 4)[i % 4]), ('sinks', i % 2 == 0))):
                if (i + j) % 2 == moore:
                    monitor(typ, data, traces, moore, True, score, plans[j % 2], ctx)
        for j, score in enumerate((('aic', (0, 0.5, -2)[i % 3]), ('edsm', (-1, 0)[i % 2]), ('freq', (-1, 1)[i % 2]))):
            monitor(typ, data, traces, moore, False, score, plans[j % 2], ctx)
        monitor(typ, data, traces, moore, False, ('tails', i % 4), plans[0], ctx, futures=True)
        if i % 3 == 0:
            monitor(typ, data, traces, moore, False, ('sinks', i % 2 == 0), plans[1], ctx, futures=i % 2 == 0)
        if i % 7 == 0:
            progress(typ, data, moore, False, ctx)
    ctx.sample(case)
