"""Sampling teacher of stochastic learning: exact frequencies, completeness, guided sampling and counterexamples in the samples."""
from collections import Counter
from fractions import Fraction
from itertools import product
from mc import anyaut as aa, stoch as st
from mc.build import ALPHABETS
from mc.choices import distribution, explore
from mc.props import P

META = P['C34']
CHUNK = 4
OUTS = [['x', 'y', 'z'], [0, 'y', (0,)], ['', False, 'q'], [(1,), 1.5, '1'], ['dummy', 'x', 'y']]
KINDS = ('smm', 'mdp')


def usable(t):
    return st.observable(t) and len(st.reachable(t)) == t.n


def systems(kind, q):
    for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1 if kind == 'mdp' else 3), (2, 2, (97 if kind == 'mdp' else 4001) if q else (11 if kind == 'mdp' else 301)), (3, 1, (23 if kind == 'mdp' else 101) if q else (3 if kind == 'mdp' else 11))):
        for t in aa.tables(kind, n, k, step, outs=2, partial=False):
            if usable(t):
                yield t


def cases(tier):
    q = tier == 'quick'
    for kind in KINDS:
        for j, t in enumerate(systems(kind, q)):
            yield ('count', t.key(), j)
            yield ('tree', t.key(), j)
            yield ('cex', t.key(), j)


def run(case, ctx):
    t, j = aa.of_key(case[1]), case[2]
    al, outs = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:t.k], OUTS[j % 5][:2]
    ctx.state()
    {'count': count, 'tree': tree, 'cex': cex}[case[0]](t, al, outs, j, ctx)
    if j % 97 == 0:
        ctx.sample(case)


class NoOracle:
    num_queries = num_steps = 0

    def __init__(self, answer=None):
        self.answer, self.asked, self.resets = answer, 0, 0

    def find_cex(self, hyp):
        self.asked += 1
        return self.answer

    def reset_counter(self):
        self.resets += 1


def checker(mode):
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker

    class Strict(DifferenceChecker):
        """Different as soon as both cells are observed and the sets of outputs (0) or the relative frequencies (1) differ."""

        def are_cells_different(self, c1, c2, **kw):
            return differ(mode, c1, c2)
    return Strict()


def differ(mode, a, b):
    if not a or not b:
        return False
    if mode == 0:
        return set(a) != set(b)
    return any(a.get(o, 0) * sum(b.values()) != b.get(o, 0) * sum(a.values()) for o in set(a) | set(b))


def teacher(t, al, outs, pick, n_c=2, oracle=None, mode=0, strategy=None):
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    sul = st.make_sul(t, al, outs, pick)
    tc = StochasticTeacher(sul, n_c, oracle or NoOracle(), t.kind, checker(mode), samples_cex_strategy=strategy)
    return sul, tc


def flat(t, outs, al, w, last=None):
    r = (outs[t.so[0]],) if t.kind == 'mdp' else ()
    for i, o in w:
        r += (al[i], outs[o])
    return r if last is None else r + (al[last],)


def counts(sul):
    n = Counter()
    for w in map(tuple, sul.log):
        for x in range(1, len(w) + 1):
            n[w[:x]] += 1
    return n


def compare(ctx, t, al, outs, tc, n, n_c, k, what, depth=2):
    no = len(outs)
    io = list(product(range(k), range(no)))
    for d in range(depth + 1):
        for p in product(io, repeat=d):
            for i in range(k):
                want = {outs[o]: n[p + ((i, o),)] for o in range(no) if n[p + ((i, o),)]}
                # complete: the input was executed n_c times after p, or p is excluded: some step of it was tried n_c
                # times at the point where it was not observed
                y = next((y for y in range(1, d + 1) if not n[p[:y]]), None)
                tot = sum(want.values()) if y is None else sum(n[p[:y - 1] + ((p[y - 1][0], o),)] for o in range(no))
                for cut in range(0, d + 1):
                    s, e = flat(t, outs, al, p[:cut]), ()
                    for a, b in p[cut:]:
                        e += (al[a], outs[b])
                    e += (al[i],)
                    ctx.eq(bool(tc.complete_query(s, e)), tot >= n_c, lambda: f'{what}: completeness of {s}+{e} (n_c={n_c}, counted {tot})')
                    ctx.eq(dict(tc.frequency_query(s, e)), want, lambda: f'{what}: frequencies of {s}+{e}')
                    ctx.eq(bool(tc.complete_query(s, e)), tot >= n_c, lambda: f'{what}: completeness of {s}+{e} (n_c={n_c}, counted {tot})')


def count(t, al, outs, j, ctx):
    """Plans of queries, steps and guided queries: the counts are those of the executed traces."""
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable
    from aalpy.learning_algs.stochastic.StochasticTeacher import Node
    q = ctx.tier == 'quick'
    words = [w for n in range(1, 3 if t.k > 1 else 4) for w in product(range(t.k), repeat=n)]
    ops = [('word', w) for w in words] + [('guided', (w, u)) for w in words[:4] for u in (None, 1)]
    plans = list(product(ops, repeat=3))
    plans = plans[j % 13::53 if q else 13]
    for plan in plans:
        n_c = 1 + (j + len(plan[0][1])) % 3

        def body(c):
            sul, tc = teacher(t, al, outs, lambda s, h, i, d: sorted(d)[c.pick(len(d), 'answer')], n_c)
            if t.kind == 'mdp':
                ctx.eq(list(tc.initial_value), [outs[t.so[0]]], f'{t}: initial output')
            tab = SamplingBasedObservationTable(list(al), t.kind, tc, tc.compatibility_checker)
            sul.log.clear()
            steps = 0
            for what, arg in plan:
                if what == 'word':
                    got = tc.sul.query(tuple(al[i] for i in arg))
                    # SUL.query of the wrapper counts the query and its steps itself, too
                    ctx.eq(got, [outs[o] for _, o in sul.log[-1]], f'{plan} on {t}: answer')
                else:
                    w, u = arg
                    root = Node(outs[t.so[0]] if t.kind == 'mdp' else None)
                    for o in product(range(2), repeat=len(w) - 1):
                        tab.add_to_PTA(root, flat(t, outs, al, tuple(zip(w, o)), w[-1]), u)
                    before = len(sul.log)
                    tc.tree_query(root)
                    ctx.eq(len(sul.log), before + 1, f'{plan} on {t}: queries executed by a guided query')
                    ctx.eq(tuple(i for i, _ in sul.log[-1]), w, f'{plan} on {t}: inputs of a guided query')
                ctx.check(not sul.open, lambda: f'{plan} on {t}: post() missing')
                if j % 2:
                    compare(ctx, t, al, outs, tc, counts(sul), n_c, t.k, f'{plan} on {t}', 1)
            compare(ctx, t, al, outs, tc, counts(sul), n_c, t.k, f'{plan} on {t}', 2)
            ctx.trace()
            ctx.trans(sum(map(len, sul.log)))
            ctx.outcome(frozenset(counts(sul).items()))
        n, complete = explore(body, ctx, max_runs=24 if q else 100, floats=[0.25, 0.75])
        if not complete:
            ctx.capped += 1


def tree(t, al, outs, j, ctx):
    """A guided query follows the tree of wanted traces: at each node an input with positive weight (any input of the node if
    none has a weight), until the tree ends or the answer leaves it; the choice is proportional to the weights."""
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable
    from aalpy.learning_algs.stochastic.StochasticTeacher import Node
    io = list(product(range(t.k), range(2)))
    tr = [p + ((i, None),) for n in range(0, 3) for p in product(io, repeat=n) for i in range(t.k)]
    sets = [c for x in range(1, 4) for c in (tr[j % 3::7], tr[x::5], tr[x:x + 3], tr[-x - 2::-4])]
    for wants in sets:
        for weighted in (False, True):
            W = {}
            kids = {}
            for x, w in enumerate(wants):
                for y in range(len(w)):
                    kids.setdefault(w[:y], set()).add(w[y][0])
                    kids.setdefault(w[:y] + ((w[y][0], w[y][1]),), set()) if w[y][1] is not None else None
                    W[w[:y], w[y][0]] = W.get((w[:y], w[y][0]), 0) + 1 + x % 3
            nodes = {w[:y] for w in wants for y in range(len(w))}
            seen = {}

            def body(c):
                sul, tc = teacher(t, al, outs, lambda s, h, i, d: sorted(d)[c.pick(len(d), 'answer')])
                tab = SamplingBasedObservationTable(list(al), t.kind, tc, tc.compatibility_checker)
                root = Node(outs[t.so[0]] if t.kind == 'mdp' else None)
                for x, w in enumerate(wants):
                    f = flat(t, outs, al, w[:-1], w[-1][0])
                    tab.add_to_PTA(root, f, 1 + x % 3 if weighted else None)
                sul.log.clear()
                for rep in range(2):
                    q0, s0 = tc.sul.num_queries, tc.sul.num_steps
                    tc.tree_query(root)
                    w = tuple(sul.log[-1])
                    ctx.eq((len(sul.log), tc.sul.num_queries - q0, tc.sul.num_steps - s0), (rep + 1, 1, len(w)), f'guided query on {t}, wanted {wants}: counters')
                    ctx.check(not sul.open, lambda: f'{t}: post() missing')
                    cur = ()
                    for x, (i, o) in enumerate(w):
                        ctx.check(cur in nodes and i in kids[cur], lambda: f'{t}: executed {w} leaves the tree of wanted traces {wants} by input {i}')
                        cur += ((i, o),)
                    # it ended at a leaf, or the last answer left the tree
                    ctx.check(bool(w) and cur not in nodes, lambda: f'{t}: guided query stopped after {w}, wanted {wants}')
                    seen[w[0][0]] = seen.get(w[0][0], 0) + (rep == 0)
                ctx.trace()
                ctx.trans(len(w))
                ctx.outcome((t.key(), w))
            n, complete = explore(body, ctx, max_runs=64, floats=[0.03, 0.3, 0.6, 0.97])
            if not complete:
                ctx.capped += 1
            if complete:
                ctx.eq(set(seen), {w[0][0] for w in wants}, f'{t}: inputs tried first, wanted {wants}, weights {weighted}')
    # the exact distribution of the first two inputs
    for wants, ws in ((tr[:t.k], (1, 2)), (tr[:t.k], (3, 1)), (tr[:t.k] + tr[t.k:t.k + 2], (1, 1, 2, 0)), (tr[t.k:t.k + 4], (1, 2, 2, 1)), (tr[:t.k], (0, 0))):
        wants = [(w, x) for w, x in zip(wants, ws) if x or not any(ws)]
        total = sum(x for _, x in wants)

        def body2(c):
            sul, tc = teacher(t, al, outs, lambda s, h, i, d: sorted(d)[0])
            tab = SamplingBasedObservationTable(list(al), t.kind, tc, tc.compatibility_checker)
            root = Node(outs[t.so[0]] if t.kind == 'mdp' else None)
            for w, x in wants:
                tab.add_to_PTA(root, flat(t, outs, al, w[:-1], w[-1][0]), x or None)
            sul.log.clear()
            tc.tree_query(root)
            return tuple(i for i, _ in sul.log[0])
        got = distribution(body2, grid=max(total, 1))
        want = {}

        def walk(p, node, w0):
            kids = [(w, x) for w, x in wants if len(w) > len(node) and w[:len(node)] == node]
            if not kids:
                want[p] = want.get(p, 0) + w0
                return
            ins = {}
            for w, x in kids:
                ins[w[len(node)][0]] = ins.get(w[len(node)][0], 0) + x
            tot = sum(ins.values())
            for i, x in ins.items():
                pr = w0 * (Fraction(x, tot) if tot else Fraction(1, len(ins)))
                if pr:
                    s = st.run_to(t, node)
                    o = sorted(st.succ(t, s, i))[0]
                    if any(len(w) > len(node) + 1 and w[:len(node)] == node and w[len(node)] == (i, o) for w, x in wants):
                        walk(p + (i,), node + ((i, o),), pr)
                    else:
                        want[p + (i,)] = want.get(p + (i,), 0) + pr
        walk((), (), Fraction(1))
        if len({len(p) for p in want} | {0}) <= 2 or total <= 4:
            ctx.eq(got, want, lambda: f'{t}: distribution of the inputs of a guided query, wanted {wants}')
            ctx.trace()


def hyp_of(t, al, outs):
    """The system itself, and smaller models, as hypotheses with access traces."""
    m = aa.build(t, al, om=lambda o: outs[o])
    acc = {0: ()}
    todo = [0]
    while todo:
        s = todo.pop(0)
        for i in range(t.k):
            for o, (x, _) in sorted(st.succ(t, s, i).items()):
                if x not in acc:
                    acc[x] = acc[s] + ((i, o),)
                    todo.append(x)
    for s in range(t.n):
        if s in acc:
            m.states[s].prefix = flat(t, outs, al, acc[s])
    return m, acc


def cex(t, al, outs, j, ctx):
    q = ctx.tier == 'quick'
    pool = [h for h in systems_small(t.kind, t.k) if t.kind != 'mdp' or h.so[0] == t.so[0]]
    pool = pool[j % 7::29 if q else 7][:12 if q else 40]
    words = [w for n in range(1, 3 if t.k > 1 else 4) for w in product(range(t.k), repeat=n)]
    plans = [p for n in (1, 2, 3) for p in product(words, repeat=n)]
    plans = plans[j % 17::61 if q else 17]
    for hx, h in enumerate(pool):
        for px, plan in enumerate(plans):
            for mode in (0, 1):
                def body(c):
                    orc = NoOracle(('marker', 'end'))
                    strat = ['bfs', 'random:1:0.5', None][(hx + px) % 3]
                    sul, tc = teacher(t, al, outs, lambda s, hh, i, d: sorted(d)[c.pick(len(d), 'answer')], 2, orc, mode, strat)
                    m, acc = hyp_of(h, al, outs)
                    sul.log.clear()
                    for w in plan:
                        tc.sul.query(tuple(al[i] for i in w))
                    n = counts(sul)
                    freq = lambda p, i: {o: n[p + ((i, o),)] for o in range(2) if n[p + ((i, o),)]}
                    cands = {}
                    for p in [()] + sorted(n, key=len):
                        s = st.run_to(h, p)
                        if s is None:
                            continue
                        for i in range(t.k):
                            f = freq(p, i)
                            if not f:
                                continue
                            if acc[s] != p and differ(mode, f, freq(acc[s], i)):
                                cands[p, i] = 'differs'
                            if any(o not in st.succ(h, s, i) for o in f):
                                cands[p, i] = 'impossible'
                    names = {flat(t, outs, al, p, i): len(p) for p, i in cands}
                    what = lambda: f'samples {dict(n)}, hypothesis {h}, checker {mode}'
                    got = tc.bfs_for_cex_in_tree(m)
                    if not names:
                        ctx.eq(got, None, lambda: f'{what()}: breadth-first counterexample')
                    else:
                        ctx.check(got in names, lambda: f'{what()}: breadth-first search returns {got}, counterexamples are {sorted(names, key=len)}')
                        ctx.eq(names[got], min(names.values()), lambda: f'{what()}: length of {got}')
                    d = tc.dfs_for_cex_in_tree(m, 1 + px % 2, 0.5)
                    ctx.check(d is None or d in names, lambda: f'{what()}: random search returns {d}, counterexamples are {sorted(names, key=len)}')
                    if d is None:
                        ctx.count('random search without result')
                    # the equivalence query: first the samples, then the oracle; an unprocessed counterexample is repeated
                    asked = orc.asked
                    r = tc.equivalence_query(m)
                    if strat == 'bfs':
                        ctx.eq(r, got if got else ('marker',), lambda: f'{what()}: equivalence query')
                    elif strat is None:
                        ctx.eq(r, ('marker',), lambda: f'{what()}: equivalence query')
                    else:
                        ctx.check(r == ('marker',) or r in names, lambda: f'{what()}: equivalence query returns {r}')
                    ctx.eq(orc.asked - asked, 1 if r == ('marker',) else 0, lambda: f'{what()}: oracle asked')
                    ctx.eq(orc.resets, 0 if r == ('marker',) else 1, lambda: f'{what()}: oracle counters reset')
                    if r in names:
                        done = tc.is_cex_processed(m, r)
                        p, i = next((p, i) for p, i in cands if flat(t, outs, al, p, i) == r)
                        ctx.eq(done, bool(st.succ(h, st.run_to(h, p), i)), lambda: f'{what()}: {r} counts as processed')
                        # an earlier counterexample of the samples is repeated until it can be followed, without a search
                        tc.samples_cex_strategy, before = None, orc.asked
                        ctx.eq(tc.equivalence_query(m), ('marker',) if done else r, lambda: f'{what()}: second equivalence query after {r}')
                        ctx.eq(orc.asked - before, 1 if done else 0, lambda: f'{what()}: oracle asked by the second equivalence query')
                        tc.samples_cex_strategy = strat
                    # a counterexample the model cannot follow is repeated
                    lost = next((p for p in sorted(n, key=len) if st.run_to(h, p) is None and not any(st.run_to(h, x) is None for x in n if len(x) < len(p))), None)
                    if lost is not None:
                        tc.last_cex = flat(t, outs, al, lost, 0)
                        ctx.eq(tc.equivalence_query(m), tc.last_cex, lambda: f'{what()}: unprocessed counterexample is dropped')
                    ctx.trace()
                    ctx.outcome((len(names), got is None))
                n, complete = explore(body, ctx, max_runs=6 if q else 30, floats=[0.25, 0.75])
                ctx.trans()
                if (hx + px) % 3 == j % 3:
                    random_search(t, al, outs, h, plan, mode, ctx)
                if not complete:
                    ctx.capped += 1


def random_search(t, al, outs, h, plan, mode, ctx):
    """A random search that does not stop early can return every counterexample that has no other one on its way."""
    found, need = set(), {}

    def body(c):
        sul, tc = teacher(t, al, outs, lambda s, hh, i, d: sorted(d)[(len(sul.log) + len(sul.log[-1])) % len(d)], 2, None, mode)
        m, acc = hyp_of(h, al, outs)
        sul.log.clear()
        for w in plan:
            tc.sul.query(tuple(al[i] for i in w))
        n = counts(sul)
        freq = lambda p, i: {o: n[p + ((i, o),)] for o in range(2) if n[p + ((i, o),)]}
        if not need:
            need['x'] = set()
            todo = [()]
            while todo:
                p = todo.pop()
                s = st.run_to(h, p)
                fs = {i: freq(p, i) for i in range(t.k)}
                if acc[s] != p:
                    d = [i for i in range(t.k) if fs[i] and differ(mode, fs[i], freq(acc[s], i))]
                    if d:
                        need['x'].add(p)
                        continue
                for i, f in fs.items():
                    for o in f:
                        if o in st.succ(h, s, i):
                            todo.append(p + ((i, o),))
                        else:
                            need['x'].add(p)
        r = tc.dfs_for_cex_in_tree(m, 1, 0.5)
        if r is not None:
            found.add(r[:-1])
    n, complete = explore(body, ctx, max_runs=3000, floats=[0.75])
    if not complete:
        ctx.capped += 1
    else:
        ctx.eq(found, {flat(t, outs, al, p) for p in need['x']}, lambda: f'plan {plan} on {t}, hypothesis {h}, checker {mode}: places the random search reports')
    ctx.trace()


_pool = {}


def systems_small(kind, k):
    if (kind, k) not in _pool:
        r = []
        for n, step in ((1, 1), (2, (1 if kind == 'mdp' else 7) if k == 1 else 101 if kind == 'mdp' else 5003)):
            r += [t for t in aa.tables(kind, n, k, step, outs=2, partial=False) if usable(t)]
        _pool[kind, k] = r
    return _pool[kind, k]
