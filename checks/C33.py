"""Trace tree of non-deterministic learning: a faithful multiset of the recorded traces under every sequence of operations."""
from collections import Counter
from itertools import product
from mc import anyaut as aa, nondet as nd
from mc.build import ALPHABETS
from mc.choices import explore
from mc.props import P

META = P['C33']
CHUNK = 4
OUTS = [['x', 'y', 'z'], [0, 'y', (0,)], ['', False, 'q'], [(1,), 1.5, '1']]


def cases(tier):
    q = tier == 'quick'
    k, no = 2, 2
    for d in range(0, 3 if q else 4):
        for pre in product(range(1 + k * no), repeat=d):
            for each in (False, True):
                yield ('ops', pre, (0 if d < (2 if q else 3) else 4 - each if q else 4), each, (sum(pre) + each) % 4)
    j = 0
    for n, k, w, step in ((1, 1, 2, 1), (1, 2, 2, 1), (2, 1, 2, 1), (1, 1, 3, 1), (2, 2, 2, 211 if q else 31), (3, 1, 2, 41 if q else 5)):
        for t in aa.tables('onfsm', n, k, step, outs=3 if w == 3 else 2, width=w, partial=False):
            if len(nd.reachable(t)) == t.n:
                j += 1
                yield ('sul', t.key(), j)
    from mc.passive import long_traces
    for k in (1, 2, 3):
        for num, ln in ((6, 9), (12, 13)) if q else ((6, 9), (9, 11), (12, 13), (20, 16)):
            for name, tr in long_traces(k, num, ln, True):
                j += 1
                yield ('long', k, tr, j)
    hyps = [t for n, k, w, s in ((1, 2, 2, 1), (2, 1, 2, 1), (2, 2, 2, 97 if q else 23)) for t in aa.tables('onfsm', n, k, s, outs=2, width=w, partial=True)]
    for j, t in enumerate(hyps):
        yield ('cex', t.key(), j)


def run(case, ctx):
    {'ops': ops, 'sul': sul, 'cex': cex, 'long': long}[case[0]](case, ctx)


class Ref:
    """Number of times each trace was recorded."""

    def __init__(self):
        self.n, self.cur = Counter(), None

    def reset(self):
        self.cur = ()

    def add(self, i, o):
        self.cur += ((i, o),)
        self.n[self.cur] += 1

    def ext(self, p, w):
        r = {p}
        for i in w:
            r = {v for v in self.n if v[:-1] in r and v[-1][0] == i}
        return r


def compare(ctx, tree, ref, al, outs, what, plen=3, slen=2):
    k, no = len(al), len(outs)
    io = list(product(range(k), range(no)))
    words = [w for n in range(1, slen + 1) for w in product(range(k), repeat=n)]
    name = lambda p: (tuple(al[i] for i, _ in p), tuple(outs[o] for _, o in p))
    prefixes = [p for n in range(plen + 1) for p in product(io, repeat=n)] if plen < 3 else \
        sorted({v for v in ref.n} | {v + (x,) for v in list(ref.n) + [()] for x in io} | {()} | {(x, y) for x in io for y in io})
    for p in prefixes:
        nm = name(p)
        node = tree.get_to_node(*nm)
        there = not p or ref.n[p] > 0
        ctx.eq(node is not None, there, lambda: f'{what}: node of {nm}')
        if there and p:
            ctx.eq((node.frequency_counter, node.get_prefix(), node.output), (ref.n[p], nm[1], nm[1][-1]), f'{what}: count, outputs of {nm}')
        for w in words:
            e = tuple(al[i] for i in w)
            got = tree.get_all_traces(nm, e)
            want = Counter(tuple(outs[o] for _, o in v[len(p):]) for v in ref.ext(p, w))
            ctx.eq(Counter(map(tuple, got)), want, f'{what}: traces of {e} after {nm}')
            ctx.eq(tree.get_s_e_sampling_frequency(nm, e), sum(ref.n[v] for v in ref.ext(p, w)), f'{what}: number of samples of {e} after {nm}')
        if there:
            for i in range(k):
                v = {outs[o]: ref.n[p + ((i, o),)] for o in range(no) if ref.n[p + ((i, o),)]}
                d = tree.get_sampling_distributions(nm, al[i])
                ctx.check(set(d) == set(v) and all(abs(d[x] - v[x] / sum(v.values())) < 1e-12 for x in v), lambda: f'{what}: distribution of {al[i]!r} after {nm} is {d}, counts {v}')
    some = [name(p) for p in prefixes[:7]]
    ee = [tuple(al[i] for i in w) for w in words]
    tb = tree.get_table(some, ee)
    ctx.check(set(tb) == set(some) and all(list(tb[s]) == ee and all(tb[s][e] == tree.get_all_traces(s, e) for e in ee) for s in some), lambda: f'{what}: table')


def ops(case, ctx):
    from aalpy.learning_algs.non_deterministic.TraceTree import TraceTree
    _, pre, more, each, j = case
    al, outs = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j]][:2], OUTS[j][:2]
    n_ops = 5
    for ext in product(range(n_ops), repeat=more):
        seq = pre + ext
        tree, ref = TraceTree(), Ref()
        tree.reset(), ref.reset()
        for x, op in enumerate(seq):
            if op == 0:
                tree.reset(), ref.reset()
            else:
                i, o = divmod(op - 1, 2)
                tree.add_to_tree(al[i], outs[o]), ref.add(i, o)
            ctx.trans()
            if each and x % 2:
                compare(ctx, tree, ref, al, outs, f'{seq[:x + 1]}', plen=1)
        compare(ctx, tree, ref, al, outs, f'operations {seq}')
        # the same content recorded as whole traces
        other, oref, cur = TraceTree(), Ref(), []
        for op in seq + (0,):
            if op == 0:
                other.add_trace([al[i] for i, _ in cur], [outs[o] for _, o in cur])
                cur = []
            else:
                cur.append(divmod(op - 1, 2))
        compare(ctx, other, ref, al, outs, f'traces {seq}', plen=1)
        ctx.trace()
        ctx.outcome(frozenset(ref.n.items()))
    ctx.state()
    if sum(pre) == 3:
        ctx.sample(case)


def long(case, ctx):
    """Many long traces with common prefixes, some recorded several times, compared after each of them."""
    from aalpy.learning_algs.non_deterministic.TraceTree import TraceTree
    _, k, traces, j = case
    al, outs = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:k], OUTS[j // 4 % 4]
    tree, ref = TraceTree(), Ref()
    ctx.state()
    for x, tr in enumerate(traces + traces[::3] + tuple(t[:4] for t in traces)):
        if x % 2:
            tree.add_trace([al[i] for i, _ in tr], [outs[o] for _, o in tr])
            ref.reset()
            for i, o in tr:
                ref.add(i, o)
        else:
            tree.reset(), ref.reset()
            for i, o in tr:
                tree.add_to_tree(al[i], outs[o]), ref.add(i, o)
        ctx.trans(len(tr))
    for p in {()} | set(ref.n):
        nm = (tuple(al[i] for i, _ in p), tuple(outs[o] for _, o in p))
        if p:
            node = tree.get_to_node(*nm)
            ctx.check(node is not None and (node.frequency_counter, node.get_prefix(), node.output) == (ref.n[p], nm[1], nm[1][-1]), lambda: f'{traces}: count, outputs of {nm}')
        for w in {tuple(i for i, _ in v[len(p):len(p) + d]) for v in ref.n if v[:len(p)] == p for d in (1, 2, 5)} - {()}:
            e = tuple(al[i] for i in w)
            ext = ref.ext(p, w)
            ctx.eq(Counter(map(tuple, tree.get_all_traces(nm, e))), Counter(tuple(outs[o] for _, o in v[len(p):]) for v in ext), f'{traces}: traces of {e} after {nm}')
            ctx.eq(tree.get_s_e_sampling_frequency(nm, e), sum(ref.n[v] for v in ext), f'{traces}: number of samples of {e} after {nm}')
    ctx.trace()
    ctx.outcome(frozenset(ref.n.items()))


def sul(case, ctx):
    from aalpy.learning_algs.non_deterministic.NonDeterministicSULWrapper import NonDeterministicSULWrapper
    t, j = aa.of_key(case[1]), case[2]
    al, outs = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:t.k], OUTS[j // 4 % 4]
    q = ctx.tier == 'quick'
    ctx.state()
    words = [w for n in range(1, 4) for w in product(range(t.k), repeat=n)]
    plans = [(a, b, c) for a in words for b in words for c in words if len(a + b + c) <= (5 if q else 6)]
    plans = plans[j % 11::11] if len(plans) > 40 else plans
    for plan in plans:
        def body(c):
            s = nd.make_sul(t, al, outs, lambda h, i, opts: opts[c.pick(len(opts), 'answer')])
            w = NonDeterministicSULWrapper(s)
            ref = Ref()
            for m, word in enumerate(plan):
                got = w.query(tuple(al[i] for i in word))
                real = tuple(s.log[-1])
                ctx.eq(got, [outs[o] for _, o in real], f'{plan} on {t}: answer {m}')
                ctx.eq(tuple(i for i, _ in real), word, f'{plan} on {t}: executed word {m}')
                ref.reset()
                for i, o in real:
                    ref.add(i, o)
            ctx.eq((w.num_queries, w.num_steps, len(s.log)), (len(plan), sum(map(len, plan)), len(plan)), f'{plan} on {t}: counters')
            ctx.check(not s.open, lambda: f'{plan} on {t}: post() missing')
            compare(ctx, w.cache, ref, al, outs[:3 if any(o == 2 for r in t.cells for c in r for _, o, _ in c) else 2], f'wrapper, queries {plan} on {t}', plen=1)
            ctx.trace()
            ctx.trans(sum(map(len, plan)))
            ctx.outcome(frozenset(ref.n.items()))
        n, complete = explore(body, ctx, max_runs=100 if q else None)
        if not complete:
            ctx.capped += 1


def cex(case, ctx):
    """find_cex_in_cache: a shortest recorded trace that the hypothesis lacks, or None if there is none."""
    from aalpy.learning_algs.non_deterministic.TraceTree import TraceTree
    t, j = aa.of_key(case[1]), case[2]
    al, outs = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:t.k], OUTS[j // 4 % 4][:2]
    ctx.state()
    m = aa.build(t, al, om=lambda o: outs[o])
    io = list(product(range(t.k), range(2)))
    q = ctx.tier == 'quick'
    tr = [w for n in range(1, 3 if t.k > 1 else 5) for w in product(io, repeat=n)]

    def has(w):
        s = 0
        for i, o in w:
            d = nd.step(t, s, i)
            if o not in d:
                return False
            s = d[o]
        return True
    pairs = [(a, b) for a in tr for b in tr]
    pairs = pairs[j % 7::7] if q else pairs
    for a, b in pairs:
        tree = TraceTree()
        for w in (a, b, a):
            tree.add_trace([al[i] for i, _ in w], [outs[o] for _, o in w])
        bad = [w[:x] for w in (a, b) for x in range(1, len(w) + 1) if not has(w[:x])]
        for rep in range(2):
            got = tree.find_cex_in_cache(m)
            if not bad:
                ctx.eq(got, None, f'{t} has all recorded traces {a} {b}')
            else:
                ctx.check(got is not None, lambda: f'{t} lacks {bad[0]}, no counterexample')
                v = tuple((al.index(i), outs.index(o)) for i, o in zip(*got))
                ctx.check(len(got[0]) == len(got[1]) and v in bad, lambda: f'{t}: {v} is not a recorded trace that the hypothesis lacks ({a}, {b})')
                ctx.eq(len(v), min(map(len, bad)), f'{t}: length of the counterexample from {a}, {b}')
        ctx.trace()
        ctx.trans()
    ctx.outcome(t.key())
