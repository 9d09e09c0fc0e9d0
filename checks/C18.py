"""Graph queries on automata: shortest paths, access words, strong connectivity, alphabets, lookups."""
from itertools import permutations
from mc import partial as pt
from mc.build import ALPHABETS
from mc.ref import family
from mc.props import P
from checks.C17 import of_ref

META = P['C18']
CHUNK = 16


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'mealy', 'moore'):
        outs = 1
        for n, k in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (4, 1), (2, 3)):
            for i, m in enumerate(pt.all_partial(kind, n, k, outs=outs)):
                if kind == 'dfa' and any(m.so):
                    continue
                yield (m.key(), i)
        for i, m in enumerate(pt.all_partial(kind, 3, 2, outs=outs)):
            if kind == 'dfa' and any(m.so):
                continue
            if i % 1 == 0:
                yield (m.key(), i)
        for k in (2, 3):
            for _, f in family(kind, k):
                yield (of_ref(f).key(), 0)
        for j, (_, p) in enumerate(pt.bigs(kind)):
            yield (p.key(), j)
    if not q:
        for i, m in enumerate(pt.all_partial('mealy', 4, 2, outs=1)):
            if i % 1 == 0:
                yield (m.key(), i)


def run(case, ctx):
    key, idx = case
    p = pt.of_key(key)
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[idx % 4]][:p.k]
    ctx.state()
    orders = [None, tuple(reversed(range(p.n)))]
    for o in orders:
        st = []
        m = pt.build(p, al, order=o, out=st)
        R = [pt.reach(p, s) for s in range(p.n)]
        for x in range(p.n):
            for y in range(p.n):
                w = m.get_shortest_path(st[x], st[y])
                what = f'{p}: shortest path {x}->{y}'
                ctx.eq(w is None, y not in R[x], f'{what} exists')
                if w is not None:
                    ctx.check(isinstance(w, tuple), f'{what}: type {type(w).__name__}')
                    s = x
                    for a in w:
                        c = p.cells[s][al.index(a)]
                        ctx.check(c is not None, lambda: f'{what}: {w} is not executable')
                        s = c[0]
                    ctx.eq(s, y, f'{what}: {w} leads to')
                    ctx.eq(len(w), len(R[x][y]), f'{what}: length')
                    ctx.outcome((x, y, w))
                ctx.trace()
        ctx.eq(m.is_strongly_connected(), all(len(r) == p.n for r in R), f'{p}: strongly connected')
        m.compute_prefixes()
        for x in range(p.n):
            ctx.eq(None if st[x].prefix is None else len(st[x].prefix), None if x not in R[0] else len(R[0][x]), f'{p}: length of the access word of {x}')
            if st[x].prefix is not None:
                s = 0
                for a in st[x].prefix:
                    s = p.cells[s][al.index(a)][0]
                ctx.eq(s, x, f'{p}: access word leads to')
            ctx.check(m.get_state_by_id(f's{x}') is st[x], 'get_state_by_id')
            same = [al[i] for i, c in enumerate(p.cells[x]) if c is not None and c[0] == x]
            diff = [al[i] for i, c in enumerate(p.cells[x]) if c is not None and c[0] != x]
            ctx.eq(sorted(map(repr, st[x].get_same_state_transitions())), sorted(map(repr, same)), f'{p}: self loops of {x}')
            ctx.eq(sorted(map(repr, st[x].get_diff_state_transitions())), sorted(map(repr, diff)), f'{p}: leaving transitions of {x}')
        ctx.eq(m.get_state_by_id('nope'), None, 'get_state_by_id of an unknown id')
        used = {al[i] for r in p.cells for i, c in enumerate(r) if c is not None}
        got = m.get_input_alphabet()
        ctx.check(set(got) == used and len(got) == len(used), lambda: f'{p}: input alphabet {got}')
        ctx.eq(m.is_input_complete(), all((c is not None) for r in p.cells for i, c in enumerate(r) if al[i] in used), f'{p}: input complete')
        ctx.eq(m.size, p.n, 'size')
        ctx.trans(p.n * p.k)
    ctx.sample(case)
