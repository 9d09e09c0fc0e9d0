"""Copies (copy(), copy module, pickle, state set-ups) are isomorphic to the original and independent of it."""
import copy, pickle
from mc import anyaut as aa, partial as pt, push
from mc.build import ALPHABETS
from mc.props import P

META = P['C19']
CHUNK = 16
IDS = [lambda n: [f's{j}' for j in range(n)], lambda n: list(range(n)), lambda n: [f'q{n - j}' for j in range(n)],
       lambda n: [(j, 'x') for j in range(n)], lambda n: aa.upto(['', 'b', 'c', 'd'], n)]
OM = [lambda o: o, lambda o: ['', 'x', 'y'][o], lambda o: [None, 0, False][o], lambda o: [(1, 2), frozenset((1,)), 3.5][o]]


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 3 if q else 1), (3, 1, 3 if q else 1), (3, 2, 997 if q else 53)):
            for i, m in enumerate(pt.all_partial(kind, n, k)):
                if i % step == 0:
                    j += 1
                    yield ('det', m.key(), j)
                if kind == 'mealy' and (n, k) == (3, 2) and i > (200000 if q else 3000000):
                    break
    for kind in ('mdp', 'smm', 'ndmoore'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 211 if q else 17), (3, 1, 97 if q else 7), (3, 2, 10 ** 6 + 3 if q else 10 ** 5 + 3)):
            if kind == 'smm':
                step = step * 11 if n * k > 2 else step
            if kind == 'smm' and (n, k) == (3, 2):
                step *= 1009
            if kind == 'mdp' and (n, k) == (3, 2):
                step *= 37
            for m in aa.tables(kind, n, k, step):
                j += 1
                yield ('nd', m.key(), j)
    for kind in ('dfa', 'moore', 'mealy'):
        for name, m in pt.bigs(kind, ('full', 'holes') if q else ('full', 'holes', 'tail', 'twice')):
            j += 1
            yield ('det', m.key(), j)
    for kind in ('mdp', 'smm', 'ndmoore'):
        for name, m in aa.bigs(kind):
            j += 1
            yield ('nd', m.key(), j)
    for dims, step in (((1, 1, 1, 1, 1), 1), ((1, 1, 2, 2, 2), 41 if q else 5), ((2, 1, 1, 1, 1), 23 if q else 3), ((2, 0, 2, 2, 2), 5100021 if q else 530003),
                       ((3, 1, 1, 1, 1), 8600033 if q else 860161)):
        for i in range(0, push.vp_count(*dims, True), step):
            j += 1
            yield ('vpa', push.vp_at(*dims, True, i).key(), j)
    from checks.C05 import pick
    for n, ni, nc, nr, dead, step in ((1, 1, 1, 1, True, 1), (2, 1, 1, 1, True, 29 if q else 3), (2, 0, 2, 2, True, 4000037 if q else 400009), (3, 1, 1, 1, True, 9003 if q else 901)):
        for v in pick(n, ni, nc, nr, dead, False, step, 0):
            j += 1
            yield ('sevpa', v.key(), j)


def expected_setup(kind, d):
    """The documented state set-up of a description."""
    r = {}
    for s, (lab, tr) in d[2].items():
        if kind in ('dfa', 'moore'):
            r[s] = (lab, {i: l[0][0] for i, l in tr.items()})
        elif kind == 'mealy':
            r[s] = {i: (l[0][1][0], l[0][0]) for i, l in tr.items()}
        elif kind == 'mdp':
            r[s] = (lab, {i: [(t, p) for t, (p,) in l] for i, l in tr.items()})
        elif kind == 'smm':
            r[s] = {i: [(t, o, p) for t, (o, p) in l] for i, l in tr.items()}
        elif kind == 'ndmoore':
            r[s] = (lab, {i: [t for t, _ in l] for i, l in tr.items()})
        else:
            r[s] = (lab, {i: [(t, a, g) for t, (a, g) in l] for i, l in tr.items()})
    return r


def drop_empty(kind, su):
    res = {}
    for s, x in su.items():
        if kind in ('vpa', 'sevpa') and s == 'ErrorSinkState':
            continue
        if kind in ('mealy', 'smm'):
            res[s] = {i: l for i, l in x.items() if l != []}
        else:
            res[s] = (x[0], {i: l for i, l in x[1].items() if l != []})
    return res


def run(case, ctx):
    typ, key, j = case
    from aalpy import automata as A
    ctx.state()
    if typ in ('det', 'nd'):
        p = (pt if typ == 'det' else aa).of_key(key)
        kind, n = p.kind, p.n
        al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:p.k]
        mk = lambda order, st: (pt if typ == 'det' else aa).build(p, al, order=order, ids=IDS[j % 5](n), om=OM[j // 5 % 4], out=st)
    else:
        from checks.C37 import ALS, GS
        ref = (push.VPRef if typ == 'vpa' else push.VRef).of(key)
        kind, n, al = typ, ref.n, ALS[j % 3]

        def mk(order, st):
            if typ == 'vpa':
                m = push.build_vpa(ref, al, GS[j % 3])
            else:
                m = push.build_sevpa(ref, al)
            ids = IDS[j % 5](n)
            s0 = [x for x in m.states if x.state_id != 'ErrorSinkState']
            f = {f'q{x}': ids[x] for x in range(n)}
            for x in s0:
                x.state_id = f[x.state_id]
                if typ == 'sevpa':
                    for l in x.transitions.values():
                        for t in l:
                            if t.stack_guard:
                                t.stack_guard = (f[t.stack_guard[0]], t.stack_guard[1])
            st.extend(sorted(s0, key=lambda x: ids.index(x.state_id)))
            if order:
                m.states = [st[x] for x in order] + [x for x in m.states if x.state_id == 'ErrorSinkState' and x not in s0]
            return m
    ids = IDS[j % 5](n)
    ways = [('copy()', lambda m: m.copy()), ('copy.copy', copy.copy), ('copy.deepcopy', copy.deepcopy),
            ('state set-up', lambda m: type(m).from_state_setup(m.to_state_setup()))]
    ways += [(f'pickle {pr}', lambda m, pr=pr: pickle.loads(pickle.dumps(m, protocol=pr))) for pr in ((2, pickle.HIGHEST_PROTOCOL) if j % 3 else range(pickle.HIGHEST_PROTOCOL + 1))]
    orders = [None, list(reversed(range(n)))] if n > 1 else [None]
    for order in orders:
        for rebase in range(n) if n > 1 and j % 2 else (0,):
            st = []
            m = mk(order, st)
            if rebase:
                # the initial state changes after access words have been computed
                if hasattr(m, 'compute_prefixes'):
                    m.compute_prefixes()
                m.initial_state = st[rebase]
                m.reset_to_initial()
            d0 = aa.describe(m)
            cur = st[-1]
            m.current_state = cur
            exp = expected_setup(kind, d0)
            su = m.to_state_setup()
            what = f'{kind} {key} ids {ids} initial {d0[1]!r} order {order}'
            ctx.eq(drop_empty(kind, su), exp, f'{what}: state set-up')
            ctx.eq(next(iter(su)), d0[1], f'{what}: first state of the set-up')
            for name, f in ways:
                c = f(m)
                ctx.trace()
                ctx.trans(sum(len(x[1]) for x in d0[2].values()))
                ctx.check(type(c) is type(m), lambda: f'{what}: {name} has type {type(c).__name__}')
                ctx.eq(aa.describe(c), d0, f'{what}: {name}')
                ctx.check(c.current_state is c.initial_state or typ not in ('det', 'nd') and c.current_state is None, lambda: f'{what}: {name} does not start in its initial state')
                if typ == 'vpa':
                    ctx.check(all(t.start is s for s in c.states for l in s.transitions.values() for t in l), lambda: f'{what}: {name} has transitions that start elsewhere')
                ctx.check(m.current_state is cur, lambda: f'{what}: {name} moves the original')
                ctx.eq(aa.describe(m), d0, f'{what}: original after {name}')
                ctx.check(not (aa.containers(m) & aa.containers(c)), lambda: f'{what}: {name} shares objects with the original')
                # the copy and the original evolve separately
                for s in c.states:
                    if s.state_id != 'ErrorSinkState':
                        for l in s.transitions.values():
                            if isinstance(l, list):
                                l.clear()
                        s.transitions.clear()
                c.states.clear()
                ctx.eq(aa.describe(m), d0, f'{what}: original after emptying its {name}')
            # a set-up is a snapshot: it neither follows the automaton nor is changed or kept by the automata built from it
            before = copy.deepcopy(su)
            c = type(m).from_state_setup(su)
            ctx.eq(su, before, f'{what}: set-up after loading it')
            for v in su.values():
                tr = v if isinstance(v, dict) else v[1]
                for l in tr.values():
                    if isinstance(l, list):
                        l.clear()
                tr.clear()
            su.clear()
            ctx.eq(aa.describe(c), d0, f'{what}: automaton after emptying the set-up it was loaded from')
            ctx.eq(aa.describe(m), d0, f'{what}: automaton after emptying its set-up')
            ctx.eq(sorted(map(id, m.states if kind not in ('vpa', 'sevpa') else [s for s in m.states if s.state_id != 'ErrorSinkState'])),
                   sorted(map(id, st)), f'{what}: states of the original')
            if typ == 'det':
                R = pt.reach(p, rebase)
                for s in c.states:
                    x = ids.index(s.state_id)
                    ctx.eq(None if s.prefix is None else len(s.prefix), len(R[x]) if x in R else None, f'{what}: access word of {s.state_id!r} in a loaded automaton')
            ctx.outcome((kind, repr(exp)))
    if j % 499 == 0:
        ctx.sample(case)
