"""KV for visibly pushdown systems: learns an equivalent 1-SEVPA from any truthful teacher."""
from itertools import product
from mc import push
from mc.props import P

META = P['C05']
CHUNK = 4
AL = [{('i', 0): 'x', ('i', 1): 'y', ('c', 0): '(', ('c', 1): '[', ('r', 0): ')', ('r', 1): ']'},
      {('i', 0): 0, ('i', 1): 1, ('c', 0): 2, ('c', 1): 3, ('r', 0): 4, ('r', 1): 5},
      {('i', 0): 'int', ('i', 1): 'i2', ('c', 0): 'call', ('c', 1): 'call2', ('r', 0): 'ret', ('r', 1): 'ret2'}]
for _l in ((('i', 2), 'z', 6, 'i3'), (('i', 3), 'u', 7, 'i4'), (('i', 4), 'v', 8, 'i5'), (('c', 2), '{', 9, 'call3'), (('r', 2), '}', 10, 'ret3')):
    for _a, _x in zip(AL, _l[1:]):
        _a[_l[0]] = _x
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
POL = ['first', 'last', 'long']


def tables(n, ni, nc, nr, dead, pairs=False):
    """Every table; pairs: only entries with matching indices of call and return may be live."""
    vals = list(range(n)) + ([None] if dead else [])
    live = [(s, r, g, c) for s in range(n) for r in range(nr) for g in range(n) for c in range(nc) if not pairs or r == c]
    for di in product(vals, repeat=n * ni):
        din = tuple(tuple(di[s * ni:(s + 1) * ni]) for s in range(n))
        for dr in product(vals, repeat=len(live)):
            m = dict(zip(live, dr))
            dret = tuple(tuple(tuple(m.get((s, r, g, c)) for g in range(n) for c in range(nc)) for r in range(nr)) for s in range(n))
            for acc in product((False, True), repeat=n):
                yield push.VRef(n, ni, nc, nr, din, dret, acc)


def pick(n, ni, nc, nr, dead, pairs, step, off):
    """Every step-th table by direct index (the space is not enumerated)."""
    vals = list(range(n)) + ([None] if dead else [])
    live = [(s, r, g, c) for s in range(n) for r in range(nr) for g in range(n) for c in range(nc) if not pairs or r == c]
    b = len(vals)
    total = b ** (n * ni + len(live)) * 2 ** n
    x = off
    while x < total:
        v = x
        acc = []
        for _ in range(n):
            acc.append(bool(v % 2))
            v //= 2
        dr = []
        for _ in live:
            dr.append(vals[v % b])
            v //= b
        di = []
        for _ in range(n * ni):
            di.append(vals[v % b])
            v //= b
        m = dict(zip(live, dr))
        din = tuple(tuple(di[s * ni:(s + 1) * ni]) for s in range(n))
        dret = tuple(tuple(tuple(m.get((s, r, g, c)) for g in range(n) for c in range(nc)) for r in range(nr)) for s in range(n))
        yield push.VRef(n, ni, nc, nr, din, dret, tuple(acc))
        x += step


def cases(tier):
    q = tier == 'quick'
    i = 0
    for n, ni, nc, nr, dead, pairs in ((1, 1, 1, 1, True, False), (1, 0, 1, 1, True, False), (1, 2, 1, 1, True, False), (2, 0, 1, 1, False, False),
                                       (1, 1, 2, 2, True, True), (1, 0, 2, 2, True, True), (2, 1, 1, 1, False, False), (2, 0, 1, 1, True, False)):
        for v in tables(n, ni, nc, nr, dead, pairs):
            i += 1
            yield (v.key(), i, pairs)
    for n, ni, nc, nr, dead, pairs, step in ((2, 0, 2, 1, False, False, 1), (2, 0, 1, 2, False, False, 1), (2, 1, 1, 1, True, False, 1),
                                             (1, 1, 2, 2, True, False, 1), (2, 1, 2, 1, False, False, 3 if q else 1), (2, 0, 2, 2, True, True, 31 if q else 3),
                                             (3, 0, 1, 1, False, False, 37 if q else 3), (3, 1, 1, 1, False, False, 1009 if q else 101),
                                             (3, 0, 1, 1, True, False, 499 if q else 67), (2, 1, 2, 2, False, False, 101 if q else 13),
                                             (4, 0, 1, 1, False, False, 8 * 10 ** 6 + 9 if q else 8 * 10 ** 5 + 9)):
        for v in pick(n, ni, nc, nr, dead, pairs, step, 1):
            i += 1
            yield (v.key(), i, pairs)
    for _, v in push.bigs():
        for d in range(5 if q else 15):
            i += 1
            yield (v.key(), i, False, 'big')


_T = None


def teacher(al, sul, ref, letters, policy, ctx):
    global _T
    if _T is None:
        from aalpy.base import Oracle

        class T(Oracle):
            def find_cex(self, h):
                init, acc, hint, hret, ids = push.sevpa_views(h, self.al)
                self.sizes.append(len(h.states))
                self.ctx.state(len(h.states))
                if len(self.sizes) > 30:
                    from mc.core import Violation
                    raise Violation('no convergence: more than 30 equivalence queries', 'rounds')
                R = push.product(self.ref, init, acc, hint, hret)
                self.ctx.trans(len(R))
                w = push.difference(self.ref, R, acc)
                if w is None:
                    return None
                if self.policy == 'deep':        # the longest of the shortest words to the pairs of states that differ
                    w = max((u for (s, x), u in R.items() if (s is not None and self.ref.acc[s]) != (x is not None and acc(x))), key=lambda u: (len(u), u))
                elif self.policy != 'first':
                    L = len(w) + (2 if self.policy == 'long' else 0)
                    r = self.ref
                    while True:
                        cand = []
                        for u in push.balanced(r.ni, r.nc, r.nr, L):
                            h.reset_to_initial()
                            o = h.step(None)
                            for x in u:
                                o = h.step(self.al[x])
                            if o != r.accepts(u):
                                cand.append(u)
                        if cand or L <= len(w):
                            break
                        L -= 1
                    if cand:
                        w = cand[-1]
                return tuple(self.al[x] for x in w)
        _T = T
    t = _T(letters, sul)
    t.al, t.ref, t.policy, t.ctx, t.sizes = al, ref, policy, ctx, []
    return t


def run(case, ctx):
    from aalpy import SevpaAlphabet, run_KV
    key, i, pairs = case[:3]
    big = len(case) > 3
    ref = push.VRef.of(key)
    al = AL[i % 3]
    m, dead = ref.classes()
    maxw = 5 if ref.nc + ref.nr + ref.ni <= 4 else 4 if ref.nc + ref.nr + ref.ni <= 5 else 3
    plans = [('first', CEX[i % 5]), ('last', CEX[(i // 5) % 5]), ('long', CEX[(i + 2) % 5])] if m > 1 and not big else [('first', CEX[i % 5])]
    if big:
        plans.append(('deep', CEX[(i // 2) % 5]))
    for pi, (policy, proc) in enumerate(plans):
        excl = {al[('c', c)]: al[('r', c)] for c in range(ref.nc)} if pairs and pi % 2 == 0 else None
        letters = SevpaAlphabet([al[('i', j)] for j in range(ref.ni)], [al[('c', j)] for j in range(ref.nc)], [al[('r', j)] for j in range(ref.nr)], excl)
        sul = push.vsul(ref, al)
        t = teacher(al, sul, ref, letters, policy, ctx)
        h = run_KV(letters, sul, t, 'vpa', cex_processing=proc, cache_and_non_det_check=bool((i + pi) % 2), print_level=0)
        ctx.trace()
        what = f'KV ({proc}, {policy}{", exclusive pairs" if excl else ""}) on {ref}'
        init, acc, hint, hret, ids = push.sevpa_views(h, al)
        R = push.product(ref, init, acc, hint, hret)
        w = push.difference(ref, R, acc)
        ctx.check(w is None, lambda: f'{what}: the returned model is wrong for {w}')
        ctx.check(all(t2.target_state.state_id in ids and any(t2.target_state is s for s in h.states) for s in h.states for l in s.transitions.values() for t2 in l),
                  f'{what}: transition to a removed state')
        if not excl:
            ctx.check(len(h.states) in ((m - 1, m) if dead and m > 1 else (m,)), lambda: f'{what}: {len(h.states)} states, {m} congruence classes')
        else:
            ctx.check(len(h.states) <= m, lambda: f'{what}: {len(h.states)} states, {m} congruence classes')
        # execute the model on every word
        for L in range(maxw + 1):
            for wd in product(ref.letters(), repeat=L):
                if pi and (not wd or wd[0][0] == 'r'):
                    continue
                h.reset_to_initial()
                got = [h.step(None)] + [h.step(al[x]) for x in wd]
                ctx.check(got == [ref.acc[0]] + ref.run(wd), lambda: f'{what}: outputs {got} on {wd}')
        for wd in R.values() if big else ():
            h.reset_to_initial()
            got = [h.step(None)] + [h.step(al[x]) for x in wd + wd]
            ctx.check(got == [ref.acc[0]] + ref.run(wd + wd), lambda: f'{what}: outputs {got} on {wd + wd}')
        for s in h.states:
            if any(t2.letter is not None for l in s.transitions.values() for t2 in l):
                pass
            h.reset_to_initial()
            for a in s.prefix:
                h.step(a)
            ctx.check(h.current_state is s and not h.error_state_reached, lambda: f'{what}: access word {s.prefix} of {s.state_id} does not lead to it')
        ctx.outcome((m, dead, tuple(t.sizes), len(R)))
    ctx.sample(case)
