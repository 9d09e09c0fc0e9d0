"""Distinguishing sequences and characterization sets separate states, minimality is decided exactly."""
from itertools import product
from mc import partial as pt
from mc.build import ALPHABETS
from mc.ref import family, machines
from mc.props import P

META = P['C17']
CHUNK = 16


of_ref = pt.of_ref


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (4, 1)):
            step = 5 if (kind == 'mealy' and n == 4) else 1
            for i, m in enumerate(pt.all_partial(kind, n, k, outs=3 if kind == 'moore' and n < 3 else 2, complete=True)):
                if i % step == 0:
                    yield (m.key(), i)
        step = {'dfa': 1, 'moore': 2, 'mealy': 11}[kind] if q else {'dfa': 1, 'moore': 1, 'mealy': 1}[kind]
        for i, m in enumerate(pt.all_partial(kind, 3, 2, complete=True)):
            if i % step == 0:
                yield (m.key(), i)
        for k in (2, 3):
            for _, f in family(kind, k):
                yield (of_ref(f).key(), 0)
        for j, (_, p) in enumerate(pt.bigs(kind, ('full', 'twice', 'tail'))):
            if p.n <= (19 if q else 32):
                yield (p.key(), j)
        if not q:
            for i, m in enumerate(machines(kind, 4, 2)):
                if i % (7 if kind != 'mealy' else 503) == 0:
                    yield (of_ref(m).key(), i)


def outs(p, s, w):
    """answer of the library's convention: label for the empty word, else the outputs along the word"""
    if not w:
        return [p.so[s]] if p.so is not None else []
    r = []
    for i in w:
        c = p.cells[s][i]
        r.append(c[1] if p.kind == 'mealy' else p.so[c[0]])
        s = c[0]
    return r


def run(case, ctx):
    key, idx = case
    p = pt.of_key(key)
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[idx % 4]][:p.k]
    st = []
    m = pt.build(p, al, out=st)
    ctx.state()
    where = m.current_state = st[-1]
    num = {id(s): j for j, s in enumerate(st)}
    # words: single-step and sequence outputs leave the current state alone
    for s in range(p.n):
        for i, a in enumerate(al):
            ctx.eq(m.output_step(st[s], a), outs(p, s, (i,))[0], f'{p}: output_step')
        for w in [w for n in range(0, 4 if p.n <= 3 else 3) for w in product(range(p.k), repeat=n)]:
            ctx.eq(list(m.compute_output_seq(st[s], tuple(al[i] for i in w))), outs(p, s, w), f'{p}: compute_output_seq from {s} on {w}')
            ctx.trans(len(w))
    ctx.check(m.current_state is where, 'current state changed by output_step / compute_output_seq')
    minimal = True
    for x in range(p.n):
        for y in range(p.n):
            w = pt.differs(p, x, p, y)
            d = m.find_distinguishing_seq(st[x], st[y], al)
            ctx.eq(d is None, w is None, f'{p}: states {x},{y} have a distinguishing sequence')
            if x != y and w is None:
                minimal = False
            if d is not None:
                dw = [al.index(a) for a in d]
                ctx.check(outs(p, x, dw) != outs(p, y, dw), lambda: f'{p}: {d} does not distinguish {x} and {y}')
                ctx.eq(len(d), len(w), f'{p}: length of the distinguishing sequence of {x},{y}')
    ctx.check(m.current_state is where, 'current state changed by find_distinguishing_seq')
    ctx.eq(m.is_minimal(), minimal, f'{p}: is_minimal')
    inits = [None, [], [(a,) for a in al], [(al[0], al[-1])], [()], [(al[-1],), (al[-1], al[0], al[0])]]
    for init in inits:
        for closure in (True, False):
            for split in (True, False):
                arg = None if init is None else list(init)
                cs = m.compute_characterization_set(char_set_init=arg, online_suffix_closure=closure, split_all_blocks=split, raise_warning=False)
                what = f'{p}: characterization set (init={init}, closure={closure}, split_all={split})'
                ctx.trace()
                ctx.eq(arg, None if init is None else list(init), f'{what}: argument changed')
                ctx.eq(cs is None, not minimal, f'{what}: is None')
                ctx.check(m.current_state is where, f'{what}: current state changed')
                if cs is None:
                    continue
                ctx.check(all(isinstance(c, tuple) for c in cs) and len(set(cs)) == len(cs), f'{what}: {cs} is no set of tuples')
                idxs = [[al.index(a) for a in c] for c in cs]
                rows = {tuple(tuple(outs(p, s, w)) for w in idxs) for s in range(p.n)}
                ctx.eq(len(rows), p.n, f'{what}: {cs} separates states')
                ctx.check(all(tuple(i) in cs for i in init or []), lambda: f'{what}: {cs} lacks given sequences')
                if closure and not init:
                    ctx.check(all(c[1:] in cs for c in cs if len(c) > 1), lambda: f'{what}: {cs} is not suffix closed')
                ctx.outcome((len(cs), max(map(len, cs), default=0)))
            s1, s2 = m.compute_characterization_set(char_set_init=None if init is None else list(init), online_suffix_closure=closure,
                                                    return_same_states=True, raise_warning=False)
            ctx.eq(s1 is None, minimal, f'{p}: reports no equivalent states')
            if s1 is not None:
                ctx.check(s1 is not s2 and pt.differs(p, num[id(s1)], p, num[id(s2)]) is None, lambda: f'{p}: reported states are not equivalent')
    ctx.sample(case)
