"""Equivalence checking decides bisimilarity and its counterexamples are real."""
from mc import partial as pt
from mc.build import ALPHABETS
from mc.choices import explore
from mc.props import P

META = P['C15']
CHUNK = 8
A = ['a', 'b']
_c = {}


def space(kind, tier):
    if (kind, tier) not in _c:
        L = [m for n, k in ((1, 2), (2, 2)) for m in pt.all_partial(kind, n, k, outs=2)]
        L = L[::7 if tier == 'quick' else 3] if kind == 'mealy' else L
        one = [m for n in (1, 2, 3) for m in pt.all_partial(kind, n, 1, outs=2)]
        if kind == 'mealy':
            one = one[::3]
        three = list(pt.all_partial(kind, 3, 2, outs=2, complete=True))
        st = {'dfa': 61, 'moore': 61, 'mealy': 509}[kind] * (2 if tier == 'quick' else 1) // 2
        _c[kind, tier] = (L + three[::st], one)
    return _c[kind, tier]


def cases(tier):
    for kind in ('dfa', 'moore', 'mealy'):
        for g in (0, 1):
            for i, m in enumerate(space(kind, tier)[g]):
                yield (kind, g, i)
        for i, (name, p) in enumerate(pt.bigs(kind)):
            yield (kind, 'big', i)


def run(case, ctx):
    from aalpy.utils import bisimilar, compare_automata
    kind, g, i = case
    if g == 'big':
        return run_big(ctx, kind, i)
    L = space(kind, ctx.tier)[g]
    a = L[i]
    al = ALPHABETS[('str', 'zero', 'tuple')[i % 3]][:a.k]
    A1 = pt.build(a, al)
    ctx.state()
    for j, b in enumerate(L):
        w = pt.differs(a, 0, b, 0)
        A2 = pt.build(b, al, order=tuple(reversed(range(b.n))))
        got = bisimilar(A1, A2)
        ctx.trace()
        ctx.check(isinstance(got, bool), lambda: f'bisimilar returned {got!r}')
        ctx.eq(got, w is None, f'bisimilar({a}, {b})')
        ctx.eq(A1 == A2, w is None, f'{a} == {b}')
        c = bisimilar(A1, A2, return_cex=True)
        ctx.eq(c is None, w is None, f'bisimilar(return_cex) found none for {a}, {b}')
        if c is not None:
            cw = [al.index(x) for x in c]
            ctx.check(pt.shows_difference(a, b, cw), lambda: f'{c} does not distinguish {a} and {b}')
            ctx.outcome(tuple(cw))
        if j == i:
            ctx.check(bisimilar(A1, A1) is True and A1 == A1, 'automaton differs from itself')
            ctx.eq(bisimilar(A1, A1, return_cex=True), None, 'counterexample against itself')
        # compare_automata samples tests, all of them must be real
        if g == 0 and (i + j) % (31 if ctx.tier == 'quick' else 11) == 0 and all(None not in r for r in a.cells + b.cells) \
                and a.lab(0) == b.lab(0):
            def body(c):
                cexs = compare_automata(pt.build(a, al), pt.build(b, al), num_cex=2)
                ctx.count('compare_automata')
                ctx.check(w is not None or not cexs, lambda: f'compare_automata: {cexs} for equivalent {a}, {b}')
                for x in cexs:
                    ctx.check(pt.shows_difference(a, b, [al.index(y) for y in x]), lambda: f'compare_automata: {x} does not distinguish {a} and {b}')
                ctx.check(sorted(map(len, cexs)) == list(map(len, cexs)), 'compare_automata: not sorted by length')
                ctx.check(len(cexs) <= 2 and len(set(map(tuple, cexs))) == len(cexs), 'compare_automata: too many or duplicates')
            explore(body, ctx, max_runs=4, max_dev=1, shuffle='ends')
    if i == 0 and g == 0:
        # different automaton types are refused, not compared
        for other in ('dfa', 'moore', 'mealy'):
            if other != kind:
                try:
                    bisimilar(A1, pt.build(space(other, ctx.tier)[0][0], al))
                except ValueError:
                    continue
                ctx.fail(f'{kind} and {other} were compared')
    ctx.sample((case, repr(a)))


def run_big(ctx, kind, i):
    """Larger automata against themselves, against all one-change variants and against each other."""
    from aalpy.utils import bisimilar
    L = [p for _, p in pt.bigs(kind)]
    a = L[i]
    al = ALPHABETS[('str', 'zero', 'tuple')[i % 3]][:a.k]
    A1 = pt.build(a, al)
    ctx.state(a.n)
    for b in [a] + [b for b in L if b.k == a.k] + list(pt.changes(a, full=ctx.tier != 'quick')):
        w = pt.differs(a, 0, b, 0)
        for x, y, X, Y in ((a, b, A1, pt.build(b, al)), (b, a, pt.build(b, al, order=tuple(reversed(range(b.n)))), A1)):
            ctx.trace()
            ctx.eq(bisimilar(X, Y), w is None, f'bisimilar({x}, {y})')
            c = bisimilar(X, Y, return_cex=True)
            ctx.eq(c is None, w is None, f'bisimilar(return_cex) found none for {x}, {y}')
            if c is not None:
                ctx.check(pt.shows_difference(x, y, [al.index(z) for z in c]), lambda: f'{c} does not distinguish {x} and {y}')
                ctx.outcome(len(c))
    ctx.sample((kind, i))
