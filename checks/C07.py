"""Query cache: every operation history gives the same answers as the bare system, and no repeated execution."""
from mc.ref import machines, big, from_key, words
from mc.build import ALPHABETS, ref_sul
from mc.active import OUTMAPS

from mc.props import P
META = P['C07']
CHUNK = 2


def cases(tier):
    d = 3 if tier == 'quick' else 4
    pool = []
    for kind in ('dfa', 'moore', 'mealy'):
        ms = list(machines(kind, 2, 2, minimal=True))
        pool += ms if tier != 'quick' else ms[::max(1, len(ms) // 12)]
    for j, m in enumerate(pool):
        for cache in ('tree', 'dict'):
            an = ('str', 'zero', 'mixed', 'tuple')[j % 4]
            om = 'id' if m.kind == 'dfa' else ('id', 'falsy', 'str')[j % 3]
            yield (m.key(), cache, an, om, d, '')
    # three letters, longer words, shallower histories
    for kind in ('dfa', 'mealy'):
        for m in list(machines(kind, 2, 3, minimal=True))[:: 40 if tier == 'quick' else 10]:
            for cache in ('tree', 'dict'):
                yield (m.key(), cache, 'word', 'id', 2, 'long')
    for kind in ('dfa', 'moore', 'mealy'):
        for j, (_, m) in enumerate(big(kind)):
            for cache in ('tree', 'dict'):
                yield (m.key(), cache, ('str', 'zero', 'mixed', 'tuple')[j % 4], 'id' if m.kind == 'dfa' else ('id', 'falsy', 'str')[j % 3], 0, 'big')


def long_history(ref, A, f, cache, ctx):
    """One history of some thousand operations on a larger system, checked after every operation: long words, their
    prefixes and extensions, interactive runs and repetitions in both orders."""
    from aalpy.base.SUL import CacheSUL
    acc = ref.access()
    base_words = list(words(ref.k, 0, 3 if ref.k < 4 else 2))
    W = base_words + [acc[s] + w for s in sorted(acc) for w in base_words if len(w) < 3]
    W += [tuple((i * i + j) % ref.k for i in range(n)) for j in range(ref.k) for n in (17, 40, 41, 120)]
    mid = len(W) // 2
    ops = [('q', w) for w in W] + [('i', w) for w in W[mid:]] + [('q', w) for w in reversed(W)] + [('n', w) for w in W[::3]] + [('q', w[:len(w) // 2]) for w in W] + \
        [('q', w + w) for w in W[::2]] + [('s', w + (0,)) for w in W[::5]] + [('q', w + (0,)) for w in W]
    base = ref_sul(ref, A, f)
    c = CacheSUL(base, cache)
    known, nq, ns, nc = set(), 0, 0, 0
    for n, (op, w) in enumerate(ops):
        word, exp, log0 = tuple(A[i] for i in w), [f(o) for o in ref.outputs(w)], len(base.log)
        if op == 'q':
            hit = bool(w) and w in known
            got = list(c.query(word if n % 2 else list(word)))
            nc, nq, ns = nc + hit, nq + (not hit), ns + (0 if hit else len(w))
            want = exp if w else [f(ref.out[0]) if ref.kind != 'mealy' else None]
            ctx.check(got == want and repr(got) == repr(want), lambda: f'query {n}: {word!r} -> {got!r}, the system answers {want!r}')
            ctx.check([tuple(x) for x in base.log[log0:]] == ([] if hit else [word]), lambda: f'query {n}: {word!r} (cached: {hit}) executed {base.log[log0:]}')
        elif op == 's':
            c.cache.add_to_cache(word, tuple(exp))
        else:
            c.pre()
            if op == 'n':
                c.step(None)
            got = [c.step(a) for a in word]
            c.post()
            ctx.check(got == exp, lambda: f'operation {n}: stepping {word!r} -> {got!r}, expected {exp!r}')
            ctx.check([tuple(x) for x in base.log[log0:]] == [word], lambda: f'operation {n}: stepping {word!r} executed {base.log[log0:]}')
        known |= {w[:j] for j in range(1, len(w) + 1)}
        ctx.eq((c.num_queries, c.num_steps, c.num_cached_queries), (nq, ns, nc), f'counters after operation {n} {op} {word}')
        ctx.check(not base.protocol, lambda: str(base.protocol))
        ctx.state()
        ctx.trans(len(w))
    ctx.trace()
    ctx.outcome((cache, nq, ns, nc))


def run(case, ctx):
    from aalpy.base.SUL import CacheSUL
    key, cache, an, om, depth, plan = case
    ref = from_key(key)
    A = ALPHABETS[an][:ref.k]
    f, _ = OUTMAPS[om]
    if plan == 'big':
        return long_history(ref, A, f, cache, ctx)
    maxw = 3 if plan == 'long' else 2
    W = list(words(ref.k, 0, maxw))
    ops = [('q', w, t) for w in W for t in ('t', 'l') if t == 't' or len(w) == maxw] + [('i', w, '') for w in W]
    ops += [('n', w, '') for w in W if len(w) == 1]           # interactive run preceded by step(None)
    samples = [('s', w, '') for w in W if len(w) == maxw]
    exp = {w: [f(o) for o in ref.outputs(w)] for w in W}

    def replay(hist):
        base = ref_sul(ref, A, f)
        c = CacheSUL(base, cache)
        known = set()
        nq = ns = nc = 0
        for n, (op, w, t) in enumerate(hist):
            word = tuple(A[i] for i in w)
            word = list(word) if t == 'l' else word
            log0 = len(base.log)
            last = n == len(hist) - 1
            if op == 'q':
                got = c.query(word)
                hit = len(w) > 0 and w in known
                if hit:
                    nc += 1
                else:
                    nq += 1
                    ns += len(w)
                if last:
                    want = exp[w] if w else [f(ref.out[0]) if ref.kind != 'mealy' else None]
                    ctx.check(list(got) == want and [type(x) for x in got] == [type(x) for x in want],
                              lambda: f'query {word!r} -> {list(got)!r}, the system answers {want!r}; history {hist}')
                    new = base.log[log0:]
                    ctx.check(new == ([] if hit else [tuple(word)]),
                              lambda: f'query {word!r} (cached: {hit}) executed {new} on the system; history {hist}')
            elif op == 's':
                c.cache.add_to_cache(word, tuple(exp[w]))
            else:
                c.pre()
                if op == 'n':
                    c.step(None)
                got = [c.step(a) for a in word]
                c.post()
                if last:
                    ctx.check(got == exp[w], lambda: f'stepping {word!r} -> {got!r}, expected {exp[w]!r}; history {hist}')
                    ctx.check(base.log[log0:] == [tuple(word)], f'stepping {word!r} executed {base.log[log0:]}')
            known |= {w[:j] for j in range(1, len(w) + 1)}
            if last:
                ctx.eq((c.num_queries, c.num_steps, c.num_cached_queries), (nq, ns, nc),
                       f'counters (queries, steps, cached) after {hist}')
                ctx.check(not base.protocol, lambda: f'{base.protocol}; history {hist}')
                ctx.outcome((op, w, w in known, tuple(map(repr, exp[w]))))
        # what was executed, and where the last operation left the system (hidden cursors of the cache depend on it)
        return frozenset(known), hist[-1][0], hist[-1][1]

    # explicit-state search: histories with the same executed words and the same last operation are merged
    seen = {}
    frontier = [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for op in ops + samples:
                h2 = h + (op,)
                k = (replay(h2), len(h2))
                ctx.trans()
                ctx.trace()
                if k not in seen:
                    seen[k] = h2
                    ctx.state()
                    nxt.append(h2)
        frontier = nxt
    ctx.sample((case, len(seen)))
