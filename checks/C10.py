"""System adapters answer like the thing they wrap."""
from itertools import product
from mc.ref import machines, from_key, words
from mc.build import ALPHABETS, build
from mc.props import P

META = P['C10']
CHUNK = 8
MAXW = 4


# ---- regular expressions: syntax trees with a set-based language semantics (words up to MAXW)
def exprs(tier):
    atoms = [('lit', 'a'), ('lit', 'b'), ('any',), ('cls', 'ab'), ('not', 'a'), ('opt0',)]
    d1 = list(atoms)
    un = ('*', '+', '?')
    d2 = [(u, a) for u in un for a in atoms[:4]] + [(o, a, b) for o in ('cat', 'alt') for a in atoms for b in atoms]
    yield from d1
    yield from d2
    base = atoms[:2] + [('alt', ('lit', 'a'), ('lit', 'b')), ('cat', ('lit', 'a'), ('lit', 'b')), ('*', ('lit', 'a')),
                        ('+', ('lit', 'b')), ('?', ('lit', 'a')), ('alt', ('lit', 'a'), ('opt0',)), ('cat', ('lit', 'b'), ('any',))]
    d3 = [(u, a) for u in un for a in base] + [(o, a, b) for o in ('cat', 'alt') for a in base for b in base]
    yield from d3
    pool = d3[:: 5 if tier == 'quick' else 1]
    for a in pool:
        for b in base:
            yield ('cat', a, b)
            yield ('alt', a, b)
            yield ('alt', b, a)
        for u in un:
            yield (u, a)
    for k in ('\\$', '\\.', '\\d'):
        yield ('raw', k)


def text(e, ctx=0):
    """ctx 0: top, 1: inside concatenation, 2: operand of a postfix operator."""
    t = e[0]
    if t == 'lit':
        return e[1]
    if t == 'any':
        return '.'
    if t == 'cls':
        return '[ab]'
    if t == 'not':
        return '[^a]'
    if t == 'opt0':
        return '(?:)'
    if t == 'raw':
        return e[1]
    if t == 'cat':
        s = text(e[1], 1) + text(e[2], 1)
        return f'({s})' if ctx > 1 else s
    if t == 'alt':
        s = text(e[1], 0) + '|' + text(e[2], 0)
        return f'({s})' if ctx > 0 else s
    s = text(e[1], 2) + t
    return f'({s})' if ctx > 1 else s


def lang(e, sigma, n):
    t = e[0]
    if t == 'lit':
        return {e[1]}
    if t == 'any':
        return set(sigma) - {'\n'}
    if t == 'cls':
        return {'a', 'b'} & set(sigma)
    if t == 'not':
        return set(sigma) - {'a'}
    if t == 'opt0':
        return {''}
    if t == 'raw':
        return {'\\$': {'$'}, '\\.': {'.'}, '\\d': {c for c in sigma if c.isdigit()}}[e[1]]
    if t == 'cat':
        x, y = lang(e[1], sigma, n), lang(e[2], sigma, n)
        return {a + b for a in x for b in y if len(a + b) <= n}
    if t == 'alt':
        return lang(e[1], sigma, n) | lang(e[2], sigma, n)
    x = lang(e[1], sigma, n)
    if t == '?':
        return x | {''}
    acc, cur = set(), {''}
    while cur - acc:
        acc |= cur
        cur = {a + b for a in cur for b in x if len(a + b) <= n}
    if t == '*':
        return acc
    return {a + b for a in acc for b in x if len(a + b) <= n}


# ---- Tomita languages, stated independently as small automata (None = reject sink)
def tomita_ref(n, w):
    if n == 1:
        return all(c == '1' for c in w)
    if n == 2:
        return len(w) % 2 == 0 and all(c == '10'[i % 2] for i, c in enumerate(w))
    if n == 3:      # no odd block of 0s anywhere after an odd block of 1s
        blocks = []
        for c in w:
            if blocks and blocks[-1][0] == c:
                blocks[-1][1] += 1
            else:
                blocks.append([c, 1])
        return not any(a[0] == '1' and a[1] % 2 and b[0] == '0' and b[1] % 2 for i, a in enumerate(blocks) for b in blocks[i:])
    if n == -3:
        return not tomita_ref(3, w)
    if n == 4:
        r = 0
        for c in w:
            r = r + 1 if c == '0' else 0
            if r == 3:
                return False
        return True
    if n == 5:
        return sum(c == '0' for c in w) % 2 == 0 and sum(c == '1' for c in w) % 2 == 0
    if n == 6:
        return sum(1 if c == '0' else -1 for c in w) % 3 == 0
    if n == 7:
        return sum(1 for a, b in zip(w, w[1:]) if a == '1' and b == '0') <= 1


def cases(tier):
    for e in exprs(tier):
        yield ('regex', e)
    for n in (1, 2, 3, -3, 4, 5, 6, 7):
        for ty in ('str', 'int'):
            yield ('tomita', n, ty, 10 if tier == 'quick' else 13)
    for kind in ('dfa', 'moore', 'mealy'):
        for k, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2)):
            for m in machines(kind, n, k):
                yield ('auto', m.key())
    for d in range(1, 4 if tier == 'quick' else 5):
        yield ('pyclass', d)
    for i in range(len(PAIRS)):
        yield ('several', i)
    for i in range(len(TOKENS)):
        yield ('tokens', i)
    for i in range(len(LONG)):
        yield ('long', i)


def run(case, ctx):
    if case[0] == 'regex':
        run_regex(ctx, case[1])
    elif case[0] == 'tomita':
        run_tomita(ctx, *case[1:])
    elif case[0] == 'auto':
        run_auto(ctx, from_key(case[1]))
    elif case[0] == 'several':
        run_several(ctx, PAIRS[case[1]])
    elif case[0] == 'tokens':
        run_tokens(ctx, *TOKENS[case[1]])
    elif case[0] == 'long':
        run_long(ctx, LONG[case[1]])
    else:
        run_pyclass(ctx, case[1])
    ctx.state()


def tt(x):
    return tuple(tt(y) if isinstance(y, (list, tuple)) else y for y in x)


def run_regex(ctx, e):
    from aalpy.SULs import RegexSUL
    e = tt(e)
    sigma = ('a', 'b', '\n') if e[0] != 'raw' else ('$', '.', '1', 'a')
    n = MAXW - 1 if e[0] == 'raw' else MAXW
    want = lang(e, sigma, n)
    for rx in (text(e), text(e) + '$' if e[0] != 'alt' else text(e)):
        sul = RegexSUL(rx)
        for k in range(n + 1):
            for w in product(sigma, repeat=k):
                got = sul.query(w)
                exp = [''.join(w[:j]) in want for j in range(1, k + 1)] if k else ['' in want]
                ctx.check(got == exp and all(type(x) is bool for x in got), lambda: f'regex {rx!r} on {w!r}: {got}, expected {exp}')
                ctx.trace()
                ctx.trans(k)
        sul.pre()
        ctx.eq([sul.step(None), sul.step('a'), sul.step(None)], ['' in want, 'a' in want, 'a' in want], f'regex {rx!r} with empty steps')
        sul.post()
    ctx.outcome(tuple(sorted(want)))


def run_tomita(ctx, n, ty, depth):
    from aalpy.SULs import TomitaSUL
    sul = TomitaSUL(n)
    for k in range(depth + 1):
        if k in range(2, depth - 1) and k not in (2, 3):
            continue        # longer words answer all their prefixes
        for w in product('01', repeat=k):
            got = sul.query(tuple(int(c) for c in w) if ty == 'int' else w)
            exp = [tomita_ref(n, w[:j]) for j in range(1, k + 1)] if k else [tomita_ref(n, ())]
            ctx.check([bool(g) for g in got] == exp, lambda: f'tomita {n} on {w}: {got}, expected {exp}')
            ctx.trace()
            ctx.trans(k)
            ctx.outcome((n, tuple(exp)))


def run_auto(ctx, ref):
    import aalpy.SULs as S
    A = ALPHABETS['mixed'][:ref.k]
    cls = {'dfa': S.DfaSUL, 'moore': S.MooreSUL, 'mealy': S.MealySUL}[ref.kind]
    for sul in (cls(build(ref, A)), S.AutomatonSUL(build(ref, A))):
        for w in words(ref.k, 0 if ref.kind != 'mealy' else 1, 4):
            got = sul.query(tuple(A[i] for i in w))
            exp = ref.outputs(w) if w else [ref.out[0]]
            ctx.eq(got, exp, f'automaton system on {w}')
            ctx.trace()
            ctx.trans(len(w))
    ctx.outcome(ref.key())


class Target:
    made = 0

    def __init__(self):
        type(self).made += 1
        self.calls = []

    def f(self, *a):
        self.calls.append(a)
        return ('f', len(self.calls), a)

    def g(self, *a):
        return ('g', len(self.calls), a)

    def h(self, x=7, y=9):
        self.calls.append((x, y))
        return (x, y)


def run_pyclass(ctx, depth):
    from aalpy.SULs import PyClassSUL, FunctionDecorator
    ARGS = [None, 0, False, '', 1, 'ab', [], (), [0], (0,), [None], [1, 2], (1, ''), 0.0, {}]
    letters = [(fn, a) for fn in ('f', 'g') for a in ARGS] + [('h', a) for a in (None, 0, [0, 0], (1, 2))]
    if depth > 2:
        letters = letters[::3]
    decs = [FunctionDecorator(getattr(Target, fn), a) if a is not None else FunctionDecorator(getattr(Target, fn)) for fn, a in letters]
    sul = PyClassSUL(Target)
    for idx in product(range(len(letters)), repeat=depth):
        m0 = Target.made
        got = sul.query(tuple(decs[i] for i in idx))
        ref, exp = [], []
        for i in idx:
            fn, a = letters[i]
            call = () if a is None else tuple(a) if isinstance(a, (list, tuple)) else (a,)
            if fn == 'f':
                ref.append(call)
                exp.append(('f', len(ref), call))
            elif fn == 'g':
                exp.append(('g', len(ref), call))
            else:
                full = call + (7, 9)[len(call):]
                ref.append(full)
                exp.append(full)
        ctx.check(repr(got) == repr(exp), lambda: f'class system on {[letters[i] for i in idx]}: {got!r}, expected {exp!r}')
        ctx.eq(Target.made - m0, 1, 'instances created per query')
        ctx.trace()
        ctx.trans(depth)
        ctx.outcome(repr(exp))
    texts = {repr(d) for d in decs}
    ctx.check(all(isinstance(t, str) for t in texts), 'printable letters')


# ---- two systems of the same sort which are used alternately, and restarts in the middle of a word
class Counter:
    def __init__(self):
        self.n = 0

    def up(self, by=1):
        self.n += by
        return self.n

    def get(self):
        return self.n


class Twice(Counter):
    def up(self, by=1):
        self.n += 2 * by
        return self.n


def makers():
    from aalpy.SULs import RegexSUL, TomitaSUL, PyClassSUL, FunctionDecorator, AutomatonSUL
    dec = [FunctionDecorator(Counter.up), FunctionDecorator(Counter.up, 3), FunctionDecorator(Counter.get)]

    def count(f):
        def ans(w):
            n = 0
            for x in w:
                n += f * (1, 3, 0)[x]
            return n if w else None
        return ans
    m1, m2 = [m for m in machines('moore', 2, 2) if m.is_minimal()][:2]
    A = ['a', 'b']
    return {
        'regex1': (lambda: RegexSUL('(ab)*'), A, lambda w: all(x == i % 2 for i, x in enumerate(w)) and len(w) % 2 == 0),
        'regex2': (lambda: RegexSUL('a+b?$'), A, lambda w: bool(w) and w[0] == 0 and 1 not in w[:-1]),
        'tomita4': (lambda: TomitaSUL(4), ['0', '1'], lambda w: not any(w[i:i + 3] == (0, 0, 0) for i in range(len(w)))),
        'tomita7': (lambda: TomitaSUL(7), [0, 1], lambda w: sum(a == 1 and b == 0 for a, b in zip(w, w[1:])) <= 1),
        'class1': (lambda: PyClassSUL(Counter), dec, count(1)),
        'class2': (lambda: PyClassSUL(Twice), dec, count(2)),
        'auto1': (lambda: AutomatonSUL(build(m1, A)), A, lambda w: m1.out[m1.state(w)]),
        'auto2': (lambda: AutomatonSUL(build(m2, A)), A, lambda w: m2.out[m2.state(w)]),
    }


PAIRS = [(a, b) for a, b in (('regex1', 'regex2'), ('regex1', 'regex1'), ('tomita4', 'tomita7'), ('tomita7', 'tomita7'), ('class1', 'class2'),
                             ('class1', 'class1'), ('class2', 'class1'), ('auto1', 'auto2'), ('auto1', 'auto1'))]


def run_several(ctx, names):
    """All histories of 5 (6) operations (reset or one of two letters on one of two systems)."""
    mk = makers()
    for ops in product(range(6), repeat=5 if ctx.tier == 'quick' else 6):
        suls = [mk[n][0]() for n in names]
        word = [(), ()]
        for s in suls:
            s.pre()
        for o in ops:
            i, a = o % 2, o // 2
            if a == 2:
                suls[i].pre()
                word[i] = ()
                continue
            if names[i].startswith('class') and ops[0] > 2:
                a = 2 - a           # the letter without effect instead
            word[i] += (a,)
            got = suls[i].step(mk[names[i]][1][a])
            want = mk[names[i]][2](word[i])
            ctx.check(got == want, lambda: f'{names[i]} answers {got!r} to {word[i]} (expected {want!r}) while {names[1 - i]} received {word[1 - i]}')
        ctx.trace()
        ctx.trans(len(ops))
    ctx.outcome(names)


# ---- letters of several characters (or numbers): the language is over the concatenation
TOKENS = [('(ab)*', ('ab', 'a', 'b'), {''} | {'ab' * i for i in range(1, 9)}),
          ('10*', (1, 10, 0, '00'), {'1' + '0' * i for i in range(12)}),
          ('a(bc|b)$', ('a', 'bc', 'b', 'c'), {'abc', 'ab'}),
          ('-?1|2', (-1, 1, 2, '-'), {'-1', '1', '2'}),
          ('True|None', (True, 'None', 'Tr', 'ue'), {'True', 'None'}),
          ('', ('a', 'b'), {''})]


def run_tokens(ctx, rx, letters, want):
    from aalpy.SULs import RegexSUL
    if not rx:
        return
    sul = RegexSUL(rx)
    for k in range(5):
        for w in product(letters, repeat=k):
            got = list(sul.query(w))
            exp = [''.join(map(str, w[:j])) in want for j in range(1, k + 1)] or ['' in want]
            ctx.eq(got, exp, f'regex {rx!r} on letters {w!r}')
            ctx.trace()
            ctx.trans(k)
    ctx.outcome(rx)


# ---- long words: every prefix is answered
LONG = ['regex1', 'regex2', 'tomita4', 'tomita7', 'class1', 'class2', 'auto1', 'auto2']


def run_long(ctx, name):
    mk, al, ans = makers()[name]
    sul = mk()
    for per in words(len(al), 1, 4):
        for tail in words(len(al), 0, 1):
            w = (tuple(per) * 60)[:60] + tuple(tail)
            got = list(sul.query(tuple(al[i] for i in w)))
            ctx.eq(got, [ans(w[:j]) for j in range(1, len(w) + 1)], f'{name} on the long word {w}')
            ctx.trace()
            ctx.trans(len(w))
    ctx.outcome(name)
