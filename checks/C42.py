"""Shipped benchmark systems: languages, distributions and reactions are the documented ones."""
import os
import string
from itertools import product
from mc import anyaut as aa
from mc.choices import explore
from mc.props import P

META = P['C42']
CHUNK, CASE_CPU = 1, 300


# ---------------------------------------------------------------- languages, stated independently of any automaton
class Dyck:
    """Non-empty well-matched words; between brackets any sequence of the given blocks."""

    def __init__(self, pairs, blocks=()):
        self.pairs = {p[0]: p[1] for p in pairs}
        self.blocks = blocks
        self.inner = sorted({c for b in blocks for c in b})
        self.letters = sorted(self.pairs) + sorted(self.pairs.values()) + self.inner

    start = ((), '', False)

    def step(self, s, a):
        stack, part, some = s
        if a in self.inner:
            part += a
            if part in self.blocks:
                return stack, '', True
            return (stack, part, some) if any(b.startswith(part) for b in self.blocks) else None
        if part:
            return None
        if a in self.pairs:
            return stack + (a,), '', True
        return (stack[:-1], '', some) if stack and self.pairs[stack[-1]] == a else None

    def member(self, s):
        return not s[0] and not s[1] and s[2]


class Nested:
    """n >= 1 opening words followed by n closing words; `match`: what must close an opening word (else any)."""

    def __init__(self, opening, closing, match=None):
        self.op, self.cl, self.match = opening, closing, match
        self.letters = sorted({c for w in opening for c in w} | {c for w in closing for c in w})

    start = ((), '', False)

    def step(self, s, a):
        stack, part, back = s
        part += a
        if not back:
            if part in self.op:
                return stack + (part,), '', False
            if any(w.startswith(part) for w in self.op):
                return stack, part, False
        if not stack:
            return None
        ok = [w for w in self.cl if self.match is None or self.match[stack[-1]] == w]
        if part in ok:
            return stack[:-1], '', True
        return (stack, part, True) if any(w.startswith(part) for w in ok) else None

    def member(self, s):
        return s[2] and not s[0] and not s[1]


class Depth:
    """(^n )^n for the n that satisfy the predicate."""
    letters = ['(', ')']
    start = (0, 0)

    def __init__(self, good):
        self.good = good

    def step(self, s, a):
        n, m = s
        if a == '(':
            return (n + 1, 0) if not m else None
        return (n, m + 1) if m < n else None

    def member(self, s):
        return s[0] == s[1] and s[0] > 0 and self.good(s[0])


class Prime:
    """Well-matched words whose first bracket is closed by the last letter."""
    letters = ['a', 'b']
    start = (0, False)

    def step(self, s, a):
        d, done = s
        if done:
            return None
        if a == 'a':
            return d + 1, False
        return (d - 1, d == 1) if d else None

    def member(self, s):
        return s[1]


class Sums:
    """Sums of 1 with brackets."""
    letters = ['(', ')', '+', '1']
    start = (0, False)

    def step(self, s, a):
        d, value = s
        if a == '1' or a == '(':
            return None if value else (d + (a == '('), a == '1')
        if not value:
            return None
        return (d, False) if a == '+' else (d - 1, True) if d else None

    def member(self, s):
        return s == (0, True)


D1, D2, D3, D4 = Dyck(['()']), Dyck(['()', '[]']), Dyck(['()', '[]', '{}']), Dyck(['()', '[]', '{}', '<>'])
LANG = {'vpa_L1': Nested(['a'], ['b']), 'vpa_L2': Nested(['a', 'b'], ['c', 'd']), 'vpa_for_L3': Nested(['ab', 'cd'], ['ef', 'gh']),
        'vpa_L3': Nested(['ab'], ['cd']), 'vpa_L4': D2, 'vpa_L6': D3, 'vpa_L8': D4, 'vpa_L9': Nested(['(', '['], [')', ']'], {'(': ')', '[': ']'}),
        'vpa_L10': Dyck(['()'], ('a', 'b', 'c')), 'vpa_L11': Dyck(['()', '[]'], ('a', 'b', 'c')), 'vpa_L12': Dyck(['()'], ('abc', 'd')),
        'vpa_for_L16': Prime(), 'vpa_for_odd_parentheses': Depth(lambda n: n % 2), 'vpa_for_even_parentheses': None,
        'sevpa_for_L1': Nested(['a'], ['b']), 'sevpa_for_L2': Nested(['a', 'b'], ['c', 'd']), 'sevpa_for_L3': Nested(['ab', 'cd'], ['ef', 'gh'], {'ab': None}),
        'sevpa_for_L4': Nested(['ab'], ['cd']), 'sevpa_for_L5': Nested(['abc'], ['def']), 'sevpa_for_L7': D2, 'sevpa_for_L8': D3, 'sevpa_for_L9': D4,
        'sevpa_for_L12': Nested(['(', '['], [')', ']'], {'(': ')', '[': ']'}), 'sevpa_for_L13': Dyck(['()'], ('a', 'b', 'c')),
        'sevpa_for_L14': Dyck(['()', '[]'], ('a', 'b', 'c')), 'sevpa_for_L15': Dyck(['()'], ('abc', 'd')), 'arithmetics.dot': Sums(), 'vpa_json': None}
LANG['sevpa_for_L3'] = LANG['vpa_for_L3']
MODELS = ('get_faulty_coffee_machine_MDP', 'get_weird_coffee_machine_MDP', 'get_faulty_coffee_machine_SMM', 'get_minimal_faulty_coffee_machine_SMM',
          'get_faulty_mqtt_SMM', 'get_small_gridworld', 'get_small_pomdp', 'get_benchmark_ONFSM', 'get_ONFSM')


def cases(tier):
    for name in LANG:
        yield ('language', name)
    for name in MODELS:
        yield ('model', name)
    for what in ('coffee', 'gridworld', 'angluin', 'date', 'mqtt', 'arithmetic'):
        yield (what,)
    for i in range(4):
        for empty in (False, True):
            yield ('balanced', i, empty)


def accepts(m, w):
    m.reset_to_initial()
    r = m.step(None)
    for a in w:
        r = m.step(a)
    return r


def compare(ctx, what, answer, lang, full, deep):
    """All words over the alphabet up to a length and, beyond it, all words whose longest proper prefix can still become a member."""
    L, n = lang.letters, 0
    todo = [((), lang.start)]
    while todo:
        w, s = todo.pop()
        n += 1
        want = s is not None and lang.member(s)
        ctx.check(bool(answer(w)) == want, lambda: f'{what}: {"".join(w)!r} is {"rejected" if want else "accepted"}')
        if len(w) < (full if s is None else deep):
            for a in L:
                todo.append((w + (a,), None if s is None else lang.step(s, a)))
    ctx.trans(n)
    ctx.outcome((what, n))


def bounds(k, tier):
    """Lengths such that the words stay countable."""
    cap = 60000 if tier == 'quick' else 1500000
    full = max(n for n in range(1, 13) if k ** n <= cap)
    return full, full + 2


def language(name, ctx):
    from aalpy.utils import BenchmarkVpaModels as V, BenchmarkSevpaModels as S, load_automaton_from_file
    if name.endswith('.dot'):
        m = load_automaton_from_file(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'DotModels', name), 'vpa')
    else:
        try:
            m = getattr(S if name.startswith('sevpa') else V, name)()
        except KeyError as e:
            ctx.fail(f'{name} cannot be built: KeyError {e}', sig=f'{name} KeyError')
    if name == 'vpa_json':
        ctx.check(any(s.is_accepting for s in m.states), f'{name} accepts nothing')
        return
    al = m.get_input_alphabet()
    parts = [list(al.internal_alphabet), list(al.call_alphabet), list(al.return_alphabet)]
    merged = [str(x) for x in sum(parts, [])]
    letter = {str(x): x for x in sum(parts, [])}      # arithmetics.dot: the loader reads 1 as a number
    if name == 'vpa_for_even_parentheses':
        # well-matched words with an even number of pairs; all (^n )^n among them
        for n in range(0, 13 if ctx.tier == 'quick' else 17):
            for w in product('()', repeat=n):
                d = low = 0
                for a in w:
                    d += 1 if a == '(' else -1
                    low = min(low, d)
                r = accepts(m, w)
                ctx.check(not r or (d == low == 0 and n % 4 == 0 and n), lambda: f'{name} accepts {w}')
                ctx.check(r or not n or n % 4 or w != ('(',) * (n // 2) + (')',) * (n // 2), lambda: f'{name} rejects {w}')
                ctx.trans()
        return
    lang = LANG[name]
    ctx.eq(sorted(merged), sorted(lang.letters), f'{name}: letters')
    if hasattr(lang, 'pairs'):
        ctx.eq([sorted(p) for p in parts], [sorted(lang.inner), sorted(lang.pairs), sorted(lang.pairs.values())], f'{name}: kinds of letters')
    compare(ctx, name, lambda w: accepts(m, [letter[a] for a in w]), lang, *bounds(len(lang.letters), ctx.tier))


def step_dist(kind, m, s, a):
    """{(output, successor): probability}"""
    r = {}
    for e in s.transitions[a]:
        k = (e[0].output, id(e[0])) if kind == 'mdp' else (e[1], id(e[0]))
        r[k] = r.get(k, 0) + e[-1]
    return r


def model(name, ctx):
    from aalpy.utils import BenchmarkSULs as B
    m = getattr(B, name)()
    kind = aa.kind_of(m)
    al = m.get_input_alphabet()
    ctx.check(len({s.state_id for s in m.states}) == len(m.states) and m.initial_state in m.states, f'{name}: states')
    seen, todo = {id(m.initial_state)}, [m.initial_state]
    while todo:
        s = todo.pop()
        ctx.eq(sorted(x for x in s.transitions if s.transitions[x]), sorted(al), f'{name}: inputs of {s.state_id}')
        for a in al:
            ctx.trans()
            if kind == 'onfsm':
                outs = [o for o, _ in s.transitions[a]]
                succ = [t for _, t in s.transitions[a]]
            else:
                d = step_dist(kind, m, s, a)
                ctx.check(abs(sum(d.values()) - 1) < 1e-9 and min(d.values()) > 0, lambda: f'{name}: distribution of {a} in {s.state_id}: {[e[1:] for e in s.transitions[a]]}')
                outs = [o for o, _ in d]
                succ = [e[0] for e in s.transitions[a]]
            ctx.check(len(set(outs)) == len(outs) or name == 'get_small_pomdp', lambda: f'{name}: outputs {outs} of {a} in {s.state_id}')
            for t in succ:
                ctx.check(any(t is x for x in m.states), f'{name}: unknown state')
                if id(t) not in seen:
                    seen.add(id(t))
                    todo.append(t)
    ctx.eq(len(seen), len(m.states), f'{name}: reachable states')
    ctx.outcome(repr(aa.describe(m)))


def follow(ctx, what, m, start, oracle, depth):
    """All runs up to a depth: oracle(state, input) -> {output: (probability, next state)}."""
    kind = aa.kind_of(m)
    todo, seen = [(m.initial_state, start, 0)], set()
    while todo:
        s, o, n = todo.pop()
        if (id(s), o) in seen or n > depth:
            continue
        seen.add((id(s), o))
        for a in m.get_input_alphabet():
            want = oracle(o, a)
            got = {e[0].output if kind == 'mdp' else e[1]: (e[-1], e[0]) for e in s.transitions[a]}
            ctx.check(set(got) == set(want) and len(s.transitions[a]) == len(got) and all(abs(got[x][0] - want[x][0]) < 1e-9 for x in want),
                      lambda: f'{what}: {a} in state {s.state_id} ({o}) gives {[(x, p) for x, (p, _) in got.items()]}, expected {[(x, p) for x, (p, _) in want.items()]}')
            ctx.trans()
            todo += [(got[x][1], want[x][1], n + 1) for x in want]
    ctx.outcome((what, len(seen)))


def run(case, ctx):
    from aalpy.utils import BenchmarkSULs as B
    ctx.state()
    ctx.trace()
    typ = case[0]
    if typ == 'language':
        language(case[1], ctx)
    elif typ == 'model':
        model(case[1], ctx)
    elif typ == 'coffee':
        def coffee(paid, a):
            if a == 'coin':
                return {'beep': (1, True)}
            return {'init': (0.1, False), 'coffee': (0.9, False)} if paid else {'init': (1, False)}
        for f in ('get_faulty_coffee_machine_MDP', 'get_faulty_coffee_machine_SMM', 'get_minimal_faulty_coffee_machine_SMM'):
            m = getattr(B, f)()
            ctx.eq(sorted(m.get_input_alphabet()), ['but', 'coin'], f'{f}: inputs')
            follow(ctx, f, m, False, coffee, 20)
        ctx.eq(len(B.get_minimal_faulty_coffee_machine_SMM().states), 2, 'minimal coffee machine: states')
    elif typ == 'gridworld':
        ground = (('grass', 'mud'), ('mud', 'grass'))
        move = {'north': (-1, 0), 'south': (1, 0), 'east': (0, 1), 'west': (0, -1)}

        def grid(pos, a):
            r, c = pos[0] + move[a][0], pos[1] + move[a][1]
            if not (0 <= r < 2 and 0 <= c < 2):
                return {'wall': (1, pos)}
            diag = (1 - pos[0], 1 - pos[1])      # one slips onto the diagonal field
            p = {'grass': 0.8, 'mud': 0.6}[ground[r][c]]
            return {ground[r][c]: (p, (r, c)), ground[diag[0]][diag[1]]: (1 - p, diag)}
        m = B.get_small_gridworld()
        ctx.eq(sorted(m.get_input_alphabet()), sorted(move), 'gridworld: inputs')
        follow(ctx, 'gridworld', m, (0, 0), grid, 20)
    elif typ == 'angluin':
        m = B.get_Angluin_dfa()
        ctx.eq((m.get_input_alphabet(), len(m.states)), (['a', 'b'], 4), 'Angluin DFA')
        for n in range(0, 11 if ctx.tier == 'quick' else 15):
            for w in product('ab', repeat=n):
                ctx.eq(accepts(m, w), w.count('a') % 2 == 0 and w.count('b') % 2 == 0, f'Angluin DFA: {w}')
                ctx.trans()
    elif typ == 'balanced':
        maps = ({'(': ')'}, {'(': ')', '[': ']'}, {'<': '>', '{': '}', '(': ')'}, {'a': 'b'})
        cr, empty = maps[case[1]], case[2]
        sul = B.get_balanced_string_sul(dict(cr), empty)
        lang = Dyck([k + v for k, v in cr.items()], ('x',))

        class E:
            letters, start, step = lang.letters, lang.start, lang.step

            def member(self, s):
                return lang.member(s) or (empty and s == lang.start)

        def answer(w):
            out = sul.query(w)
            for i in range(1, len(w)):
                ctx.eq(out[i - 1], sul.query(w[:i])[-1], f'balanced strings: answer for {w[:i]} within {w}')
            return out[-1]
        compare(ctx, f'balanced strings over {cr}, empty word {empty}', answer, E(), *((5, 6) if len(lang.letters) < 6 else (4, 5)))
    elif typ == 'date':
        v = B.DateValidator()
        days = {m: 28 if m == 2 else 30 if m in (4, 6, 9, 11) else 31 for m in range(1, 13)}
        for d, m, y in product(range(0, 34), range(0, 15), (0, 1, 4, 100, 1999, 2000, 2024, 9999, 10000, 20240)):
            want = m in days and 1 <= d <= days[m] and y <= 9999
            for s in (f'{d}/{m}/{y}', f'{d:02d}/{m:02d}/{y:04d}'):
                ctx.eq(v.is_date_accepted(s), want, f'date {s}')
                ctx.trans()
        for s in product(('1', '', 'x', '/', '/1'), repeat=4):
            s = ''.join(s)
            p = s.split('/')
            ctx.eq(v.is_date_accepted(s), len(p) == 3 and all(x and set(x) <= set(string.digits) for x in p) and int(p[0]) < 29 and int(p[1]) < 13, f'date {s!r}')
            ctx.trans()
    elif typ == 'mqtt':
        calls = [('connect', ()), ('disconnect', ())] + [(f, (t,)) for f in ('subscribe', 'unsubscribe', 'publish') for t in ('t', 'u', 'bad\n')]
        for w in product(range(len(calls)), repeat=4 if ctx.tier == 'quick' else 5):
            b = B.MockMqttExample()
            up, topics = False, set()
            for x in w:
                f, a = calls[x]
                got = getattr(b, f)(*a)
                if f == 'connect' and not up:
                    up, want = True, 'CONNACK'
                elif f in ('connect', 'disconnect') or '\n' in a[0] or not up:
                    up, topics, want = False, set(), 'CONCLOSED'
                elif f == 'subscribe':
                    topics.add(a[0])
                    want = 'SUBACK'
                elif f == 'unsubscribe':
                    topics.discard(a[0])
                    want = 'UNSUBACK'
                else:
                    want = 'PUBACK_PUBACK' if a[0] in topics else 'PUBACK'
                ctx.eq(got, want, lambda: f'MQTT broker: {[calls[y] for y in w]} at {calls[x]}')
            ctx.trans()
    else:
        from aalpy.utils.BenchmarkVpaModels import gen_arithmetic_data
        lang = Sums()
        for num, low, high in ((1, 1, 1), (2, 1, 2), (3, 2, 3), (4, 3, 5), (30, 2, 8)):
            def body(c):
                data, al = gen_arithmetic_data(num, low, high)
                ctx.eq((sorted(al.internal_alphabet), al.call_alphabet, al.return_alphabet), (['+', '1'], ['('], [')']), 'arithmetic data: alphabet')
                ctx.check(data and len({s for s, _ in data}) == len(data), lambda: f'arithmetic data: sequences repeat: {data}')
                for s, label in data:
                    q = lang.start
                    for a in s:
                        q = q and lang.step(q, a)
                    ctx.check(len(s) <= high, lambda: f'arithmetic data: {s} is longer than {high}')
                    ctx.eq(bool(label), bool(q is not None and lang.member(q)), f'arithmetic data: label of {s}')
                    ctx.trans()
                ctx.outcome(str(data))
            _, full = explore(body, ctx, max_runs=3000 if ctx.tier == 'quick' else 30000, tail=8)
            ctx.capped += not full
    ctx.sample(case)
