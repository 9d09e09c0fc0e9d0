"""Query protocol of every system interface and the statistics reported by the learners."""
from itertools import product
from mc.ref import machines, family, big, from_key, words
from mc.build import ALPHABETS, ref_sul, build
from mc import active
from mc.active import OUTMAPS, configs
from mc.teach import teacher
from mc.props import P

META = P['C09']
CHUNK = 4


def cases(tier):
    d = 4 if tier == 'quick' else 6
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k in ((1, 1), (2, 1), (1, 2), (2, 2)):
            for j, m in enumerate(machines(kind, n, k)):
                yield ('query', m.key(), d, ('str', 'zero', 'mixed', 'tuple')[j % 4], 'id' if kind == 'dfa' else ('id', 'falsy', 'str')[j % 3])
        for j, m in enumerate(machines(kind, 2, 2, minimal=True)):
            if tier != 'quick' or j % 6 == 0:
                yield ('ads', m.key())
        for m in machines(kind, 2, 2):
            yield ('stats', m.key())
        for j, (_, m) in enumerate(big(kind)):
            yield ('stats', m.key(), 2)
            yield ('query', m.key(), 4 if m.k == 2 else 3 if m.k < 5 else 2, ('str', 'zero', 'mixed', 'tuple')[j % 4], 'id' if kind == 'dfa' else ('id', 'falsy', 'str')[j % 3])
        for _, m in family(kind, 2):
            yield ('stats', m.key())
        for j, m in enumerate(machines(kind, 3, 2, minimal=True)):
            if j % (12 if tier == 'quick' else 2) == 0:
                yield ('stats', m.key())


def run(case, ctx):
    ref = from_key(case[1])
    if case[0] == 'query':
        return run_query(ctx, ref, *case[2:])
    if case[0] == 'ads':
        return run_ads(ctx, ref)
    return run_stats(ctx, ref, *case[2:])


def run_query(ctx, ref, depth, an, om):
    from aalpy.SULs import AutomatonSUL
    A = ALPHABETS[an][:ref.k]
    f, _ = OUTMAPS[om]
    W = list(words(ref.k, 0, depth))
    W += [tuple((i * i + j) % ref.k for i in range(n)) for j in range(2) for n in (15, 33, 70)] if ref.n > 4 else []
    exp = {w: [f(o) for o in ref.outputs(w)] if w else [f(ref.out[0]) if ref.kind != 'mealy' else None] for w in W}
    base = ref_sul(ref, A, f)
    auto = AutomatonSUL(build(ref, A, f, order=list(reversed(range(ref.n)))))
    for which, sul in (('SUL', base), ('AutomatonSUL', auto)):
        nq = ns = 0
        for w in W + W[::-1]:
            if which == 'AutomatonSUL' and ref.kind == 'mealy' and not w:
                continue
            for style in ('tuple', 'list', 'io'):
                word = tuple(A[i] for i in w)
                word = list(word) if style == 'list' else word
                p0, q0, l0 = base.pres, base.posts, len(base.log)
                if style == 'io':
                    got = sul.io_query(word)
                    want = list(zip(word, exp[w]))
                else:
                    got, want = sul.query(word), exp[w]
                nq, ns = nq + 1, ns + len(w)
                ctx.check(list(got) == want and repr(list(got)) == repr(want), lambda: f'{which}.{style}({word!r}) -> {got!r}, expected {want!r}')
                ctx.eq((sul.num_queries, sul.num_steps), (nq, ns), f'{which} counters after {word!r}')
                if which == 'SUL':
                    ctx.eq((base.pres - p0, base.posts - q0, base.log[l0:]), (1, 1, [tuple(word)]), f'executions of {word!r}')
                    ctx.check(not base.protocol, lambda: str(base.protocol))
                ctx.trace()
            ctx.trans(len(w))
        ctx.state(len(W))
        # interactive use after pre(), twice in a row
        for w in W[:30]:
            sul.pre()
            got = [sul.step(A[i]) for i in w]
            sul.post()
            ctx.eq(got, exp[w] if w else [], f'{which} stepping {w}')
    ctx.outcome(ref.key())


def run_ads(ctx, ref):
    """Adaptive queries: every decision script of depth <= 3 that looks at the last output."""
    A = ALPHABETS['str'][:ref.k]
    vals = [False, True] if ref.kind == 'dfa' else [0, 1]
    opts = A + [None] + ([tuple()] if ref.kind != 'mealy' else [])

    class Script:
        def __init__(self, first, table):
            self.first, self.table, self.seen, self.n = first, table, [], 0

        def next_input(self, prev):
            self.seen.append(prev)
            self.n += 1
            if self.n == 1:
                return self.first
            if self.n > 3:
                return None
            return self.table[(self.n, vals.index(prev))]

    first_opts = opts if ref.kind == 'mealy' else opts[::-1]
    for first in first_opts:
        for t in product(A + [None], repeat=4):
            table = {(2, 0): t[0], (2, 1): t[1], (3, 0): t[2], (3, 1): t[3]}
            for w in words(ref.k, 0, 2):
                sul = ref_sul(ref, A)
                s = Script(first, table)
                word = [A[i] for i in w]
                full, outs = sul.adaptive_query(list(word), s)
                # reference execution of the script
                cur, exp_out, exp_word, last, seen = 0, [], [], None, []
                for a in word:
                    exp_out.append(step(ref, cur, A.index(a)))
                    cur = ref.delta[cur][A.index(a)]
                    exp_word.append(a)
                r = Script(first, table)
                while True:
                    x = r.next_input(last)
                    if x is None:
                        break
                    if x == ():
                        last = exp_out[-1] if exp_out else ref.out[0]
                        continue
                    last = step(ref, cur, A.index(x))
                    cur = ref.delta[cur][A.index(x)]
                    exp_word.append(x)
                    exp_out.append(last)
                ctx.eq(tuple(full), tuple(exp_word), f'adaptive query word (prefix {word}, script {first},{t})')
                ctx.eq(list(outs), exp_out, f'adaptive query outputs (prefix {word}, script {first},{t})')
                ctx.eq(s.seen, r.seen, 'outputs shown to the adaptive sequence')
                ctx.eq((sul.num_queries, sul.num_steps, sul.pres, sul.posts), (1, len(exp_word), 1, 1), 'counters')
                ctx.trace()
                ctx.trans(len(exp_word))
                ctx.outcome((tuple(exp_word), tuple(exp_out)))
    ctx.state()


def step(ref, s, i):
    return ref.out[s][i] if ref.kind == 'mealy' else ref.out[ref.delta[s][i]]


def run_stats(ctx, ref, thin=1):
    A = ALPHABETS['str'][:ref.k]
    for alg in ('lstar', 'kv', 'lsharp', 'adaptive'):
        for cfg in configs(alg, 'mini')[:: 1 if alg != 'adaptive' else 5][::thin]:
            for execute in (False, True):
                sul = ref_sul(ref, A)
                spent = [0, 0]
                what = f'{alg} {cfg} oracle executes={execute}'
                ctx.note = what
                t = teacher(list(A), sul, ref, 'long1', execute=execute)
                inner = t.find_cex

                def find_cex(h):
                    a, b = sul.pres, sul.raw_steps
                    r = inner(h)
                    spent[0] += sul.pres - a
                    spent[1] += sul.raw_steps - b
                    return r
                t.find_cex = find_cex
                kw = dict(references=[build(ref)]) if alg == 'adaptive' else {}
                hyp, info = active.runner(alg)(alphabet=list(A), sul=sul, eq_oracle=t, automaton_type=ref.kind, print_level=0,
                                               return_data=True, **cfg, **kw)
                ctx.trace()
                ctx.state(len(t.hyps))
                ctx.trans(sul.raw_steps)
                ctx.eq(info['queries_learning'], sul.pres - spent[0], f'{what}: reported learning queries vs executed')
                ctx.eq(info['steps_learning'], sul.raw_steps - spent[1], f'{what}: reported learning steps vs executed')
                ctx.eq((info['queries_eq_oracle'], info['steps_eq_oracle']), (t.num_queries, t.num_steps), f'{what}: oracle counters')
                if execute:
                    ctx.eq((t.num_queries, t.num_steps), tuple(spent), f'{what}: oracle counters vs executions')
                ctx.eq(info['automaton_size'], len(hyp.states), 'automaton size')
                if alg != 'kv':
                    ctx.eq(info['learning_rounds'], len(t.hyps), f'{what}: rounds')
                ctx.check(sul.pres == sul.posts or execute, f'{what}: pre/post unbalanced')
                ctx.check(not sul.protocol or execute, lambda: f'{what}: {sul.protocol}')
                if cfg.get('cache_and_non_det_check'):
                    # with a cache no membership query repeats an executed word or a prefix of one
                    seen = set()
                    if not execute:
                        for w in sul.log:
                            if w:
                                ctx.check(w not in seen, lambda: f'{what}: {w} executed although its answer was known')
                            seen |= {w[:j] for j in range(len(w) + 1)}
                ctx.check(info['total_time'] >= 0 and info['learning_time'] >= -0.02, 'times')
                ctx.outcome((alg, info['queries_learning'], info['steps_learning'], len(t.hyps)))
