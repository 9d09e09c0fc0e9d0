"""Non-determinism detection: contradictory answers abort, consistent answers never do."""
from mc.ref import machines, from_key, words, family
from mc.build import ALPHABETS, ref_sul, read
from mc.choices import explore

from mc.props import P
META = P['C08']
CHUNK = 4
VALS = {'int': (0, 1), 'falsy': ('', 0), 'none': ('x', None), 'bool': (True, False), 'tup': ((), (0,))}


def cases(tier):
    for cache in ('tree', 'dict'):
        for vals in VALS:
            for first in range(14):
                yield ('cache', cache, vals, first, 3 if tier == 'quick' else 4)
    for kind in ('dfa', 'moore', 'mealy'):
        ms = list(machines(kind, 2, 2, minimal=True))
        ms = ms[::3] if tier == 'quick' else ms
        ms += [m for _, m in family(kind, 2) if m.n < 6]
        for m in ms:
            for alg in ('lstar', 'lstar_none', 'kv', 'lsharp', 'lsharp_ads'):
                yield ('learn', m.key(), alg)


class Trie:
    def __init__(self):
        self.d = {}

    def add(self, word, out):
        """True when the observation contradicts an earlier one."""
        if word in self.d:
            return self.d[word] != out
        self.d[word] = out
        return False


def run(case, ctx):
    if case[0] == 'cache':
        return run_cache(case, ctx)
    return run_learn(case, ctx)


def run_cache(case, ctx):
    from aalpy.base import SUL
    from aalpy.base.SUL import CacheSUL
    _, cache, vals, first, depth = case
    vals = VALS[vals]
    W = list(words(2, 0, 2))
    ops = [(o, w) for o in ('q', 'i') for w in W]
    A = ('a', 'b')

    class Free(SUL):
        def __init__(self, c):
            super().__init__()
            self.c, self.hist, self.word = c, [], ()

        def pre(self):
            self.word = ()

        def post(self):
            pass

        def step(self, letter):
            if letter is None:
                return vals[0]
            self.word += (letter,)
            o = vals[self.c.pick(2, 'output')]
            self.hist.append((self.word, o))
            return o

    import itertools
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (ops[first],) + rest

        def body(c):
            base = Free(c)
            cs = CacheSUL(base, cache)
            trie = Trie()
            fed = 0

            def conflict():
                nonlocal fed
                bad = False
                while fed < len(base.hist):
                    w, o = base.hist[fed]
                    fed += 1
                    if trie.add(w, o):
                        bad = True
                return bad

            for op, w in seq:
                word = tuple(A[i] for i in w)
                try:
                    if op == 'q':
                        got = cs.query(word)
                        ctx.check(not conflict(), f'{seq}: contradictory answers {base.hist} were accepted')
                        if word:
                            ctx.eq(list(got), [trie.d[word[:j]] for j in range(1, len(word) + 1)], f'{seq}: answer to {word}')
                    else:
                        cs.pre()
                        for a in word:
                            cs.step(a)
                            ctx.check(not conflict(), f'{seq}: contradictory answers {base.hist} were accepted')
                        cs.post()
                except SystemExit:
                    ctx.check(conflict(), f'{seq}: aborted although all answers {base.hist} are consistent')
                    ctx.outcome(('abort', len(base.hist)))
                    ctx.trace()
                    return
                ctx.trans()
            ctx.trace()
            ctx.outcome(('ok', tuple(map(repr, base.hist))))

        runs, _ = explore(body, ctx)
        ctx.state(runs)
    ctx.sample(case)


class GiveUp(Exception):
    pass


def run_learn(case, ctx):
    """A deterministic system with exactly one fault (a wrong output or a wrong successor) at every possible step of
    the whole learning run: the fault position is the enumerated choice."""
    from aalpy.base import SUL, Oracle
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp
    _, key, alg = case
    ref = from_key(key)
    A = ALPHABETS['str'][:ref.k]
    outs = sorted({repr(o) for r in ref.out for o in (r if ref.kind == 'mealy' else [r])})
    ov = sorted({o for r in ref.out for o in (r if ref.kind == 'mealy' else [r])}) or [0]
    ov = list(ov) + ([x for x in (0, 1) if x not in ov] if ref.kind != 'dfa' else [])
    tests = [tuple(A[i] for i in w) for w in words(ref.k, 1, 3)]

    class Faulty(SUL):
        def __init__(self, fault, kind):
            super().__init__()
            self.fault, self.fkind, self.n, self.log, self.word = fault, kind, 0, [], ()

        def pre(self):
            self.s, self.word = 0, ()

        def post(self):
            pass

        def step(self, letter):
            if letter is None:
                return ref.out[0] if ref.kind != 'mealy' else None
            i = A.index(letter)
            s, t = self.s, ref.delta[self.s][i]
            if self.n == self.fault and self.fkind == 'jump':
                t = (t + 1) % ref.n
            self.s = t
            o = ref.out[s][i] if ref.kind == 'mealy' else ref.out[t]
            if self.n == self.fault and self.fkind == 'output':
                o = ov[(ov.index(o) + 1) % len(ov)]
            self.n += 1
            if self.n > 3000:
                raise GiveUp()
            self.word += (letter,)
            self.log.append((self.word, o))
            return o

    class Suite(Oracle):
        def find_cex(self, hyp):
            for t in tests:
                self.reset_hyp_and_sul(hyp)
                for j, a in enumerate(t):
                    if hyp.step(a) != self.sul.step(a):
                        self.sul.post()
                        return t[:j + 1]
            self.sul.post()
            return None

    def once(fault, kind):
        base = Faulty(fault, kind)
        orc = Suite(list(A), base)
        try:
            if alg.startswith('lstar'):
                hyp = run_Lstar(list(A), base, orc, ref.kind, cex_processing=None if alg.endswith('none') else 'rs', print_level=0)
            elif alg == 'kv':
                hyp = run_KV(list(A), base, orc, ref.kind, print_level=0)
            else:
                hyp = run_Lsharp(list(A), base, orc, ref.kind, separation_rule='ADS' if alg.endswith('ads') else 'SepSeq', print_level=0)
            res = 'model'
        except SystemExit:
            res, hyp = 'abort', None
        except GiveUp:
            ctx.count('runs_without_verdict')
            return base.n
        except Exception as e:           # a learner confused by contradictory answers it was never told about
            res, hyp = f'{type(e).__name__}: {e}', None
        trie, bad = Trie(), None
        for w, o in base.log:
            if trie.add(w, o):
                bad = (w, o)
                break
        ctx.trace()
        ctx.state()
        ctx.trans(base.n)
        ctx.note = f'{alg} fault={kind}@{fault}'
        if bad:
            ctx.check(res == 'abort', f'contradiction {bad} observed, but the run ended with {res}')
        else:
            ctx.check(res != 'abort', 'aborted for non-determinism although no two answers contradict each other')
            ctx.check(res == 'model', f'run without contradictory answers ended with {res}')
            # everything observed within the tested depth agrees with the returned model
        ctx.outcome((res, bad is None, kind))
        return base.n

    total = once(-1, 'none')
    for kind in ('output', 'jump'):
        if kind == 'jump' and ref.n == 1:
            continue
        for fault in range(min(total, 400)):
            once(fault, kind)
    ctx.sample((case, total))
