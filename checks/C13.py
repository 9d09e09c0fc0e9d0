"""Each oracle executes the tests its parameters promise before it accepts a hypothesis."""
import math
from itertools import product, combinations, permutations
from mc.ref import machines, family, big as larger, from_key, equivalent, distinguish, words
from mc.build import build, read, ref_sul
from mc.choices import explore, Controller, controlled
from mc.active import runner, configs
from mc.props import P

META = P['C13']
CHUNK = 2
A = ['a', 'b']
LOW, HIGH = 0.0, 1 - 2 ** -53


def cases(tier):
    q = tier == 'quick'
    for kind in ('dfa', 'moore', 'mealy'):
        ms = [m for n in (1, 2) for m in machines(kind, n, 2, minimal=True)]
        t3 = list(machines(kind, 3, 2, minimal=True))
        t3 = t3[:: (8 if kind == 'dfa' else 15 if kind == 'moore' else 240) if q else (2 if kind != 'mealy' else 24)]
        fam = [m for _, m in family(kind, 2) if m.is_minimal() and m.n <= (5 if q else 6)]
        for i, m in enumerate(ms + t3 + fam):
            yield ('cover', m.key())
            yield ('bfs', m.key())
        for _, m in larger(kind):
            if m.k == 2:
                yield ('cover', m.minimal().key())
                yield ('bfs', m.minimal().key())
        small = [m for m in ms if m.n <= 2]
        small = small[::5] if kind == 'mealy' else small
        big = t3[::3] + fam[::2]
        j = 0
        for s in small + big:
            for h in small + t3[::9]:
                if h.n <= s.n and (kind == 'mealy' or h.out[0] == s.out[0]):
                    j += 1
                    if j % (4 if q else 2) == 0:
                        yield ('two', s.key(), h.key())
    for w in user_scripts(tier):
        yield ('user', w)


def shape(ref):
    """access words as the library assigns them"""
    hyp = build(ref, A)
    hyp.compute_prefixes()
    return [tuple(s.prefix) for s in hyp.states]


class Run:
    """One oracle on a correct hypothesis; the words executed in each find_cex call."""

    def __init__(self, ref, mk, calls=1):
        self.base = ref_sul(ref, A)
        self.base.keep_log = True
        self.orac = mk(self.base)
        self.ref = ref

    def call(self, ref=None, prefixes=True):
        n = len(self.base.log)
        hyp = build(ref or self.ref, A)
        if prefixes:
            hyp.compute_prefixes()
        c = self.orac.find_cex(hyp)
        if self.base.open:
            self.base.post()
        return c, self.base.log[n:]


def covered_kwords(ref, tests, k):
    res = set()
    for t in tests:
        w = [A.index(a) for a in t]
        s = 0
        for i in range(len(w)):
            if i + k <= len(w):
                res.add((s, tuple(w[i:i + k])))
            s = ref.delta[s][w[i]]
    return res


def reaches(ref):
    R = [[False] * ref.n for _ in range(ref.n)]
    for s in range(ref.n):
        st, seen = [s], {s}
        while st:
            x = st.pop()
            for t in ref.delta[x]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        for t in seen:
            R[s][t] = True
    return R


def path_visits(ref, t):
    s, v = 0, [0]
    for a in t:
        s = ref.delta[s][A.index(a)]
        v.append(s)
    return v


def visits_in_order(v, seq):
    i = 0
    for s in v:
        if i < len(seq) and s == seq[i]:
            i += 1
    return i == len(seq)


def cover(ref, ctx):
    from aalpy import oracles as O
    from aalpy.oracles.PacOracle import PacOracle
    acc = shape(ref)
    n = ref.n
    cap = 150 if ctx.tier == 'quick' else 400
    dev = 2

    def each(body, cap=cap, **kw):
        r, full = explore(body, ctx, max_runs=cap, max_dev=dev, **kw)
        ctx.capped += not full
        ctx.count('executions', r)

    # state prefix oracle: w tests per state, each access word + walk
    for wps, wl, df in ((1, 2, True), (2, 1, False), (3, 1, True)):
        def body(c):
            r = Run(ref, lambda s: O.StatePrefixEqOracle(A, s, walks_per_state=wps, walk_len=wl, depth_first=df))
            # the access words are computed if they are missing
            cex, log = r.call(prefixes=wps != 2)
            ctx.eq(cex, None, 'state prefix: counterexample for the correct model')
            want = sorted([p for p in acc for _ in range(wps)])
            ctx.eq(sorted(t[:-wl] for t in log), want, f'state prefix ({wps} walks of {wl} steps per state): prefixes of the executed tests')
            if df:
                ctx.eq([len(t) for t in log], sorted([len(t) for t in log], reverse=True), 'state prefix: deepest states first')
            cex, log = r.call()
            ctx.eq(log, [], 'state prefix: walks_per_state counts over the whole learning')
            ctx.trace()
        each(body, shuffle='ends')
    # random W
    for wps, wl in ((1, 2), (2, 1)):
        def body(c):
            r = Run(ref, lambda s: O.RandomWMethodEqOracle(A, s, walks_per_state=wps, walk_len=wl))
            cex, log = r.call(prefixes=wps != 2)
            ctx.eq(cex, None, 'random W: counterexample for the correct model')
            hyp = build(ref, A)
            hyp.compute_prefixes()
            W = hyp.compute_characterization_set() or [(a,) for a in A]
            poss = {p: {p + m + tuple(x) for k in range(1, wl + 1) for m in product(A, repeat=k) for x in W} for p in acc}
            ctx.eq(len(log), wps * n, 'random W: number of tests')
            ctx.check(assign(log, poss, wps), lambda: f'random W: tests {log} are not {wps} per state of the form access word + walk + separating word')
            ctx.trace()
        each(body, shuffle='ends')
    # random Wp
    def body(c):
        r = Run(ref, lambda s: O.RandomWpMethodEqOracle(A, s, min_length=1, expected_length=1, num_tests=2))
        cex, log = r.call()
        ctx.eq(cex, None, 'random Wp: counterexample for the correct model')
        ctx.check(len(log) <= 2 and (n == 1 or len(log) == 2), lambda: f'random Wp: {len(log)} tests instead of 2')
        hyp = build(ref, A)
        hyp.compute_prefixes()
        W = hyp.compute_characterization_set() or [(a,) for a in A]
        for t in log:
            ok = n == 1
            for p in acc:
                if t[:len(p)] == p:
                    for k in range(len(p) + 1, len(t) + 1):
                        suf = t[k:]
                        s = ref.state([A.index(a) for a in t[:k]])
                        if suf in [tuple(x) for x in W]:
                            ok = True
                        if any(separates(ref, s, o, suf) for o in range(n) if o != s):
                            ok = True
            ctx.check(ok, lambda: f'random Wp: {t} is not access word + walk + separating word')
        ctx.trace()
    each(body, floats=(LOW, HIGH))
    # random walk: exactly num_steps steps, chunks from the initial state
    for ns, ra in ((4, True), (5, False)):
        def body(c):
            r = Run(ref, lambda s: O.RandomWalkEqOracle(A, s, num_steps=ns, reset_after_cex=ra, reset_prob=0.5))
            tot = 0
            for rnd in range(2):
                cex, log = r.call()
                ctx.eq(cex, None, 'random walk: counterexample for the correct model')
                tot += sum(map(len, log))
                ctx.eq(tot, ns, f'random walk: steps executed (num_steps={ns})')
            r.orac.reset_counter()
            cex, log = r.call()
            ctx.eq(sum(map(len, log)), ns if ra else 0, f'random walk: steps after reset_counter (reset_after_cex={ra})')
            ctx.trace()
        each(body, floats=(HIGH, LOW))
    # random words
    for nw, lo, hi, ra in ((2, 1, 3, True), (3, 2, 2, False), (2, 0, 1, True)):
        def body(c):
            r = Run(ref, lambda s: O.RandomWordEqOracle(A, s, num_walks=nw, min_walk_len=lo, max_walk_len=hi, reset_after_cex=ra))
            for rnd in range(2):
                cex, log = r.call()
                ctx.eq(cex, None, 'random words: counterexample for the correct model')
                ctx.eq(len(log), nw if rnd == 0 else 0, f'random words: walks executed in call {rnd + 1}')
                ctx.check(all(lo <= len(t) <= hi for t in log), lambda: f'random words: lengths {[len(t) for t in log]} outside [{lo},{hi}]')
            r.orac.reset_counter()
            cex, log = r.call()
            ctx.eq(len(log), nw if ra else 0, 'random words: walks after reset_counter')
            ctx.trace()
        each(body)
    # PAC: number of tests per round
    for eps, de in ((0.7, 0.7), (0.9, 0.5), (0.5, 0.9)):
        def body(c):
            r = Run(ref, lambda s: PacOracle(A, s, epsilon=eps, delta=de, min_walk_len=1, max_walk_len=2))
            for rnd in (1, 2):
                cex, log = r.call()
                need = math.ceil(1 / eps * (math.log(1 / de) + rnd * math.log(2)))
                ctx.check(len(log) >= need, lambda: f'PAC: {len(log)} tests in round {rnd}, {need} needed for epsilon={eps} delta={de}')
                ctx.eq(len(log), need, f'PAC: tests in round {rnd}')
                ctx.check(all(1 <= len(t) <= 2 for t in log), 'PAC: walk lengths')
            ctx.trace()
        each(body, cap=cap // 2)
    # transition focus
    for prob in (0.0, 1.0, 0.5):
        def body(c):
            pick = []
            r = Run(ref, lambda s: O.TransitionFocusOracle(A, s, num_random_walks=2, walk_len=3, same_state_prob=prob))
            cex, log = r.call()
            ctx.eq([len(t) for t in log], [3, 3], 'transition focus: walks')
            fl = [0.25, 0.75]
            seq = [fl[v] for v, l in zip(c.trace, c.labels) if l == 'random']
            for j, a in enumerate(x for t in log for x in t):
                t, i = log[j // 3], j % 3
                s = ref.state([A.index(x) for x in t[:i]])
                loops = [x for q, x in enumerate(A) if ref.delta[s][q] == s]
                move = [x for x in A if x not in loops]
                if prob in (0.0, 1.0):
                    want = loops if prob else move
                elif len(seq) == 6:              # one draw per step
                    want = loops if seq[j] <= prob else move
                else:
                    continue
                ctx.check(a in (want or A), lambda: f'transition focus (same_state_prob={prob}, drawn {seq[j]}): input {a} in state with self loops {loops}')
            ctx.trace()
        each(body, floats=(0.25, 0.75))
    # k-way state coverage
    R = reaches(ref)
    for k, meth in ((2, 'permutations'), (2, 'combinations'), (3, 'permutations'), (3, 'combinations')):
        if k == 3 and n > 4:
            continue
        for wl in (0, 2):
            def body(c):
                r = Run(ref, lambda s: O.KWayStateCoverageEqOracle(A, s, k=k, random_walk_len=wl, method=meth))
                cex, log = r.call()
                ctx.eq(cex, None, 'k-way states: counterexample for the correct model')
                if n >= 2:
                    vs = [path_visits(ref, t) for t in log]
                    for p in permutations(range(n), k):
                        if not all(R[a][b] for a, b in zip(p, p[1:])):
                            continue
                        if meth == 'combinations':
                            # any one order will do, provided some order of these states is possible in the executed order
                            ps = list(permutations(sorted(p)))
                            if not all(R[a][b] for x in ps for a, b in zip(x, x[1:])):
                                continue
                            ok = any(visits_in_order(v, x) for v in vs for x in ps)
                        else:
                            ok = any(visits_in_order(v, p) for v in vs)
                        ctx.check(ok, lambda: f'k-way states ({meth}, k={k}): states {[acc[x] for x in p]} are never visited in order by {log}')
                    cnt = math.comb(n, k) if meth == 'combinations' else math.perm(n, k)
                    ctx.eq(len(log), cnt, f'k-way states ({meth}, k={k}): number of tests')
                else:
                    ctx.eq((len(log), {len(t) for t in log}), (wl, {wl} if wl else set()), 'k-way states: tests of a single-state hypothesis')
                ctx.trace()
            each(body, cap=cap // 2, shuffle='ends')
    # k-way transition coverage
    for k, meth, opt in ((2, 'random', 'steps'), (2, 'random', 'queries'), (3, 'random', 'steps'), (2, 'prefix', 'steps'), (3, 'prefix', 'steps')):
        def body(c):
            r = Run(ref, lambda s: O.KWayTransitionCoverageEqOracle(A, s, k=k, method=meth, num_generate_paths=2, max_path_len=4,
                                                                     optimize=opt, random_walk_len=1))
            for rnd in range(2):
                cex, log = r.call()
                ctx.eq(cex, None, 'k-way transitions: counterexample for the correct model')
                missing = {(s, w) for s in range(n) for w in words(2, k, k)} - covered_kwords(ref, log, k)
                ctx.check(not missing, lambda: f'k-way transitions ({meth}, k={k}, {opt}), call {rnd + 1}: not covered {sorted(missing)}')
            ctx.trace()
        each(body, cap=max(6, cap // 8), floats=(LOW, HIGH))
    for meth, lim in (('random', 7), ('random', 12), ('prefix', 5), ('prefix', 11)):
        def body(c):
            r = Run(ref, lambda s: O.KWayTransitionCoverageEqOracle(A, s, k=2, method=meth, num_generate_paths=2, max_path_len=4,
                                                                     max_number_of_steps=lim, random_walk_len=1))
            longest = max(4 if meth == 'random' else 0, max(map(len, acc)) + 3)
            for rnd in range(2):
                cex, log = r.call()
                tot = sum(map(len, log))
                ctx.eq(cex, None, 'k-way transitions: counterexample for the correct model')
                ctx.check(tot <= lim, lambda: f'k-way transitions ({meth}): {tot} steps instead of at most {lim}')
                missing = {(s, w) for s in range(n) for w in words(2, 2, 2)} - covered_kwords(ref, log, 2)
                ctx.check(not missing or tot + longest > lim, lambda: f'k-way transitions ({meth}), at most {lim} steps, call {rnd + 1}: not covered {sorted(missing)} after {tot} steps')
            ctx.trace()
        each(body, cap=max(6, cap // 8), floats=(LOW, HIGH))
    # provided sequences first, then the wrapped oracle
    from aalpy.oracles.ProvidedSequencesOracleWrapper import ProvidedSequencesOracleWrapper as Prov
    seqs = [('a', 'a'), ['b'], ('a', 'b', 'a'), ('b',)]
    def body(c):
        r = Run(ref, lambda s: Prov(A, s, O.WMethodEqOracle(A, s, n), seqs))
        cex, log = r.call()
        ctx.eq(log[:4], [tuple(x) for x in seqs], 'provided sequences are executed first')
        r2 = Run(ref, lambda s: O.WMethodEqOracle(A, s, n))
        _, l2 = r2.call()
        ctx.eq(log[4:], l2, 'provided sequences: wrapped oracle afterwards')
        cex, log = r.call()
        ctx.eq(log, [], 'provided sequences: executed ones are not repeated')
        ctx.trace()
    each(body)
    # cache based
    from aalpy.base.SUL import CacheSUL
    for nw, inc in ((2, 1), (1, 2)):
        def body(c):
            base = ref_sul(ref, A)
            sul = CacheSUL(base)
            leaves = {('a',), ('b', 'a')}
            for w in leaves:
                sul.query(w)
            n0 = len(base.log)
            orac = O.CacheBasedEqOracle(A, sul, num_walks=nw, depth_increase=inc)
            hyp = build(ref, A)
            hyp.compute_prefixes()
            for rnd in range(2):
                ctx.eq(orac.find_cex(hyp), None, 'cache based: counterexample for the correct model')
                if base.open:
                    base.post()
                log = base.log[n0:]
                ctx.eq(len(log), nw, f'cache based: walks after call {rnd + 1}')
            ctx.check(all(len(t) == 2 + inc and (t[:1] in leaves or t[:2] in leaves) for t in log),
                      lambda: f'cache based: walks {log} do not extend cached leaves {leaves} to depth {2 + inc}')
            ctx.trace()
        each(body)
    # recorded test cases = executed tests with the model's outputs
    from aalpy.utils import generate_test_cases
    for nm, mk in (('W', lambda: O.WMethodEqOracle(A, None, n)), ('Wp', lambda: O.WpMethodEqOracle(A, None, n)),
                   ('state prefix', lambda: O.StatePrefixEqOracle(A, None, walks_per_state=1, walk_len=2)),
                   ('bfs', lambda: O.BreadthFirstExplorationEqOracle(A, None, depth=3))):
        with controlled(Controller(shuffle='keep')):
            hyp = build(ref, A)
            hyp.compute_prefixes()
            got = generate_test_cases(hyp, mk())
        with controlled(Controller(shuffle='keep')):
            r = Run(ref, lambda s: setsul(mk(), s))
            _, log = r.call()
        ctx.eq([tuple(map(tuple, t)) for t in got], [(w, tuple(ref.outputs([A.index(a) for a in w]))) for w in log if w],
               f'generate_test_cases with {nm}: recorded tests')
        ctx.trace()


def setsul(o, s):
    o.sul = s
    return o


def separates(ref, s, t, w):
    w = [A.index(a) for a in w]
    return ref.outputs(w, s) != ref.outputs(w, t) or (not w and ref.kind != 'mealy' and ref.out[s] != ref.out[t])


def assign(log, poss, cnt):
    """Is there an assignment of the tests to the states, cnt per state?  (bipartite matching)"""
    slots = [p for p in poss for _ in range(cnt)]
    if len(slots) != len(log):
        return False
    match = {}

    def aug(i, seen):
        for j, p in enumerate(slots):
            if j not in seen and log[i] in poss[p]:
                seen.add(j)
                if j not in match or aug(match[j], seen):
                    match[j] = i
                    return True
        return False
    return all(aug(i, set()) for i in range(len(log)))


def bfs(ref, ctx):
    from aalpy.oracles import BreadthFirstExplorationEqOracle as B
    for depth in (1, 2, 3):
        for sh in ('keep', 'ends'):
            def body(c):
                r = Run(ref, lambda s: B(A, s, depth=depth))
                for rnd in range(2):
                    cex, log = r.call()
                    ctx.eq(cex, None, 'BFS: counterexample for the correct model')
                    ctx.eq(sorted(log), sorted(product(A, repeat=depth)), f'BFS depth {depth} call {rnd + 1}: executed tests')
                ctx.trace()
            explore(body, ctx, shuffle=sh)
    # learners stopped by BFS agree with the system on every word up to the depth
    for alg in ('lstar', 'kv', 'lsharp'):
        for cfg in configs(alg, 'mini'):
            for depth in (1, 2, 3):
                sul = ref_sul(ref, A)
                with controlled(Controller(shuffle='keep')):
                    hyp = runner(alg)(A, sul, B(A, sul, depth=depth), ref.kind, print_level=0, **cfg)
                h = read(hyp, A)
                ctx.trace()
                w = distinguish(ref, 0, h, 0)
                ctx.check(w is None or len(w) > depth, lambda: f'{alg} {cfg} + BFS depth {depth}: model {h} differs from {ref} on {w}')
                ctx.outcome((alg, depth, h.key()))


def two(s, h, ctx):
    """The same oracle sees a (possibly wrong) hypothesis first and the correct one afterwards."""
    from aalpy import oracles as O
    n = s.n
    acc, acch = shape(s), shape(h)
    eq = equivalent(s, h)
    dev, cap = (1, 12) if ctx.tier == 'quick' else (2, 60)

    def each(body, **kw):
        r, full = explore(body, ctx, max_runs=cap, max_dev=dev, **kw)
        ctx.capped += not full
    for depth in (1, 2, 3):
        def body(c):
            r = Run(s, lambda x: O.BreadthFirstExplorationEqOracle(A, x, depth=depth))
            cex, log = r.call(h)
            w = distinguish(s, 0, h, 0)
            ctx.eq(cex is None, w is None or len(w) > depth, f'BFS depth {depth}: accepts {h} for {s}')
            cex, log = r.call()
            ctx.eq(sorted(log), sorted(product(A, repeat=depth)), f'BFS depth {depth}: tests of the second hypothesis')
            ctx.trace()
        each(body, shuffle='ends')
    for k, meth in ((2, 'random'), (3, 'random'), (2, 'prefix')):
        def body(c):
            r = Run(s, lambda x: O.KWayTransitionCoverageEqOracle(A, x, k=k, method=meth, num_generate_paths=1, max_path_len=4,
                                                                   random_walk_len=1))
            r.call(h)
            cex, log = r.call()
            missing = {(q, w) for q in range(n) for w in words(2, k, k)} - covered_kwords(s, log, k)
            ctx.check(not missing, lambda: f'k-way transitions ({meth}, k={k}): after testing {h} the tests of {s} do not cover {sorted(missing)}')
            ctx.trace()
        each(body, floats=(LOW, HIGH))
    R = reaches(s)
    for meth in ('permutations', 'combinations'):
        def body(c):
            r = Run(s, lambda x: O.KWayStateCoverageEqOracle(A, x, k=2, random_walk_len=1, method=meth))
            r.call(h)
            cex, log = r.call()
            vs = [path_visits(s, t) for t in log]
            for p in permutations(range(n), 2):
                if acc[p[0]] in acch and acc[p[1]] in acch:
                    continue
                if not R[p[0]][p[1]] or (meth == 'combinations' and not R[p[1]][p[0]]):
                    continue
                ok = any(visits_in_order(v, p) for v in vs) or (meth == 'combinations' and any(visits_in_order(v, p[::-1]) for v in vs))
                ctx.check(ok, lambda: f'k-way states ({meth}): new pair {[acc[x] for x in p]} not tested after {h}')
            ctx.trace()
        each(body, shuffle='ends')
    for wps in (1, 2):
        def body(c):
            r = Run(s, lambda x: O.StatePrefixEqOracle(A, x, walks_per_state=wps, walk_len=2))
            cex, l1 = r.call(h)
            cex, l2 = r.call()
            for p in acc:
                tot = sum(1 for t in l2 if len(t) == len(p) + 2 and t[:len(p)] == p)
                before = sum(1 for t in l1 if t[:len(p)] == p) if p in acch else 0
                ctx.check(tot + before >= wps, lambda: f'state prefix: state {p} got {tot}+{before} walks instead of {wps}')
            ctx.trace()
        each(body)


# ---- interactive oracle: every script of commands up to a length, against a two-state machine
def user_scripts(tier):
    cmds = ['a', 'b', 'reset', 'cex', 'help', 'print alphabet', 'current inputs', 'nonsense']
    for n in range(0, 4 if tier == 'quick' else 5):
        yield from product(cmds, repeat=n)


def user(script, ctx):
    import builtins
    import importlib
    U = importlib.import_module('aalpy.oracles.UserInputEqOracle')
    from mc.ref import Ref
    s = Ref('mealy', 2, ((1, 0), (0, 1)), ((0, 0), (1, 1)))
    h = Ref('mealy', 2, ((0, 0),), ((0, 0),))
    base = ref_sul(s, A)
    hyp = build(h, A)
    it = iter(list(script) + ['end'])
    o1, o2 = builtins.input, U.visualize_automaton
    try:
        builtins.input = lambda *a: next(it)
        U.visualize_automaton = lambda *a, **k: None
        orac = U.UserInputEqOracle(list(A), base)
        cex = orac.find_cex(hyp)
    finally:
        builtins.input, U.visualize_automaton = o1, o2
    want, cur = None, []
    steps, resets = 0, 1
    for x in list(script) + ['end']:
        if x in A:
            cur.append(x)
            steps += 1
        elif x == 'reset':
            cur = []
            resets += 1
        elif x == 'cex' and cur:
            want = cur
            break
        elif x == 'end':
            break
    ctx.eq(list(cex) if cex is not None else None, want, f'user input {script}: returned sequence')
    ctx.eq((orac.num_queries, orac.num_steps), (base.pres, base.raw_steps), f'user input {script}: counters')
    ctx.eq((base.pres, base.raw_steps), (resets, steps), f'user input {script}: executed on the system')
    ctx.trace()
    ctx.outcome((tuple(want or ()), steps, resets))


def run(case, ctx):
    ctx.state()
    if case[0] == 'cover':
        cover(from_key(case[1]), ctx)
    elif case[0] == 'bfs':
        bfs(from_key(case[1]), ctx)
    elif case[0] == 'two':
        two(from_key(case[1]), from_key(case[2]), ctx)
    else:
        user(case[1], ctx)
    ctx.sample(case)
