"""Conversions between model types: stochastic Mealy -> MDP, Moore -> DFA, MDP -> Markov chain, MDP -> PRISM text."""
import os, re, tempfile
from fractions import Fraction as F
from itertools import product
from mc import anyaut as aa, partial as pt
from mc.build import ALPHABETS
from mc.props import P

META = P['C24']
CHUNK = 8


def cases(tier):
    q = tier == 'quick'
    j = 0
    for n, k, outs, step in ((1, 1, 2, 1), (1, 2, 2, 1), (2, 1, 2, 3 if q else 1), (1, 1, 3, 1), (2, 1, 3, 17 if q else 1), (2, 2, 2, 1009 if q else 101), (3, 1, 2, 97 if q else 7), (3, 2, 2, 10 ** 10 + 19 if q else 10 ** 9 + 7)):
        for m in aa.tables('smm', n, k, step, outs=outs, observable=False):
            j += 1
            yield ('smm', m.key(), j)
    for name, m in aa.bigs('smm', outs=3):
        j += 1
        yield ('smm', m.key(), j)
    j = 0
    yield ('big', 12, 0)
    for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 7 if q else 1), (3, 1, 3 if q else 1), (3, 2, 10 ** 7 + 19 if q else 10 ** 6 + 3)):
        for m in aa.tables('mdp', n, k, step):
            j += 1
            yield ('mdp', m.key(), j)
    for name, m in aa.bigs('mdp'):
        for _ in range(5):
            j += 1
            yield ('mdp', m.key(), j)
    j = 0
    for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (3, 1, 7 if q else 1), (2, 2, 7 if q else 1), (3, 2, 9001 if q else 499)):
        for i, m in enumerate(pt.all_partial('moore', n, k, outs=3)):
            if i % step == 0:
                j += 1
                yield ('moore', m.key(), j)
    for _, m in pt.bigs('moore'):
        j += 1
        yield ('moore', m.key(), j)
    yield ('fmt', None, 0)


def words_dist(tr, s0, w):
    """Distribution of output words; tr(state, input) -> [(target, output, probability)] or None."""
    d = {(s0, ()): F(1)}
    for i in w:
        e = {}
        for (s, os), q in d.items():
            for t, o, pr in tr(s, i):
                x = (t, os + (repr(o),))
                e[x] = e.get(x, 0) + q * F(pr)
        d = e
    r = {}
    for (_, os), q in d.items():
        r[os] = r.get(os, 0) + q
    return r


def run_smm(ctx, smm, d0, al, what, depth):
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    al0, comp0, states0 = smm.get_input_alphabet(), smm.is_input_complete(), list(smm.states)
    for f in (smm_to_mdp_conversion, lambda m: m.to_mdp()):
        mdp = f(smm)
        ctx.trace()
        ctx.eq(type(mdp).__name__, 'Mdp', f'{what}: type')
        dm = aa.describe(mdp)                    # also checks that identifiers are unique
        ids = {id(s) for s in mdp.states}
        ctx.check(id(mdp.initial_state) in ids and all(id(t) in ids for s in mdp.states for l in s.transitions.values() for t, _ in l), f'{what}: target state missing in the state list')
        ctx.check(aa.describe(smm) == d0 and smm.get_input_alphabet() == al0 and smm.is_input_complete() == comp0 and
                  all(a is b for a, b in zip(smm.states, states0)), f'{what}: the conversion changes the stochastic Mealy machine')
        A = lambda s, i: [(t, o, p) for t, (o, p) in d0[2][s][1].get(i, [])]
        B = lambda s, i: [(t, dm[2][t][0], p) for t, (p,) in dm[2][s][1].get(i, [])]
        for L in range(depth + 1):
            for w in product(al, repeat=L):
                a, b = words_dist(A, d0[1], w), words_dist(B, dm[1], w)
                ctx.trans(L)
                ctx.check(a == b, lambda: f'{what}: output distribution of {w} is {b}, expected {a}')
        ctx.check(all(dm[2][s][0] != dm[2][dm[1]][0] for s in dm[2] if s != dm[1]) or not dm[2], f'{what}: output of the start state is not unique')
        ctx.outcome(repr(sorted(map(repr, dm[2].items()))))


def parse_prism(text):
    """Reader of the PRISM subset the exporter writes."""
    lines = re.sub(r'\s+', ' ', text)
    m = re.fullmatch(r'mdp module (\S+) loc : \[(\d+)\.\.(\d+)\] init (\d+); (.*?)\bendmodule\b ?(.*)', lines)
    assert m, f'not a PRISM module: {text!r}'
    name, lo, hi, init, body, labels = m.groups()
    trans = {}
    rest = re.sub(r"\[([^\]]*)\] loc=(\d+) -> ([^;]*);", lambda x: trans.setdefault((int(x.group(2)), x.group(1)), x.group(3)) and '', body)
    assert not rest.strip(), f'unreadable: {rest!r}'
    out = {}
    for (s, a), x in trans.items():
        out[(s, a)] = []
        for part in x.split(' + '):
            y = re.fullmatch(r"\s*([0-9.e+-]+) : \(loc'=(\d+)\)\s*", part)
            assert y, f'unreadable branch {part!r}'
            out[(s, a)].append((int(y.group(2)), float(y.group(1))))
    labs = {}
    rest = re.sub(r'label "([^"]*)" = ([^;]*);', lambda x: labs.setdefault(x.group(1), x.group(2)) and '', labels)
    assert not rest.strip(), f'unreadable: {rest!r}'
    return name, int(lo), int(hi), int(init), out, {k: {int(y[4:]) for y in v.split('|')} for k, v in labs.items()}


def run(case, ctx):
    typ, key, j = case
    ctx.state()
    if typ == 'smm':
        p = aa.of_key(key)
        al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:p.k]
        outs = [['x', 'y', 'z'], [0, 1, 2], ['', None, 'a'], [(1,), False, 'b']][j // 4 % 4]
        ids = [[f's{x}' for x in range(p.n)], list(range(p.n)), [str(x) for x in range(p.n)], aa.upto(['s_1', 's_11', 's'], p.n), aa.upto(['', '0', '00'], p.n)][j % 5]
        m = aa.build(p, al, ids=ids, om=lambda o: outs[o], order=list(reversed(range(p.n))) if j % 2 else None)
        return run_smm(ctx, m, aa.describe(m), al, f'{p} ids {ids} letters {al} outputs {outs}', (2 * p.n if p.k == 1 else p.n + 1) if p.n < 5 else 3)
    if typ == 'big':
        # a ring of states in which state x is entered with x + 1 different outputs
        n = 12
        cells = tuple((tuple(((x + 1) % n, o, 1 / 16) for o in range(15)) + ((x, 15, 1 / 16),),) for x in range(n))
        p = aa.NRef('smm', 1, cells)
        m = aa.build(p, ['a'], ids=[f's{x}' for x in range(n)])
        return run_smm(ctx, m, aa.describe(m), ['a'], 'ring of 12 states, 16 outputs', 2)
    if typ == 'fmt':
        from aalpy.utils.HelperFunctions import mc_format_to_mdp
        for L in range(4):
            for seq in product(('x', 0, ''), repeat=L + 1):
                d = [list(seq), [*seq, 'y']]
                got = mc_format_to_mdp(d)
                ctx.trace()
                ctx.check(d == [list(seq), [*seq, 'y']], 'mc_format_to_mdp changes its argument')
                ctx.check([g[0] for g in got] == [x[0] for x in d] and [[o for _, o in g[1:]] for g in got] == [x[1:] for x in d] and
                          len({i for g in got for i, _ in g[1:]}) <= 1, lambda: f'mc_format_to_mdp({d}) = {got}')
        return
    if typ == 'moore':
        from aalpy.utils.HelperFunctions import dfa_from_moore
        p = pt.of_key(key)
        al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:p.k]
        for outs, ok in (((True, False, None), True), ((False, True, True), True), ((1, 0, None), True), ((True, 'x', False), False), ((None, False, 2), False), (('a', 'True', ''), False)):
            m = pt.build(p, al, ids=list(range(p.n)) if j % 2 else None, om=lambda o: outs[o], order=list(reversed(range(p.n))) if j % 3 else None)
            d0 = aa.describe(m)
            valid = all(outs[o] in (True, False, None) for o in p.so)
            what = f'{p} outputs {outs}'
            ctx.trace()
            ctx.trans(p.n * p.k)
            try:
                c = dfa_from_moore(m)
            except ValueError:
                ctx.check(not valid, f'{what}: conversion to a DFA refused')
                continue
            finally:
                ctx.check(aa.describe(m) == d0, f'{what}: the conversion changes the Moore machine')
            ctx.check(valid, f'{what}: converted to a DFA')
            d = aa.describe(c)
            ctx.eq((d[0], d[1]), ('dfa', d0[1]), f'{what}: type and initial state')
            ctx.eq(d[2], {s: (bool(lab), tr) for s, (lab, tr) in d0[2].items()}, f'{what}: DFA')
            ctx.check(not (aa.containers(c) & aa.containers(m)), f'{what}: DFA and Moore machine share objects')
            ctx.outcome(repr(d))
        return
    # MDP -> Markov chain and PRISM
    from aalpy.utils import mdp_2_prism_format
    from aalpy.utils.HelperFunctions import mc_from_mdp
    p = aa.of_key(key)
    al = [(l + [f'i{x}' for x in range(10)] if p.k > 4 else l) for l in ([['a', 'b', 'c', 'd'], ['init', 'x1', 'x', 'x2'], [0, 1, 2, 10], ['label', 'mdp', 'endmodule', 'e'], [(0,), '', 'z', 1]][j % 5],)][0][:p.k]
    outs = [['x', 'y'], ['a__b', 'b__c'], [0, 1], ['init', 'module']][j // 5 % 4]
    ids = [[f's{x}' for x in range(p.n)], list(range(p.n)), aa.upto(['x', 'y', 'z'], p.n)][j % 3]
    m = aa.build(p, al, ids=ids, om=lambda o: outs[o], order=list(reversed(range(p.n))) if j % 2 else None)
    d0 = aa.describe(m)
    what = f'{p} ids {ids} letters {al} outputs {outs}'
    used = m.get_input_alphabet()
    for sym in [None] + used:
        ctx.trace()
        try:
            c = mc_from_mdp(m, sym) if sym is not None or j % 2 else mc_from_mdp(m)
        except ValueError:
            ctx.check(sym is None and len(used) != 1, f'{what}: conversion to a Markov chain with input {sym!r} refused')
            continue
        ctx.check(sym is not None or len(used) == 1, f'{what}: converted to a Markov chain without choosing one of {used}')
        x = used[0] if sym is None else sym
        d = aa.describe(c)
        ctx.eq((d[0], d[1]), ('mc', d0[1]), f'{what}: type and initial state')
        ctx.eq(d[2], {s: (lab, [(t, pr) for t, (pr,) in tr.get(x, [])]) for s, (lab, tr) in d0[2].items()}, f'{what}: Markov chain of input {sym!r}')
        ctx.check(aa.describe(m) == d0 and m.get_input_alphabet() == used, f'{what}: the conversion changes the MDP')
        ctx.outcome(repr(d))
    if 0 in used or '' in used or (0,) in used:
        pass                                     # not PRISM identifiers; still written literally
    text = mdp_2_prism_format(m, 'model')
    name, lo, hi, init, tr, labs = parse_prism(text)
    ctx.trace()
    num = {s.state_id: x for x, s in enumerate(m.states)}
    words = ('mdp', 'init', 'module', 'endmodule', 'label')
    esc = lambda x: f'___{x}___' if x in words else str(x)
    ctx.eq(name, 'model', f'{what}: name')
    ctx.check(lo == 0 and hi >= p.n - 1, f'{what}: range of locations [{lo}..{hi}]')
    ctx.eq(init, num[d0[1]], f'{what}: initial location')
    ctx.eq(tr, {(num[s], esc(i)): [(num[t], pr) for t, (pr,) in l] for s, (_, x) in d0[2].items() for i, l in x.items()}, f'{what}: PRISM transitions\n{text}')
    exp = {}
    for s, (lab, _) in d0[2].items():
        for o in str(lab).split('__'):
            exp.setdefault(esc(o), set()).add(num[s])
    ctx.eq(labs, exp, f'{what}: PRISM labels\n{text}')
    ctx.check(aa.describe(m) == d0 and m.get_input_alphabet() == used, f'{what}: the export changes the MDP')
    if j % 7 == 0:
        fd, path = tempfile.mkstemp(prefix='verif-c24-')
        os.close(fd)
        try:
            ctx.eq(mdp_2_prism_format(m, 'model', path), text, f'{what}: PRISM text with a file')
            with open(path, newline='') as f:
                ctx.eq(f.read(), text, f'{what}: PRISM file')
        finally:
            os.remove(path)
    if j % 499 == 0:
        ctx.sample(case)
