"""Saving an automaton to a dot file and loading it gives the same automaton."""
import os, shutil, tempfile
from mc import anyaut as aa, partial as pt, push
from mc.props import P

META = P['C20']
CHUNK = 8
IDS = [lambda n: [f's{j}' for j in range(n)], lambda n: [f'q_{n - j}' for j in range(n)], lambda n: [str(j) for j in range(n)],
       lambda n: aa.upto(['Idle', 'label', 'x1y', 'END'], n), lambda n: aa.upto(['sa', 's_1', 's', 's01'], n) if n > 4 else ['s10', 's1', 's', 's01'][:n],
       lambda n: aa.upto(['1a', '_', '2_b'], n), lambda n: list(range(n))]
AL = [['a', 'b', 'c'], [0, 1, 12], ['coin', '5 euro', 'a-b'], ['push', 'pop', '#'], ['x_1', 3, "it's"], ['label', 'start0', '()'], [',', ';', '['], ['a=b', '-1', '0.5']]
OUT = [['x', 'y', 'z'], [0, 1, 12], ['a b', '-', 'O.K.'], [2, 'x', '++'], ['label', 'doublecircle', "'q'"], ['-1', '0.5', 'a=b'], [',', ';', ']']]
# pushdown automata: letters and stack symbols without blanks
PAL = [{('i', 0): 'x', ('i', 1): 'y', ('c', 0): '(', ('c', 1): '[', ('r', 0): ')', ('r', 1): ']'},
       {('i', 0): 0, ('i', 1): 1, ('c', 0): 2, ('c', 1): 3, ('r', 0): 4, ('r', 1): 5},
       {('i', 0): 'push', ('i', 1): 'pop', ('c', 0): 'pushA', ('c', 1): 'call', ('r', 0): 'popA', ('r', 1): 'ret'},
       {('i', 0): 'a-b', ('i', 1): 7, ('c', 0): '{', ('c', 1): 'c_1', ('r', 0): '}', ('r', 1): 11}]
GS = [['(', '['], [0, 1], ['A', 'B'], ['pop', 'x1'], [')', ']']]
FILES = ['m', 'LearnedModel', 'my_labels', 'a-b c', 'sub/model']


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 1, 1), (2, 2, 11 if q else 1), (3, 1, 11 if q else 1), (3, 2, 9973 if q else 499)):
            for i, m in enumerate(pt.all_partial(kind, n, k)):
                if i % step == 0:
                    j += 1
                    yield ('det', m.key(), j)
                if kind == 'mealy' and (n, k) == (3, 2) and i > (200000 if q else 1000000):
                    break
    for kind in ('mdp', 'smm', 'ndmoore', 'onfsm', 'mc'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1511 if q else 101), (3, 1, 311 if q else 31), (3, 2, 10 ** 7 + 19 if q else 10 ** 6 + 3)):
            if kind == 'mc' and k > 1:
                continue
            if kind in ('smm', 'onfsm'):
                step = step * 11 if n * k > 2 else 5 if q and n * k == 2 else step
                if (n, k) == (3, 2):
                    step *= 1009
            if kind == 'mdp' and (n, k) == (3, 2):
                step *= 37
            for m in aa.tables(kind, n, k, step):
                j += 1
                yield ('nd', m.key(), j)
    for kind in ('dfa', 'moore', 'mealy'):
        for name, m in pt.bigs(kind, ('full', 'holes') if q else ('full', 'holes', 'tail', 'twice')):
            for _ in range(3):
                j += 1
                yield ('det', m.key(), j)
    for kind in ('mdp', 'smm', 'ndmoore', 'onfsm', 'mc'):
        for name, m in aa.bigs(kind):
            for _ in range(3):
                j += 1
                yield ('nd', m.key(), j)
    for dims, step in (((1, 1, 1, 1, 1), 1), ((1, 1, 2, 2, 2), 61 if q else 5), ((2, 1, 1, 1, 1), 53 if q else 3), ((2, 0, 2, 2, 2), 11100021 if q else 530003),
                       ((3, 1, 1, 1, 1), 18600033 if q else 860161)):
        for i in range(0, push.vp_count(*dims, True), step):
            j += 1
            yield ('vpa', push.vp_at(*dims, True, i).key(), j)
    from checks.C05 import pick
    for n, ni, nc, nr, dead, step in ((1, 1, 1, 1, True, 1), (1, 1, 2, 2, True, 5), (2, 1, 1, 1, True, 59 if q else 3), (2, 0, 2, 2, True, 8000037 if q else 400009), (3, 1, 1, 1, True, 19003 if q else 901)):
        for v in pick(n, ni, nc, nr, dead, False, step, 0):
            j += 1
            yield ('sevpa', v.key(), j)


def typed(d):
    """Descriptions equal up to 1 == True == 1.0."""
    return repr(d)


def rounded(d, k):
    """The description with every probability rounded to k digits."""
    if isinstance(d, float):
        return round(d, k)
    if isinstance(d, dict):
        return {x: rounded(y, k) for x, y in d.items()}
    if isinstance(d, (list, tuple)):
        return type(d)(rounded(x, k) for x in d)
    return d


def run(case, ctx):
    typ, key, j = case
    from aalpy.utils import load_automaton_from_file, save_automaton_to_file
    ctx.state()
    if typ in ('det', 'nd'):
        mod = pt if typ == 'det' else aa
        p = mod.of_key(key)
        kind, n = p.kind, p.n
        ids = IDS[j % len(IDS)](n)
        al, out = AL[j // 7 % 8] + [f'i{x}' for x in range(1, 11)], OUT[j // 9 % 7]
        st = []
        m = mod.build(p, al, order=list(reversed(range(n))) if j % 2 else None, ids=ids, om=lambda o: out[o], out=st)
    else:
        ref = (push.VPRef if typ == 'vpa' else push.VRef).of(key)
        kind, n = typ, ref.n
        al = PAL[j // 7 % 4]
        gs = GS[j // 9 % 5]
        ids = IDS[j % len(IDS)](n)
        ids = ids if typ == 'vpa' else [str(x) for x in ids]
        m = push.build_vpa(ref, al, gs) if typ == 'vpa' else push.build_sevpa(ref, al)
        f = {f'q{x}': ids[x] for x in range(n)}
        for x in m.states:
            if x.state_id != 'ErrorSinkState':
                x.state_id = f[x.state_id]
                if typ == 'sevpa':
                    for l in x.transitions.values():
                        for t in l:
                            if t.stack_guard:
                                t.stack_guard = (f[t.stack_guard[0]], t.stack_guard[1])
    d0 = aa.describe(m)
    saved, ids = ids, [str(x) for x in ids]
    order = [str(s.state_id) for s in m.states if s.state_id != 'ErrorSinkState']
    what = f'{kind} {key} ids {ids} letters {al}'
    tmp = tempfile.mkdtemp(prefix='verif-c20-')
    try:
        os.mkdir(os.path.join(tmp, 'sub'))
        path = os.path.join(tmp, FILES[j // 3 % 5])
        text = save_automaton_to_file(m, path, file_type='string')
        ctx.check(not os.listdir(os.path.join(tmp, 'sub')) and os.listdir(tmp) == ['sub'], f'{what}: file_type string writes a file')
        if j % 2:
            save_automaton_to_file(m, path + '.dot' if j % 4 == 1 else path, display_same_state_trans=j % 3 > 0)
        else:
            m.save(path)
        ctx.eq(typed(aa.describe(m)), typed(d0), f'{what}: automaton after saving it')
        # identifiers are read as strings
        d0 = aa.describe(m, key=lambda s: str(s.state_id))
        with open(path + '.dot') as f:
            content = f.read()
        ctx.eq(content.strip(), text.strip(), f'{what}: string form and file')
        for pre in (False, True):
            try:
                c = load_automaton_from_file(path + '.dot', kind, compute_prefixes=pre)
            except Exception as e:
                ctx.fail(f'{what}: loading fails with {type(e).__name__}: {e}\n{content}')
            ctx.trace()
            ctx.trans(sum(len(x[1]) for x in d0[2].values()))
            ctx.check(type(c) is type(m), f'{what}: loaded as {type(c).__name__}')
            ctx.check(typed(aa.describe(c)) == typed(d0), lambda: f'{what}: loaded automaton {aa.describe(c)}, saved {d0}\n{content}')
            ctx.eq([s.state_id for s in c.states], order, f'{what}: order of the states')
            if typ == 'det':
                R = pt.reach(p, 0)
                for s in c.states:
                    x = ids.index(s.state_id)
                    if pre:
                        ctx.eq(None if s.prefix is None else len(s.prefix), len(R[x]) if x in R else None, f'{what}: access word of {s.state_id} after loading')
            # saving the loaded automaton gives the same file
            ctx.eq(save_automaton_to_file(c, path, file_type='string'), text, f'{what}: saved again')
            if typ == 'vpa' or typ == 'sevpa':
                a, b = c.get_input_alphabet(), m.get_input_alphabet()
                for x in ('internal_alphabet', 'call_alphabet', 'return_alphabet'):
                    ctx.eq(sorted(map(repr, getattr(a, x))), sorted(map(repr, getattr(b, x))), f'{what}: {x} after loading')
        ctx.outcome(text)
        if kind in ('mc', 'mdp', 'smm'):
            k = 1 + j % 2
            save_automaton_to_file(m, path, round_floats=k)
            c = load_automaton_from_file(path + '.dot', kind)
            rnd = rounded(d0, k)
            ctx.check(repr(aa.describe(c)) == repr(rnd), lambda: f'{what}: saved with {k} digits: {aa.describe(c)}, expected {rnd}')
            ctx.eq(typed(aa.describe(m, key=lambda s: str(s.state_id))), typed(d0), f'{what}: automaton after saving it rounded')
    finally:
        shutil.rmtree(tmp)
    if j % 499 == 0:
        ctx.sample(case)
