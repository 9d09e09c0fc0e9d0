"""Sampled and loaded data sets: true executions of exactly the specified words, complete samples, tokenizers, conversions."""
import os
from fractions import Fraction as F
from itertools import product
from mc import anyaut as aa
from mc.build import ALPHABETS, build, read
from mc.choices import distribution, explore
from mc.push import build_vpa, vp_at, vp_count
from mc.ref import Ref, equivalent, from_key, machines, words
from mc.props import P

META = P['C39']
CHUNK = 8
OM = [0, 'y', '']
LIM = ((1, 1, 1), (1, 0, 2), (2, 0, 1), (1, 2, 3), (2, 1, 2), (0, 0, 3), (3, 1, 1))


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, step in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, {'mealy': 11}.get(kind, 1) if q else 1), (4, 1, 1),
                           (4, 2, 10 ** 9 if kind == 'mealy' else 97 if q else 7)):
            if (n, k) == (4, 2) and kind == 'mealy':
                continue
            for i, m in enumerate(machines(kind, n, k)):
                if i % step == 0:
                    j += 1
                    yield ('det', m.key(), j)
    for kind in ('mdp', 'smm', 'ndmoore', 'onfsm', 'mc'):
        for n, k, step in ((1, 1, 1), (2, 1, 1), (2, 2, 401 if q else 21)):
            if kind == 'mc' and k > 1:
                continue
            if kind in ('smm', 'onfsm'):
                step *= 31 if k == 2 else 3
            for m in aa.tables(kind, n, k, step, width=2, observable=True, partial=False):
                j += 1
                yield ('nd', m.key(), j)
    for n, ni, nc, nr, ng, part, step in ((1, 1, 1, 1, 1, True, 1), (1, 0, 1, 1, 1, True, 1), (2, 0, 1, 1, 1, True, 1), (2, 1, 1, 1, 1, False, 2 if q else 1), (2, 1, 1, 1, 2, True, 40009 if q else 1999)):
        for x in range(0, vp_count(n, ni, nc, nr, ng, part), step):
            j += 1
            yield ('vpa', (n, ni, nc, nr, ng, part, x), j)
    for k in (1, 2, 3):
        for x, lim in enumerate(LIM):
            yield ('words', k, lim, x)
    for num, width in ((0, 0), (1, 0), (1, 3), (2, 2), (3, 1)):
        yield ('files', num, width, 0)


def label_last(m, w):
    return m.out[m.state(w)] if m.kind != 'mealy' else m.outputs(w)[-1]


def io(m, w):
    """Outputs along a word by the reference table."""
    s, r = 0, []
    for a in w:
        t = m.delta[s][a]
        r.append(m.out[s][a] if m.kind == 'mealy' else m.out[t])
        s = t
    return r


def run_det(m, j, ctx):
    from aalpy.utils import Sampling as S
    from aalpy.utils.HelperFunctions import convert_i_o_traces_for_RPNI, generate_input_output_data_from_automata
    from aalpy.learning_algs import run_RPNI, run_GSM
    kind, k = m.kind, m.k
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[j % 4]][:k]
    om = (lambda o: bool(o)) if kind == 'dfa' else (lambda o: OM[o])
    fresh = lambda: build(m, al, om, order=list(reversed(range(m.n))) if j % 2 else None)
    aut = fresh()
    ws = list(words(k, 0, 3))
    cw = [tuple(al[a] for a in w) for w in ws]
    mk = tuple if j % 3 else list
    given = [mk(w) for w in cw]
    init = [om(m.out[0])] if kind != 'mealy' else []
    want = [init + list(zip(c, [om(o) for o in io(m, w)])) for w, c in zip(ws, cw)]
    what = f'{m} letters {al}'
    ctx.trans(len(ws))
    ctx.eq(S.get_io_traces(aut, given), want, f'{what}: get_io_traces')
    ctx.eq(S.get_data_from_input_sequence(aut, given, 'io_sequences'), want, f'{what}: get_data_from_input_sequence')
    first = 1 if kind == 'mealy' else 0
    lab = [(g, om(label_last(m, w))) for w, g in list(zip(ws, given))[first:]]
    for f in (lambda: S.get_labeled_sequences(aut, given[first:]), lambda: S.get_data_from_input_sequence(aut, given[first:], 'labeled_sequences')):
        got = f()
        ctx.check([(tuple(a), type(b), b) for a, b in got] == [(tuple(a), type(b), b) for a, b in lab], lambda: f'{what}: labelled sequences {got}, expected {lab}')
    for bad in ((lambda: S.get_data_from_input_sequence(aut, given, 'nonsense')), (lambda: S.get_labeled_sequences(aut, [()])) if kind == 'mealy' else None):
        if bad:
            try:
                r = bad()
            except ValueError:
                continue
            ctx.fail(f'{what}: accepted, result {r}')
    ctx.check([mk(w) for w in cw] == given, f'{what}: the given words were changed')
    # conversion for RPNI
    rp = convert_i_o_traces_for_RPNI(want, kind)
    exp = {(tuple(c), om(label_last(m, w))) for w, c in zip(ws, cw) if w or kind != 'mealy'}
    ctx.check(len(rp) == len(exp) and set(rp) == exp and all(type(dict(rp)[w]) is type(o) for w, o in exp), lambda: f'{what}: RPNI data {sorted(map(repr, rp))}')
    # complete sample
    if m.is_minimal():
        full = S.get_complete_sample(fresh())
        acc = {}
        for w in words(k, 0, m.n):
            acc.setdefault(m.state(w), w)
        chars = {tuple(x) for x in full}
        for s in range(m.n):
            for a in [()] + [(x,) for x in al]:
                ctx.check(any(c[:len(acc[s]) + len(a)] == tuple(al[x] for x in acc[s]) + a for c in chars), lambda: f'{what}: complete sample {full} lacks {acc[s]} followed by {a}')
        tr = S.get_complete_sample(fresh(), include_outputs=True)
        back = [init + list(zip(c, [om(o) for o in io(m, tuple(al.index(x) for x in c))])) for c in full]
        ctx.eq(sorted(map(repr, tr)), sorted(map(repr, back)), f'{what}: complete sample with outputs')
        inv = (lambda o: o) if kind == 'dfa' else (lambda o: OM.index(o))
        learned = [('GSM', lambda: run_GSM([list(t) for t in tr], output_behavior='mealy' if kind == 'mealy' else 'moore', data_format='io_traces'))]
        for alg in ('gsm', 'classic'):
            learned.append((f'RPNI {alg}', lambda alg=alg: run_RPNI(convert_i_o_traces_for_RPNI(tr, kind), kind, algorithm=alg, print_info=False)))
            if kind != 'mealy':
                learned.append((f'RPNI {alg} labelled', lambda alg=alg: run_RPNI(S.get_labeled_sequences(fresh(), full), kind, algorithm=alg, print_info=False)))
        for name, f in learned:
            g = f()
            ctx.trace()
            if name == 'GSM' and kind == 'dfa':
                got = read(g, al, lambda o: o)
                got.kind = 'dfa'
            else:
                got = read(g, al, inv)
            ctx.check(got.n == m.n and equivalent(m, got), lambda: f'{what}: {name} learns {got} from the complete sample {tr}')
    # random data
    if j % 4 == 0:
        num, lo, hi = ((1, 1, 2), (2, 1, 1), (1, 2, 2), (1, 1, 3))[j // 4 % 4]
        aut = fresh()
        for typ in ('io_traces', 'labeled_sequences'):
            def body(c):
                return tuple((tuple(x) if typ == 'io_traces' else (tuple(x[0]), x[1])) for x in
                             generate_input_output_data_from_automata(aut, num_sequances=num, min_seq_len=lo, max_seq_len=hi, sequance_type=typ))
            got = distribution(body, ctx)
            exp = {}
            one = {}
            for w in words(k, lo, hi):
                c, o = tuple(al[a] for a in w), [om(x) for x in io(m, w)]
                one[tuple(zip(c, o)) if typ == 'io_traces' else (c, o[-1])] = F(1, hi - lo + 1) / k ** len(w)
            for t in product(one, repeat=num):
                p = F(1)
                for x in t:
                    p *= one[x]
                exp[t] = exp.get(t, 0) + p
            ctx.check(got == exp, lambda: f'{what}: generated data {got}, expected {exp}')
    ctx.outcome((kind, m.n, len(rp)))


def paths(p, letters, w):
    """Output sequences possible for a word."""
    cur = {(0, ())}
    for i in w:
        cur = {(t, os + ((p.so[t] if p.kind in aa.STATE_OUT else o),)) for s, os in cur for t, o, _ in p.cells[s][i]}
    return {os for _, os in cur}


def run_nd(p, j, ctx):
    from aalpy.utils import Sampling as S
    al = ALPHABETS[('str', 'zero')[j % 2]][:p.k]
    outs = [['x', 'y'], [0, 1], ['', None]][j % 3]
    m = aa.build(p, al, om=lambda o: outs[o])
    moore = p.kind in aa.STATE_OUT
    ws = [w for w in words(p.k, 0, 2)]
    for w in ws:
        seen = set()
        word = [al[a] for a in w]

        def body(c):
            tr = S.get_io_traces(m, [list(word), list(word)])
            ctx.eq(len(tr), 2, f'{p}: number of traces')
            for t in tr:
                if moore:
                    ctx.eq(t[0], outs[p.so[0]], f'{p}: initial output')
                    t = t[1:]
                ctx.check([a for a, _ in t] == word, lambda: f'{p}: inputs of {t} for {word}')
                seen.add(tuple(o for _, o in t))
        explore(body, ctx, max_runs=400)
        ctx.eq({repr(x) for x in seen}, {repr(tuple(outs[o] for o in os)) for os in paths(p, al, w)}, f'{p}: traces of {word}')
        ctx.trace()
        if w or moore:
            last = set()

            def body(c):
                (x, o), = S.get_labeled_sequences(m, [list(word)])
                ctx.check(list(x) == word, f'{p}: labelled word')
                last.add(repr(o))
            explore(body, ctx, max_runs=400)
            ctx.eq(last, {repr(outs[os[-1]]) for os in paths(p, al, w)} if w else {repr(outs[p.so[0]])}, f'{p}: labels of {word}')
    ctx.outcome((p.kind, len(ws)))


def run_vpa(par, j, ctx):
    from aalpy.utils.HelperFunctions import generate_input_output_data_from_vpa
    n, ni, nc, nr, ng, part, x = par
    v = vp_at(n, ni, nc, nr, ng, part, x)
    al = {}
    pool = ALPHABETS[('str', 'zero', 'tuple')[j % 3]]
    for y, key in enumerate([('i', i) for i in range(ni)] + [('c', c) for c in range(nc)] + [('r', r) for r in range(nr)]):
        al[key] = pool[y]
    m = build_vpa(v, al, ['g', 'h'])
    syms = set(m.input_alphabet.get_merged_alphabet())
    if not syms:
        return
    inv = {c: key for key, c in al.items()}
    for num, ln, att in ((2, 2, 3), (1, 2, None), (4, 1, 3), (3, 3, 2)):
        def body(c):
            data = generate_input_output_data_from_vpa(m, num_sequances=num, max_seq_len=ln, max_attempts=att)
            ws = [w for w, _ in data]
            ctx.check(len(set(ws)) == len(ws), lambda: f'{v}: repeated words in {data}')
            for w, o in data:
                ctx.check(0 < len(w) <= ln and set(w) <= syms, lambda: f'{v}: word {w}')
                ctx.check(o is bool(v.run([inv[a] for a in w])[-1]), lambda: f'{v}: {w} is labelled {o!r}')
                ctx.check(len(w) == 1 or w[:-1] in ws, lambda: f'{v}: prefix of {w} missing')
            if att is None:
                ctx.check(len(data) >= num, lambda: f'{v}: only {len(data)} words')
            ctx.trans(len(data))
            return tuple(sorted(map(repr, ws)))
        explore(body, ctx, max_runs=200)
        ctx.trace()


def run_words(k, lim, x, ctx):
    from aalpy.utils import Sampling as S
    num, lo, hi = lim
    al = ALPHABETS[('str', 'zero', 'tuple', 'mixed')[x % 4]][:k]
    m = build(Ref('mealy', k, ((0,) * k,), ((0,) * k,)), al)
    if num * hi * k <= 12:
        one = {tuple(al[a] for a in w): F(1, hi - lo + 1) / k ** len(w) for w in words(k, lo, hi)}
        exp = {}
        for t in product(one, repeat=num):
            p = F(1)
            for w in t:
                p *= one[w]
            exp[t] = p
        for src in (al, m):
            got = distribution(lambda c: tuple(tuple(w) for w in S.sample_with_length_limits(src, num, lo, hi)), ctx)
            ctx.check(got == exp, lambda: f'sample_with_length_limits({al}, {lim}): {got}')
            ctx.trace()
        got = distribution(lambda c: tuple(tuple(t) for t in S.sample_with_length_limits(m, num, lo, hi, include_outputs=True)), ctx)
        ctx.check(got == {tuple(tuple((a, 0) for a in w) for w in t): p for t, p in exp.items()}, lambda: f'sample_with_length_limits with outputs: {got}')
    for tp in (0.25, 0.5, 1):
        for script in product((tp / 2, tp, (1 + tp) / 2 if tp < 1 else 1 - 2 ** -53, 1 - 2 ** -53), repeat=3):
            want_len = []
            it = list(script)
            for _ in range(num):
                n = 0
                while it and it.pop(0) > tp:
                    n += 1
                want_len.append(n)
            for src in (al, m):
                seen = set()

                def body(c):
                    vals = list(script)
                    c.random = lambda: vals.pop(0) if vals else 0.0
                    r = S.sample_with_term_prob(src, num, tp)
                    ctx.eq([len(w) for w in r], want_len, f'sample_with_term_prob({al}, {num}, {tp}) with random numbers {script}: lengths')
                    seen.add(tuple(tuple(w) for w in r))
                explore(body, ctx, max_runs=300)
                if k ** sum(want_len) <= 300:
                    ctx.eq(len(seen), k ** sum(want_len), f'sample_with_term_prob({al}, {num}, {tp}): words')
            ctx.trans()
    try:
        S.sample_with_length_limits(al, 0, 1, 1, include_outputs=True)
    except ValueError:
        pass
    else:
        ctx.fail('outputs without an automaton')


def run_files(num, width, ctx):
    from aalpy.utils import CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer
    from aalpy.utils.HelperFunctions import mc_format_to_mdp
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'data.txt')
        chars = 'a0, /'
        for rows in product([''.join(t) for l in range(1, width + 1) for t in product(chars, repeat=l)] or [''], repeat=num):
            for end in ('', '\n'):
                if not end and rows and not rows[-1]:
                    continue
                open(f, 'w').write('\n'.join(rows) + (end if rows else ''))
                ctx.state()
                ctx.eq(CharacterTokenizer().tokenize_data(f), [list(r) for r in rows], f'CharacterTokenizer on {rows}')
                ctx.eq(DelimiterTokenizer().tokenize_data(f), [r.split(',') for r in rows], f'DelimiterTokenizer on {rows}')
                ctx.eq(DelimiterTokenizer().tokenize_data(f, delimiter='/'), [r.split('/') for r in rows], f'DelimiterTokenizer / on {rows}')
                ctx.trace()
        syms = ['a', '10', '0', 'x y', 'Init', 'b']
        conv = lambda x: int(x) if x.isdigit() else x
        rowsets = [[('s0',) + r for r in t] for t in product([tuple(zip(t[::2], t[1::2])) for l in (0, 2, 4) if l <= 2 * width for t in product(syms[:4], repeat=l)], repeat=min(num, 1 if width > 1 else 2))]
        for rows in rowsets:
            for iod, wd in (('/', ','), (':', ' ; '), (',', '/')):
                open(f, 'w').write('\n'.join(wd.join([r[0]] + [f'{a}{iod}{o}' for a, o in r[1:]]) for r in rows) + ('\n' if rows else ''))
                got = IODelimiterTokenizer().tokenize_data(f, io_delimiter=iod, word_delimiter=wd)
                ctx.eq(got, [[r[0]] + [(conv(a), conv(o)) for a, o in r[1:]] for r in rows], f'IODelimiterTokenizer {iod} {wd} on {rows}')
                ctx.state()
        for bad in ('s0,a', 's0,a/b/c', 's0,a/b,c', 's0,'):
            open(f, 'w').write(bad + '\n')
            try:
                r = IODelimiterTokenizer().tokenize_data(f)
            except SystemExit as e:
                ctx.check(e.code not in (0, None), 'malformed data ends successfully')
                continue
            ctx.fail(f'malformed data {bad} is read as {r}')
        for rows in product([['i'] + list(t) for l in range(3) for t in product([0, 'x', ''], repeat=l)], repeat=min(num, 2)):
            got = mc_format_to_mdp([list(r) for r in rows])
            ctx.check(len(got) == len(rows) and all(g[0] == r[0] and [o for _, o in g[1:]] == r[1:] and len({i for i, _ in g[1:]}) <= 1 for g, r in zip(got, rows)),
                      lambda: f'mc_format_to_mdp({rows}): {got}')


def run(case, ctx):
    ctx.state()
    if case[0] == 'det':
        run_det(from_key(case[1]), case[2], ctx)
    elif case[0] == 'nd':
        run_nd(aa.of_key(case[1]), case[2], ctx)
    elif case[0] == 'vpa':
        run_vpa(case[1], case[2], ctx)
    elif case[0] == 'words':
        run_words(case[1], case[2], case[3], ctx)
    else:
        run_files(case[1], case[2], ctx)
    ctx.sample(case)
