"""Generalized state merging (deterministic and nondeterministic), EDSM and k-tails: agreement with the data and counts."""
from itertools import product
from mc import passive as ps
from mc.build import ALPHABETS, read
from mc.ref import big, family, machines, equivalent, from_key
from mc.props import P

META = P['C27']
CHUNK = 4
OM = [0, 'y', '']
OMK = ['u', 'v', 'w']


def cases(tier):
    q = tier == 'quick'
    for kind, k, n, outs, step in (('dfa', 2, 2, 2, 4 if q else 1), ('dfa', 1, 4, 2, 1), ('moore', 2, 2, 3, 41 if q else 7),
                                   ('dfa', 2, 3, 2, 60013 if q else 4999)):
        for i, s in ps.samples(k, n, range(outs)):
            if i % step == 0:
                yield ('s', kind, k, s, i)
    for k, d, o, step in ((2, 2, 2, 1), (1, 4, 2, 1), (2, 3, 2, 1999 if q else 97)):
        for i, t in enumerate(ps.mealy_trees(k, d, o)):
            if i % step == 0:
                yield ('s', 'mealy', k, tuple(ps.tree_sample(t)), i)
    # multisets of traces
    for kind in ('moore', 'mealy'):
        for k, ln, num, step in ((2, 2, 2, 1), (2, 3, 2, 7 if q else 1), (1, 4, 3, 5 if q else 1), (2, 2, 3, 11 if q else 3)):
            tr = [t for l in range(0, ln + 1) for t in product([(i, o) for i in range(k) for o in range(2)], repeat=l)]
            i = 0
            for a in range(len(tr)):
                for b in range(a, len(tr)):
                    for c in (range(b, len(tr)) if num == 3 else (None,)):
                        i += 1
                        if i % step == 0:
                            yield ('t', kind, k, (tr[a], tr[b]) + ((tr[c],) if c is not None else ()), i)
    for kind in ('dfa', 'moore', 'mealy'):
        i = 0
        for n, k in ((1, 2), (2, 2), (2, 1), (3, 1), (3, 2)):
            for m in machines(kind, n, k, minimal=True):
                i += 1
                if n * k >= 6 and i % ({'dfa': 8, 'moore': 8, 'mealy': 160}[kind] if q else {'dfa': 2, 'moore': 2, 'mealy': 40}[kind]):
                    continue
                yield ('m', m.key(), 2 * n, i)
        # samples of larger machines: characteristic ones, and with observations left out
        for name, f in list(big(kind)) + [x for x in family(kind, 2) if x[1].n > 4]:
            for thin in (0, 2, 5) if q else (0, 2, 3, 4, 5, 7, 11):
                i += 1
                yield ('c', f.minimal().key(), thin, i)
    for kind in ('moore', 'mealy'):
        for k in (1, 2, 3):
            for num, ln in ((4, 9), (9, 14)) if q else ((4, 9), (6, 12), (9, 14), (12, 20)):
                for nd in (False, True):
                    for name, tr in ps.long_traces(k, num, ln, nd):
                        i += 1
                        yield ('t', kind, k, tr, i)


def plans(i):
    """(score, futures, only_min_blue, depth_first, node order)"""
    r = []
    for score in (None, 'edsm', 'freq', 'greedy', 'comb'):
        for mb in (False, True):
            for df in (False, True):
                r.append((score, mb, df, 'rev' if (mb != df) else None))
    return [(None, False, False, None)] + [r[(i + j * 7) % len(r)] for j in range(3)]


def mkscore(name):
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, ScoreCombinator, EDSM_score, EDSM_frequency_score, make_greedy
    if name is None:
        return None
    if name == 'ktail':
        from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreWithKTail
        from aalpy.learning_algs.general_passive.GsmNode import GsmNode
        return ScoreWithKTail(ScoreCalculation(GsmNode.deterministic_compatible), 1)
    if name == 'edsm':
        return ScoreCalculation(score_function=EDSM_score())
    if name == 'freq':
        return ScoreCalculation(score_function=EDSM_frequency_score())
    if name == 'greedy':
        return ScoreCalculation(score_function=make_greedy(EDSM_score()))
    return ScoreCombinator([ScoreCalculation(), ScoreCalculation(score_function=EDSM_score())])


def gsm(data, kind, plan, fmt, convert=True, beh='deterministic', **kw):
    from aalpy.learning_algs import run_GSM
    score, mb, df, order = plan
    cmp = (lambda a, b: (a.get_prefix_length(), [repr(x) for x in b.get_prefix()]) < (b.get_prefix_length(), [repr(x) for x in a.get_prefix()])) \
        if order else None
    return run_GSM(data, output_behavior='mealy' if kind == 'mealy' else 'moore', transition_behavior=beh, score_calc=mkscore(score),
                   consider_only_min_blue=mb, depth_first=df, node_order=cmp, data_format=fmt, convert=convert, **kw)


def counts(root, traces, ctx, what):
    """Every node transition carries exactly the number of data steps taking it; inputs words with optional output."""
    from collections import Counter
    use = Counter()
    for w in traces:
        node = root
        for a, o in w:
            tr = node.transitions.get(a, {})
            ctx.check(o in tr, lambda: f'{what}: trace {w} is not a path of the model')
            use[(id(node), a, o)] += 1
            node = tr[o].target
    nodes = root.get_all_nodes()
    for nd in nodes:
        for a, o, t in nd.transition_iterator():
            ctx.eq(t.count, use.pop((id(nd), a, o), 0), f'{what}: count of transition {a!r}/{o!r}')
    ctx.check(not use, 'steps outside the model')


def run_sample(kind, k, sample, i, ctx, ref):
    from aalpy.learning_algs import run_EDSM
    al = ALPHABETS[('str', 'zero', 'word', 'int')[i % 4]][:k]
    lab = (lambda l: bool(l)) if kind == 'dfa' else (lambda l: OM[l])
    data = [(tuple(al[x] for x in w), lab(l)) for w, l in sample]
    if i % 2:
        data = data[::-1]
    inner = 'moore' if kind == 'dfa' else kind
    for plan in plans(i):
        m = gsm(list(data), kind, plan, 'labeled_sequences')
        judge(m, inner, data, ctx, f'GSM {plan} ({kind}) on {data}', ref, al)
    if ref is None:
        futures(kind, inner, list(data), 'labeled_sequences', data, ctx, i)
    if ref is None and data:
        formats(data, inner, 'labeled_sequences', ctx)
    for comp in (None, 'sink_state', 'self_loop'):
        m = run_EDSM(list(data), kind, input_completeness=comp, print_info=False)
        judge(m, kind, data, ctx, f'EDSM {comp} ({kind}) on {data}', ref, al, comp)
    if data and ref is None:
        j = i % len(data)
        if kind != 'mealy' or data[j][0]:
            other = (not data[j][1]) if kind == 'dfa' else OM[(OM.index(data[j][1]) + 1) % 3]
            for bad in (data + [(data[j][0], other)], [(data[j][0], other)] + data):
                try:
                    m = run_EDSM(list(bad), kind, print_info=False)
                except ValueError:
                    m = None
                ctx.check(m is None, lambda: f'EDSM ({kind}): contradictory sample {bad} accepted')


def futures(kind, inner, data, fmt, lab, ctx, i):
    """Pairwise checks of futures cannot see every implied conflict: such models are refused, never returned."""
    what = f'GSM futures ({kind}) on {data}'
    try:
        m = gsm(data, kind, (None, False, i % 2 == 0, None), fmt, compatibility_on_futures=True, compatibility_on_pta=i % 4 < 2)
    except (ValueError, AssertionError):     # conversion refuses, or the merge with unknown outputs asserts determinism
        ctx.count('refused')
        return
    ctx.trace()
    ps.Run(m, inner, lab, lambda c, msg: ctx.check(c, lambda: f'{what}: {msg() if callable(msg) else msg}'))


def judge(m, kind, data, ctx, what, ref, al, comp=None):
    ctx.trace()
    r = ps.Run(m, kind, data, lambda c, msg: ctx.check(c, lambda: f'{what}: {msg() if callable(msg) else msg}'))
    if comp:
        ctx.check(m.is_input_complete(), f'{what}: not input complete')
        return
    ctx.check(len(r.seen) == len(r.st), lambda: f'{what}: state not reached by the sample')
    ctx.check(r.used == {(s, a) for s, d in enumerate(r.delta) for a in d}, lambda: f'{what}: transition not exercised by the sample')
    for x in range(len(r.st)):
        for y in range(x):
            ctx.check(not r.mergeable(y, x), lambda: f'{what}: states {r.st[y].state_id} and {r.st[x].state_id} could be merged')
    ctx.outcome((len(r.st), tuple(tuple(sorted(d.values())) for d in r.delta)))
    ctx.trans(len(r.used))
    if ref is not None:
        inv = (lambda o: o) if kind == 'dfa' else (lambda o: OM.index(o)) if ref.kind != 'dfa' else (lambda o: bool(o))
        got = read(m, al, inv)
        got.kind = ref.kind
        ctx.check(got.n == ref.n and equivalent(ref, got), lambda: f'{what}: complete sample of {ref} gives {got}')


def deterministic(traces):
    d = {}
    return all(d.setdefault(tuple(a for a, _ in t[:j]), t[j - 1][1]) == t[j - 1][1] for t in traces for j in range(1, len(t) + 1))


def run_traces(kind, k, traces, i, ctx):
    from aalpy.learning_algs import run_k_tails
    al = ALPHABETS[('str', 'zero', 'word', 'int')[i % 4]][:k]
    io = [[(al[a], OMK[o]) for a, o in t] for t in traces]
    data = [['init'] + t for t in io] if kind == 'moore' else io
    fresh = lambda: [list(t) for t in data]
    if deterministic(traces):
        lab = sorted({(tuple(a for a, _ in t[:j]), t[j - 1][1]) for t in io for j in range(1, len(t) + 1)} | ({((), 'init')} if kind == 'moore' else set()))
        for plan in plans(i):
            what = f'GSM {plan} ({kind}) on traces {data}'
            m = gsm(fresh(), kind, plan, 'io_traces')
            judge(m, kind, lab, ctx, what, None, al)
            counts(gsm(fresh(), kind, plan, 'io_traces', convert=False), io, ctx, what)
        futures(kind, kind, fresh(), 'io_traces', lab, ctx, i)
    else:
        try:
            m = gsm(fresh(), kind, (None, False, False, None), 'io_traces')
        except ValueError:
            m = None
        ctx.check(m is None, lambda: f'deterministic GSM accepted nondeterministic traces {data}')
    for beh in ('deterministic', 'nondeterministic', 'stochastic'):
        if beh == 'deterministic' and not deterministic(traces):
            continue
        formats(fresh(), kind, 'io_traces', ctx, beh)
        if k == 1 and beh != 'deterministic':   # bare output traces: the same as a single input 'step'
            bare = [[x if j == 0 and kind == 'moore' else x[1] for j, x in enumerate(t)] for t in data]
            steps = [[x if j == 0 and kind == 'moore' else ('step', x[1]) for j, x in enumerate(t)] for t in data]
            pl = ('ktail' if beh == 'nondeterministic' else None, False, False, None)
            got = plain(gsm(bare, kind, pl, 'traces', convert=False, beh=beh), kind == 'moore')
            ctx.check(got == plain(gsm(steps, kind, pl, 'io_traces', convert=False, beh=beh), kind == 'moore'),
                      lambda: f'GSM ({kind}, {beh}) on output traces {bare}: differs from traces with input step')
            formats(bare, kind, 'traces', ctx, beh)
    if kind == 'moore' and i % 3 == 0:
        initials(io, k, ctx)
    deep = 1 + max([8] + [len(t) for t in traces])
    for depth in (0, 1, 2, deep):
        what = f'k-tails k={depth} ({kind}) on {data}'
        m = run_k_tails(fresh(), kind, depth, print_info=False)
        ctx.trace()
        used, seen = set(), {m.initial_state.state_id}
        if kind == 'moore':
            ctx.eq(m.initial_state.output, 'init', f'{what}: initial output')
        for t in io:
            s = m.initial_state
            for a, o in t:
                if kind == 'mealy':
                    nxt = [x for y, x in s.transitions.get(a, []) if y == o]
                else:
                    nxt = [x for x in s.transitions.get(a, []) if x.output == o]
                ctx.check(len(nxt) == 1, lambda: f'{what}: trace {t} has {len(nxt)} continuations at {a}/{o}')
                used.add((s.state_id, a, nxt[0].state_id, o))
                s = nxt[0]
                seen.add(s.state_id)
        allt = {(s.state_id, a, (c[1] if kind == 'mealy' else c).state_id, c[0] if kind == 'mealy' else c.output)
                for s in m.states for a, l in s.transitions.items() for c in l}
        ctx.eq(used, allt, f'{what}: transitions of the model')
        ctx.eq(len(seen), len(m.states), f'{what}: states')
        ctx.eq(sum(len(l) for s in m.states for l in s.transitions.values()), len(allt), f'{what}: duplicate transitions')
        ctx.outcome((depth, len(m.states), len(allt)))
        # k-tails: the tails of two states of the result differ within depth k in an observed (nondeterministic) step
        from aalpy.learning_algs import run_GSM
        from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, ScoreWithKTail
        from aalpy.learning_algs.general_passive.GsmNode import GsmNode
        root = run_GSM(fresh(), output_behavior=kind, transition_behavior='nondeterministic', convert=False, data_format='io_traces',
                       score_calc=ScoreWithKTail(ScoreCalculation(GsmNode.deterministic_compatible), depth))
        counts(root, io, ctx, what)
        if depth == 0:
            ctx.eq(len(m.states), 1 if kind == 'mealy' else len({'init'} | {o for t in io for _, o in t}), f'{what}: number of states with depth 0')
        if depth == deep and deterministic(traces):
            rr = gsm(fresh(), kind, (None, False, False, None), 'io_traces')
            ctx.eq(len(m.states), len(rr.states), f'{what}: unlimited depth on deterministic data')


def plain(root, moore):
    """Tree or graph of merge nodes as comparable structure: transitions by (input, output) with counts, nodes in discovery order."""
    idx, todo, res = {id(root): 0}, [root], []
    for nd in todo:
        row = []
        for a, o, t in sorted(nd.transition_iterator(), key=lambda x: (repr(x[0]), repr(x[1]))):
            if id(t.target) not in idx:
                idx[id(t.target)] = len(todo)
                todo.append(t.target)
            row.append((repr(a), repr(o), t.count, idx[id(t.target)]))
        res.append((repr(nd.get_prefix_output()) if moore else None, row))
    return res


def fits(data, moore):
    """The formats (other than bare output traces) in which the data could be read."""
    seq = lambda x: isinstance(x, (list, tuple))
    pair = lambda x: seq(x) and len(x) == 2
    io = all(seq(d) and all(pair(x) for x in d[1:]) for d in data)
    lab = all(pair(d) and seq(d[0]) for d in data)
    return [f for f, ok in (('io_traces', io), ('labeled_sequences', lab)) if ok]


def formats(data, kind, fmt, ctx, beh='deterministic'):
    """Without a stated format the data is read as what it is or refused as ambiguous; a prefix tree can be passed instead of data."""
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    moore = kind != 'mealy'
    what = f'GSM ({kind}, {beh}) on {data} without a data format'
    plan = ('ktail' if beh == 'nondeterministic' else None, False, False, None)
    cp = lambda: [list(d) if fmt != 'labeled_sequences' else d for d in data]
    go = lambda d, f: plain(gsm(d, kind, plan, f, convert=False, beh=beh), moore)
    want = go(cp(), fmt)
    f = fits(data, moore)
    ctx.trace()
    if len(f) == 2 and data:
        try:
            go(cp(), None)
            ctx.fail(f'{what}: ambiguous data accepted')
        except ValueError as e:
            ctx.count('ambiguous')
    elif f != [fmt] and data and fmt != 'traces':
        raise AssertionError(f'harness: {data} fits {f}')
    elif data and not (fmt == 'traces' and f):
        ctx.check(go(cp(), None) == want, lambda: f'{what}: differs from the result with format {fmt}')
    tree = GsmNode.createPTA(cp(), 'moore' if moore else 'mealy', fmt)
    for g in (None, 'tree'):
        if g:
            tree = GsmNode.createPTA(cp(), 'moore' if moore else 'mealy', fmt)
        ctx.check(go(tree, g) == want, lambda: f'GSM ({kind}, {beh}) on the prefix tree of {data}: differs from the result on the data')


def initials(io, k, ctx):
    """Traces of one Moore machine start with one output."""
    for bad in ([['init']] + [['other'] + t for t in io], [['init'] + t for t in io] + [['other']]):
        for beh in ('deterministic', 'nondeterministic', 'stochastic'):
            try:
                m = gsm([list(t) for t in bad], 'moore', ('ktail', False, False, None), 'io_traces', beh=beh)
            except ValueError:
                m = None
            ctx.check(m is None, lambda: f'GSM (moore, {beh}): traces {bad} with different initial outputs accepted')


def run(case, ctx):
    ctx.state()
    if case[0] == 's':
        run_sample(case[1], case[2], case[3], case[4], ctx, None)
    elif case[0] == 'm':
        ref = from_key(case[1])
        run_sample(ref.kind, ref.k, ps.full_sample(ref, case[2]), case[3], ctx, ref)
    elif case[0] == 'c':
        ref = from_key(case[1])
        run_sample(ref.kind, ref.k, ps.thinned(ps.char_sample(ref), case[2], ref.kind), case[3], ctx, None)
    else:
        run_traces(case[1], case[2], case[3], case[4], ctx)
    ctx.sample(case)
