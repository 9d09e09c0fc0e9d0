"""Counterexample processing: every strategy yields a suffix that really splits a hypothesis state."""
import copy
from mc.ref import machines, family, big, from_key, words
from mc.build import ALPHABETS, read, ref_sul
from mc.teach import teacher, differing_words
from mc.active import CEX

from mc.props import P
META = P['C06']
CHUNK = 8


def cases(tier):
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k in ((2, 1), (3, 1), (4, 1), (5, 1), (2, 2)):
            if kind == 'mealy' and n > 3:
                continue
            for m in machines(kind, n, k, minimal=True):
                yield (m.key(), 6 if k == 2 else 9, 'full')
        for _, m in family(kind, 2):
            yield (m.key(), 7 if tier == 'quick' else 9, 'full')
        for j, m in enumerate(machines(kind, 3, 2, minimal=True)):
            yield (m.key(), 5 if tier == 'quick' else 7, 'lean' if tier == 'quick' else 'full')
        for _, m in big(kind):
            yield (m.key(), 0, 'long')


def crossing(a, b):
    """For every reachable pair of states of two machines the shortest word through it that ends in a difference (earlier
    outputs may differ too), and one word that enters the pair by another way."""
    acc, todo, back = {(0, 0): ()}, [(0, 0)], {}
    for x, y in todo:
        for i in range(a.k):
            p = (a.delta[x][i], b.delta[y][i])
            back.setdefault(p, []).append((x, y, i))
            if p not in acc:
                acc[p] = acc[x, y] + (i,)
                todo.append(p)
    dist = {}
    layer = []
    for x, y in todo:                        # last letter: the outputs differ
        for i in range(a.k):
            p = (a.delta[x][i], b.delta[y][i])
            oa, ob = (a.out[x][i], b.out[y][i]) if a.kind == 'mealy' else (a.out[p[0]], b.out[p[1]])
            if oa != ob and (x, y) not in dist:
                dist[x, y] = (i,)
                layer.append((x, y))
    for p in layer:
        for x, y, i in back.get(p, []):
            if (x, y) not in dist:
                dist[x, y] = (i,) + dist[p]
                layer.append((x, y))
    res = []
    for p in todo:
        if p in dist:
            res.append(acc[p] + dist[p])
            for x, y, i in back.get(p, [])[-1:]:
                res.append(acc[x, y] + (i,) + dist[p])
    return sorted(set(res), key=lambda w: (len(w), w))


def run(case, ctx):
    from aalpy.learning_algs import run_Lstar, run_KV
    from aalpy.learning_algs.deterministic import CounterExampleProcessing as P
    key, depth, plan = case
    ref = from_key(key)
    A = ALPHABETS['str'][:ref.k]
    idx = {a: i for i, a in enumerate(A)}
    hyps = {}

    def keep(hyp, h):
        k = h.key()
        acc = tuple(sorted((repr(s.state_id), tuple(s.prefix)) for s in hyp.states))
        if (k, acc) not in hyps:     # a copy: the learner may go on editing its hypothesis in place
            hyps[(k, acc)] = (copy.deepcopy(hyp), h)
            own = {s.state_id: s.prefix for s in hyp.states}     # a copy comes with shortest access words, learners may use others
            for s in hyps[(k, acc)][0].states:
                s.prefix = own[s.state_id]

    for pol in (('first', 'long2') if plan == 'full' else ('first', 'pad9') if plan == 'long' else ('first',)):
        for cp in ('rs', None, 'longest_prefix') if plan == 'full' else ('rs',):
            sul = ref_sul(ref, A)
            run_Lstar(list(A), sul, teacher(list(A), sul, ref, pol, on_hyp=keep), ref.kind, cex_processing=cp, print_level=0)
        sul = ref_sul(ref, A)
        run_KV(list(A), sul, teacher(list(A), sul, ref, pol, on_hyp=keep), ref.kind, print_level=0)

    def mq(w):
        """last output of the system on w"""
        if not w:
            return ref.out[0]
        return ref.outputs([idx[a] for a in w])[-1]

    for hyp, h in hyps.values():
        cexs = crossing(ref, h) if plan == 'long' else [c for c in differing_words(ref, h, depth, first=False)]
        if not cexs:
            continue
        ctx.state(h.n)

        def acc(u):
            x = hyp.initial_state
            for a in u:
                x = x.transitions[a]
            return tuple(x.prefix)

        rows = [tuple(s.prefix) for s in hyp.states]
        rows = sorted(rows + [r + (a,) for r in rows for a in A], key=len)
        cap = 400 if plan != 'lean' else 60
        if len(cexs) > cap:      # all shortest ones and all longest ones (bounded, deterministic)
            cexs = cexs[:cap // 2] + cexs[-cap // 2:]
            ctx.count('cex_lists_truncated')
        for c in cexs:
            cex = tuple(A[i] for i in c)
            if len(cex) == 0:
                continue
            # the positions at which the counterexample breaks: every valid decomposition cex = u a v
            splits = {}
            for i in range(len(cex)):
                v = cex[i + 1:]
                left, right = acc(cex[:i]) + (cex[i],) + v, acc(cex[:i + 1]) + v
                if ref.kind == 'mealy' and not v:
                    continue
                if mq(left) != mq(right):
                    splits[v] = i
            ctx.check(splits, f'harness: no decomposition of {cex} exists')
            ctx.trans(len(cex))
            if () in splits:     # never handed to these functions: learners know the output after every access word + letter
                continue
            for strat in ('rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'):
                for closed in (False, True):
                    ctx.note = f'{strat} closed={closed} cex={cex} hyp={h}'
                    sul = ref_sul(ref, A)
                    if strat == 'rs':
                        suf = P.rs_cex_processing(sul, cex, hyp, closed, closedness='suffix')
                    else:
                        f = P.linear_cex_processing if strat.startswith('linear') else P.exponential_cex_processing
                        suf = f(sul, cex, hyp, closed, direction=strat[-3:], closedness='suffix')
                    suf = [tuple(s) for s in suf]
                    ctx.check(suf, 'no suffix returned')
                    for s in suf:
                        ctx.check(len(s) <= len(cex) and cex[len(cex) - len(s):] == s, f'{s} is not a suffix of the counterexample')
                    ctx.check(any(s in splits for s in suf), f'no returned suffix {suf} splits a state (valid: {sorted(splits, key=len)})')
                    if closed:
                        longest = max(suf, key=len)
                        for j in range(1, len(longest)):
                            ctx.check(longest[j:] in suf, f'requested suffix closed set, got {suf}')
                    else:
                        ctx.check(len(suf) == 1, f'single suffix requested, got {suf}')
                    ctx.check(not sul.protocol, 'reset protocol')
                    ctx.trace()
                    ctx.outcome((strat, len(cex), len(suf[0])))
            ctx.note = f'longest_prefix cex={cex}'
            suf = [tuple(s) for s in P.longest_prefix_cex_processing(list(rows), cex, closedness='suffix')]
            plen = max(len(r) for r in rows if cex[:len(r)] == r)
            want = {cex[j:] for j in range(plen, len(cex))}
            ctx.eq(set(suf), want, 'suffixes after the longest known prefix')
            ctx.trace()
    ctx.sample(case)
