"""Bounded spaces of labelled samples and the state-merging oracles for passive learning."""
from itertools import product
from .ref import Ref, words


def shortlex(k, n):
    return list(words(k, 0, n))


def samples(k, n, outs):
    """Every partial labelling of all words of length <= n: (index, ((word, label), ...))."""
    ws = shortlex(k, n)
    for i, lab in enumerate(product((None,) + tuple(outs), repeat=len(ws))):
        yield i, tuple((w, l) for w, l in zip(ws, lab) if l is not None)


def mealy_trees(k, depth, outs):
    """Every finite output tree of depth <= depth: tuple per input of None or (output, subtree)."""
    if depth == 0:
        return [(None,) * k]
    subs = mealy_trees(k, depth - 1, outs)
    cell = [None] + [(o, t) for o in range(outs) for t in subs]
    return list(product(cell, repeat=k))


def tree_sample(t, pre=()):
    r = []
    for i, c in enumerate(t):
        if c is not None:
            r.append((pre + (i,), c[0]))
            r += tree_sample(c[1], pre + (i,))
    return r


def full_sample(ref, n):
    """All words up to length n with their label (dfa/moore: output of the state reached, mealy: last output)."""
    r = []
    for w in words(ref.k, 1 if ref.kind == 'mealy' else 0, n):
        r.append((w, ref.out[ref.state(w)] if ref.kind != 'mealy' else ref.outputs(w)[-1]))
    return r


class Run:
    """A learned deterministic model replayed on a sample: labels known per state / per transition."""

    def __init__(self, model, kind, data, check):
        self.kind = kind
        st = [model.initial_state] + [s for s in model.states if s is not model.initial_state]
        check(any(s is model.initial_state for s in model.states), 'initial state not in the state list')
        self.idx = {id(s): i for i, s in enumerate(st)}
        self.st = st
        self.delta = []
        for s in st:
            row = {}
            for a, t in s.transitions.items():
                check(id(t) in self.idx, 'transition to an unlisted state')
                row[a] = self.idx[id(t)]
            self.delta.append(row)
        self.lab = {}
        self.used, self.seen = set(), {0}
        for w, l in data:
            s = 0
            for j, a in enumerate(w):
                check(a in self.delta[s], lambda: f'the model does not define the word {w} of the sample')
                self.used.add((s, a))
                if kind == 'mealy' and j == len(w) - 1:
                    got = st[s].output_fun[a]
                    self.lab[(s, a)] = l
                s = self.delta[s][a]
                self.seen.add(s)
            if kind != 'mealy':
                got = st[s].is_accepting if kind == 'dfa' else st[s].output
                self.lab[s] = l
            elif not w:
                continue
            check(type(got) is type(l) and got == l, lambda: f'the model answers {got!r} for {w}, the sample says {l!r}')

    def mergeable(self, p, q):
        """Can states p and q be merged (with the implied merges) without contradicting the labels?"""
        n = len(self.st)
        par = list(range(n))

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        work = [(p, q)]
        while work:
            a, b = work.pop()
            a, b = find(a), find(b)
            if a == b:
                continue
            par[a] = b
            cls = [s for s in range(n) if find(s) == b]
            trans = {}
            for s in cls:
                for i, t in self.delta[s].items():
                    if i in trans:
                        work.append((trans[i], t))
                    else:
                        trans[i] = t
        for r in range(n):
            if find(r) != r:
                continue
            cls = [s for s in range(n) if find(s) == r]
            if self.kind == 'mealy':
                by = {}
                for s in cls:
                    for i in self.delta[s]:
                        if (s, i) in self.lab:
                            by.setdefault(i, set()).add(self.lab[(s, i)])
                if any(len(v) > 1 for v in by.values()):
                    return False
            elif len({self.lab[s] for s in cls if s in self.lab}) > 1:
                return False
        return True

    def iso(self, other):
        """Same reachable labelled structure (data labels)?"""
        m, q = {0: 0}, [0]
        while q:
            s = q.pop()
            if set(self.delta[s]) != set(other.delta[m[s]]):
                return False
            for a, t in self.delta[s].items():
                u = other.delta[m[s]][a]
                if t in m:
                    if m[t] != u:
                        return False
                else:
                    m[t] = u
                    q.append(t)
        return len(m) == len(self.st) == len(other.st)


def char_sample(ref, extra=0):
    """Prefix-closed sample from which every length-respecting state-merging order identifies a minimal machine: all shortest access
    words and their successors, each followed by a separating set of words (closed under prefixes)."""
    from .ref import distinguish
    S, layer, seen = [((), 0)], [((), 0)], {0}
    while layer:
        nxt, new = [], set()
        for w, s in layer:
            for i in range(ref.k):
                t = ref.delta[s][i]
                if t not in seen:
                    nxt.append((w + (i,), t))
                    new.add(t)
        seen |= new
        S += nxt
        layer = nxt
    W = {(i,) for i in range(ref.k)} | {()}
    for x in range(ref.n):
        for y in range(x):
            w = distinguish(ref, x, ref, y)
            assert w is not None
            W.add(tuple(w))
    words_ = set()
    for p in [p for p, _ in S] + [p + (i,) for p, _ in S for i in range(ref.k)]:
        for e in W:
            for j in range(len(p) + len(e) + 1):
                words_.add((p + e)[:j])
    r = []
    for w in sorted(words_, key=lambda w: (len(w), w)):
        if ref.kind != 'mealy':
            r.append((w, ref.out[ref.state(w)]))
        elif w:
            r.append((w, ref.outputs(w)[-1]))
    return r


def thinned(sample, thin, kind):
    """The sample with some observations left out, observations of all prefixes kept (moore, mealy)."""
    if not thin:
        return sample
    sample = [x for j, x in enumerate(sample) if (j % thin if kind == 'dfa' else len(x[0]) < 3 or (j // 7) % thin)]
    if kind != 'dfa':
        have = {w for w, _ in sample}
        sample = [x for x in sample if all(x[0][:j] in have for j in range(kind == 'mealy', len(x[0])))]
    return sample


def long_traces(k, num, length, nondet):
    """Input/output traces of larger (non-)deterministic machines: (input, output) pairs; the branch taken varies with the position."""
    from .anyaut import bigs
    for name, p in bigs('onfsm', partial=False):
        if p.k < k:
            continue
        traces = []
        for t in range(num):
            s, tr = 0, []
            for j in range(length - t):
                i = (t * t + j * (t + 1) + j // 3 + s) % k
                br = p.cells[s][i]
                s, o, _ = br[(t + j) % len(br) if nondet else 0]
                tr.append((i, o))
            traces.append(tuple(tr))
        yield name, tuple(traces)
