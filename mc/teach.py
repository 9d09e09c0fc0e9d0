"""Teachers: equivalence oracles that answer from the reference table, under an explicit (enumerable) policy."""
from .ref import distinguish, words
from .build import read

_cls = None


def differing_words(a, b, maxlen, first=True):
    """All words up to maxlen whose last output differs (first: no earlier output differs)."""
    if a.kind != 'mealy' and a.out[0] != b.out[0]:
        return [()]
    res, layer = [], [((), 0, 0, False)]
    for _ in range(maxlen):
        nxt = []
        for w, x, y, d in layer:
            for i in range(a.k):
                nx, ny = a.delta[x][i], b.delta[y][i]
                ox = a.out[x][i] if a.kind == 'mealy' else a.out[nx]
                oy = b.out[y][i] if b.kind == 'mealy' else b.out[ny]
                w2 = w + (i,)
                if ox != oy:
                    res.append(w2)
                    if not first:
                        nxt.append((w2, nx, ny, True))
                else:
                    nxt.append((w2, nx, ny, d))
        layer = nxt
    return res


def padded(a, b, maxlen):
    """A long word whose last output is the first that differs: one word is kept per pair of states and length."""
    best, layer = None, {(0, 0): ()}
    for _ in range(maxlen):
        nxt = {}
        for (x, y), w in layer.items():
            for i in range(a.k):
                nx, ny = a.delta[x][i], b.delta[y][i]
                ox = a.out[x][i] if a.kind == 'mealy' else a.out[nx]
                oy = b.out[y][i] if b.kind == 'mealy' else b.out[ny]
                if ox != oy:
                    if best is None or len(best) <= len(w):
                        best = w + (i,)
                else:
                    nxt[(nx, ny)] = w + (i,)
        layer = nxt
    return best


def teacher(alphabet, sul, ref, policy, pick=None, ctx=None, as_list=False, execute=False, inv=None, on_hyp=None):
    """policy: 'first' (lexicographically first shortest), 'last' (lexicographically last shortest), 'long1'/'long2'
    (lexicographically last of the longest among words up to shortest+1/+2), 'any' (pick among all up to shortest+1),
    'padN' (a word of up to N letters more than the shortest, polynomial), 'late' (last among words whose last output differs, earlier ones may differ too)."""
    global _cls
    if _cls is None:
        from aalpy.base import Oracle

        class Teacher(Oracle):
            def __init__(self, alphabet, sul):
                super().__init__(alphabet, sul)
                self.hyps = []

            def find_cex(self, hypothesis):
                h = read(hypothesis, self.alphabet, self.inv)
                self.hyps.append((hypothesis.size, h))
                if self.on_hyp:
                    self.on_hyp(hypothesis, h)
                if self.ctx is not None:
                    self.ctx.state(h.n)
                    self.ctx.trans(h.n * h.k)
                if len(self.hyps) > 4 * self.ref.n + 8:
                    from .core import Violation
                    raise Violation('no convergence: more than 4n+8 equivalence queries', 'rounds')
                w = distinguish(self.ref, 0, h, 0)
                if w is None:
                    return None
                L = len(w)
                p = self.policy
                if L == 0:
                    c = ()
                elif p == 'first':
                    c = w
                elif p.startswith('pad'):
                    c = padded(self.ref, h, L + int(p[3:]))
                else:
                    extra = {'last': 0, 'long1': 1, 'long2': 2, 'long3': 3, 'long4': 4, 'any': 1, 'any2': 2, 'late': 1, 'late2': 2}[p]
                    cand = differing_words(self.ref, h, L + extra, first=not p.startswith('late'))
                    if p.startswith('any'):
                        c = cand[self.pick(len(cand), 'cex')]
                    else:
                        m = max(map(len, cand))
                        c = [x for x in cand if len(x) == m][-1]
                cex = tuple(self.alphabet[i] for i in c)
                if self.execute:
                    self.reset_hyp_and_sul(hypothesis)
                    for a in cex:
                        self.num_steps += 1
                        hypothesis.step(a)
                        self.sul.step(a)
                    self.sul.post()
                return list(cex) if self.as_list else cex
        _cls = Teacher
    t = _cls(alphabet, sul)
    t.ref, t.policy, t.pick, t.ctx, t.as_list, t.execute, t.inv, t.on_hyp = ref, policy, pick, ctx, as_list, execute, inv, on_hyp
    return t
