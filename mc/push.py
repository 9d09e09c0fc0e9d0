"""Reference 1-module single-entry visibly pushdown automata as tables, their equivalence, and a system executing them.

din[s][i] = target or None (reject for ever); dret[s][r][(s2, c)] = target or None.  A call remembers (state, call letter)
and continues in state 0; a word is accepted iff it is well matched and ends in an accepting state."""
from functools import lru_cache


class VRef:
    def __init__(self, n, ni, nc, nr, din, dret, acc):
        self.n, self.ni, self.nc, self.nr, self.din, self.dret, self.acc = n, ni, nc, nr, din, dret, acc

    def key(self):
        return (self.n, self.ni, self.nc, self.nr, self.din, self.dret, self.acc)

    def __repr__(self):
        return f'SEVPA(n={self.n}, int={self.din}, ret={self.dret}, acc={self.acc})'

    def ret(self, s, r, g, c):
        return self.dret[s][r][g * self.nc + c]

    def letters(self):
        return [('i', j) for j in range(self.ni)] + [('c', j) for j in range(self.nc)] + [('r', j) for j in range(self.nr)]

    def run(self, word):
        """outputs of every prefix (excluding the empty one)"""
        s, st, res = 0, [], []
        for t, j in word:
            if s is not None:
                if t == 'i':
                    s = self.din[s][j]
                elif t == 'c':
                    st.append((s, j))
                    s = 0
                elif not st:
                    s = None
                else:
                    g, c = st.pop()
                    s = self.ret(s, j, g, c)
            res.append(s is not None and not st and self.acc[s])
        return res

    def accepts(self, word):
        return self.run(word)[-1] if word else self.acc[0]

    def classes(self):
        """(number of congruence classes among states reachable by well matched words, is one of them dead)"""
        D = self.n                                             # explicit dead state
        di = lambda s, i: D if s == D or self.din[s][i] is None else self.din[s][i]

        def dr(s, r, g, c):
            if s == D or g == D:
                return D
            t = self.ret(s, r, g, c)
            return D if t is None else t
        reach, ch = {0}, True
        while ch:
            ch = False
            for s in list(reach):
                new = {di(s, i) for i in range(self.ni)}
                for g in list(reach):
                    new |= {dr(s, r, g, c) for r in range(self.nr) for c in range(self.nc)}
                if not new <= reach:
                    reach |= new
                    ch = True
        reach = sorted(reach)
        cl = {s: bool(s != D and self.acc[s]) for s in reach}
        while True:
            sig = {s: (cl[s], tuple(cl[di(s, i)] for i in range(self.ni)),
                       tuple(cl[dr(s, r, g, c)] for r in range(self.nr) for g in reach for c in range(self.nc)),
                       tuple(cl[dr(g, r, s, c)] for r in range(self.nr) for g in reach for c in range(self.nc))) for s in reach}
            ids = {}
            new = {s: ids.setdefault(sig[s], len(ids)) for s in reach}
            if len(ids) == len(set(cl.values())):
                break
            cl = new
        members = {}
        for s in reach:
            members.setdefault(cl[s], []).append(s)
        dead = any(all(not (s != D and self.acc[s]) for s in m) and
                   all(cl[di(s, i)] == k for s in m for i in range(self.ni)) and
                   all(cl[dr(s, r, g, c)] == k and cl[dr(g, r, s, c)] == k for s in m for r in range(self.nr) for g in reach for c in range(self.nc))
                   for k, m in members.items())
        return len(members), dead

    @staticmethod
    def of(key):
        def tt(x):
            return tuple(map(tt, x)) if isinstance(x, (list, tuple)) else x
        return VRef(*tt(key))


def bigs():
    """A few 1-SEVPA tables well beyond the exhaustive bounds."""
    def mk(n, ni, nc, nr, fi, fr, acc):
        cut = lambda t: t if t is None else t % n
        return VRef(n, ni, nc, nr, tuple(tuple(cut(fi(s, i)) for i in range(ni)) for s in range(n)),
                    tuple(tuple(tuple(cut(fr(s, r, g, c)) for g in range(n) for c in range(nc)) for r in range(nr)) for s in range(n)),
                    tuple(bool(acc(s)) for s in range(n)))
    yield 'count7', mk(7, 2, 1, 1, lambda s, i: s + 1 if i == 0 else 2 * s, lambda s, r, g, c: s + 2 * g + 1, lambda s: s == 6)
    yield 'typed5', mk(5, 1, 2, 2, lambda s, i: s + 1, lambda s, r, g, c: s + g + r if r == c else None, lambda s: s in (0, 3))
    yield 'mix6', mk(6, 2, 2, 1, lambda s, i: s * (i + 2) + 1, lambda s, r, g, c: s * s + g * (c + 1) + c, lambda s: s % 4 == 1)
    yield 'chain9', mk(9, 1, 1, 1, lambda s, i: min(s + 1, 8), lambda s, r, g, c: g if s < 5 else None, lambda s: s in (4, 8))
    yield 'deep4', mk(4, 0, 3, 3, None, lambda s, r, g, c: (g + 1 if r == c else s + r if s != g else None), lambda s: s == 2)
    yield 'ints6', mk(6, 5, 1, 1, lambda s, i: s + i if s != i else 0, lambda s, r, g, c: g + (s == 3), lambda s: s == 5)


@lru_cache(None)
def balanced(ni, nc, nr, length):
    """All well matched words of exactly this length."""
    if length == 0:
        return ((),)
    r = []
    for j in range(ni):
        r += [(('i', j),) + w for w in balanced(ni, nc, nr, length - 1)]
    for inner in range(0, length - 1):
        for c in range(nc):
            for x in range(nr):
                for u in balanced(ni, nc, nr, inner):
                    for v in balanced(ni, nc, nr, length - 2 - inner):
                        r.append((('c', c),) + u + (('r', x),) + v)
    return tuple(r)


def product(ref, hinit, hacc, hint, hret):
    """Pairs (reference state or None, hypothesis state or None) reachable by well matched words, each with a shortest word.
    hint(h, i), hret(h, r, g, c) give hypothesis successors (None = rejected for ever)."""
    R = {(0, hinit): ()}
    work = True
    while work:
        work = False
        for (s, h), w in list(R.items()):
            def add(p, q, v):
                nonlocal work
                o = R.get((p, q))
                if o is None or len(v) < len(o):
                    R[(p, q)] = v
                    work = True
            for i in range(ref.ni):
                add(None if s is None else ref.din[s][i], None if h is None else hint(h, i), w + (('i', i),))
            for (g, f), u in list(R.items()):
                for c in range(ref.nc):
                    for r in range(ref.nr):
                        add(None if s is None or g is None else ref.ret(s, r, g, c),
                            None if h is None or f is None else hret(h, r, f, c), u + (('c', c),) + w + (('r', r),))
    return R


def difference(ref, R, hacc):
    bad = [w for (s, h), w in R.items() if (s is not None and ref.acc[s]) != (h is not None and hacc(h))]
    return min(bad, key=lambda w: (len(w), w)) if bad else None


def sevpa_views(m, al):
    """Successor functions of a learned 1-SEVPA; al maps ('i'|'c'|'r', j) to letters."""
    by = {s.state_id: s for s in m.states}
    ids = set(by)

    def hint(h, i):
        for t in by[h].transitions.get(al[('i', i)], []):
            return t.target_state.state_id
        return None

    def hret(h, r, g, c):
        for t in by[h].transitions.get(al[('r', r)], []):
            if t.stack_guard == (g, al[('c', c)]):
                return t.target_state.state_id
        return None
    return m.initial_state.state_id, (lambda h: h in ids and by[h].is_accepting), hint, hret, ids


_cls = None


def vsul(ref, al):
    global _cls
    if _cls is None:
        from aalpy.base import SUL

        class VSUL(SUL):
            def __init__(self, ref, al):
                super().__init__()
                self.ref, self.inv = ref, {v: k for k, v in al.items()}
                self.raw = 0

            def pre(self):
                self.s, self.st = 0, []

            def post(self):
                pass

            def step(self, letter):
                if letter is not None:
                    self.raw += 1
                    if self.raw > 300000:
                        from .core import Violation
                        raise Violation('more than 300000 steps executed on the system: no termination', 'steps')
                    t, j = self.inv[letter]
                    if self.s is not None:
                        if t == 'i':
                            self.s = self.ref.din[self.s][j]
                        elif t == 'c':
                            self.st.append((self.s, j))
                            self.s = 0
                        elif not self.st:
                            self.s = None
                        else:
                            g, c = self.st.pop()
                            self.s = self.ref.ret(self.s, j, g, c)
                return self.s is not None and not self.st and self.ref.acc[self.s]
        _cls = VSUL
    return _cls(ref, al)


class VPRef:
    """General visibly pushdown automaton: dint[s][i] = t|None, dcall[s][c] = (t, g)|None, dret[s][r][g] = t|None."""

    def __init__(self, n, ni, nc, nr, ng, dint, dcall, dret, acc):
        self.n, self.ni, self.nc, self.nr, self.ng = n, ni, nc, nr, ng
        self.dint, self.dcall, self.dret, self.acc = dint, dcall, dret, acc

    def key(self):
        return (self.n, self.ni, self.nc, self.nr, self.ng, self.dint, self.dcall, self.dret, self.acc)

    of = staticmethod(lambda key: VPRef(*_tt(key)))

    def letters(self):
        return [('i', j) for j in range(self.ni)] + [('c', j) for j in range(self.nc)] + [('r', j) for j in range(self.nr)]

    def start(self):
        return (0, ())

    def step(self, conf, letter):
        """configuration (state or None when rejecting for ever, stack) and output"""
        s, st = conf
        t, j = letter
        if s is not None:
            if t == 'i':
                s = self.dint[s][j]
            elif t == 'c':
                x = self.dcall[s][j]
                if x is None:
                    s = None
                else:
                    s, st = x[0], st + (x[1],)
            elif not st:
                s = None
            else:
                s, st = self.dret[s][j][st[-1]], st[:-1]
        conf = (s, st)
        return conf, self.accepting(conf)

    def accepting(self, conf):
        return conf[0] is not None and not conf[1] and self.acc[conf[0]]

    def run(self, word):
        c, r = self.start(), []
        for x in word:
            c, o = self.step(c, x)
            r.append(o)
        return r


def _tt(x):
    return tuple(map(_tt, x)) if isinstance(x, (list, tuple)) else x


def vp_of_sevpa(v):
    """The same language as a 1-SEVPA table: a call pushes (state, call letter) and continues in state 0."""
    ng = v.n * v.nc
    return VPRef(v.n, v.ni, v.nc, v.nr, ng, v.din, tuple(tuple((0, s * v.nc + c) for c in range(v.nc)) for s in range(v.n)), v.dret, v.acc)


def build_vpa(ref, al, gs):
    from aalpy.automata import Vpa
    setup = {}
    for s in range(ref.n):
        tr = {}
        for i in range(ref.ni):
            if ref.dint[s][i] is not None:
                tr[al[('i', i)]] = [(f'q{ref.dint[s][i]}', None, None)]
        for c in range(ref.nc):
            if ref.dcall[s][c] is not None:
                t, g = ref.dcall[s][c]
                tr[al[('c', c)]] = [(f'q{t}', 'push', gs[g])]
        for r in range(ref.nr):
            l = [(f'q{t}', 'pop', gs[g]) for g, t in enumerate(ref.dret[s][r]) if t is not None]
            if l:
                tr[al[('r', r)]] = l
        setup[f'q{s}'] = (ref.acc[s], tr)
    return Vpa.from_state_setup(setup, init_state_id='q0')


def build_sevpa(v, al):
    from aalpy.automata import Sevpa
    setup = {}
    for s in range(v.n):
        tr = {}
        for i in range(v.ni):
            if v.din[s][i] is not None:
                tr[al[('i', i)]] = [(f'q{v.din[s][i]}', None, None)]
        for r in range(v.nr):
            l = [(f'q{v.ret(s, r, g, c)}', 'pop', (f'q{g}', al[('c', c)])) for g in range(v.n) for c in range(v.nc) if v.ret(s, r, g, c) is not None]
            if l:
                tr[al[('r', r)]] = l
        setup[f'q{s}'] = (v.acc[s], tr)
    return Sevpa.from_state_setup(setup, init_state_id='q0')


def vp_tables(n, ni, nc, nr, ng, partial):
    """Every table with these dimensions (without missing transitions unless partial)."""
    from itertools import product as P
    none = [None] if partial else []
    st = list(range(n)) + none
    calls = [(t, g) for t in range(n) for g in range(ng)] + none
    for acc in P((False, True), repeat=n):
        for di in P(st, repeat=n * ni):
            for dc in P(calls, repeat=n * nc):
                for dr in P(st, repeat=n * nr * ng):
                    yield VPRef(n, ni, nc, nr, ng,
                                tuple(di[s * ni:(s + 1) * ni] for s in range(n)), tuple(dc[s * nc:(s + 1) * nc] for s in range(n)),
                                tuple(tuple(dr[(s * nr + r) * ng:(s * nr + r + 1) * ng] for r in range(nr)) for s in range(n)), acc)


def vp_count(n, ni, nc, nr, ng, partial):
    p = 1 if partial else 0
    return 2 ** n * (n + p) ** (n * ni) * (n * ng + p) ** (n * nc) * (n + p) ** (n * nr * ng)


def vp_at(n, ni, nc, nr, ng, partial, idx):
    """The idx-th table of vp_tables."""
    none = [None] if partial else []
    st = list(range(n)) + none
    calls = [(t, g) for t in range(n) for g in range(ng)] + none
    digits = []
    for dom, cnt in ((st, n * nr * ng), (calls, n * nc), (st, n * ni), ((False, True), n)):
        d = []
        for _ in range(cnt):
            d.append(dom[idx % len(dom)])
            idx //= len(dom)
        digits.append(d[::-1])
    dr, dc, di, acc = digits
    return VPRef(n, ni, nc, nr, ng,
                 tuple(tuple(di[s * ni:(s + 1) * ni]) for s in range(n)), tuple(tuple(dc[s * nc:(s + 1) * nc]) for s in range(n)),
                 tuple(tuple(tuple(dr[(s * nr + r) * ng:(s * nr + r + 1) * ng]) for r in range(nr)) for s in range(n)), tuple(acc))
