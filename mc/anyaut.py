"""Reference tables of non-deterministic and stochastic automata, and a uniform description of every automaton type."""
from itertools import product

CODE = {'Dfa': 'dfa', 'MooreMachine': 'moore', 'MealyMachine': 'mealy', 'Mdp': 'mdp', 'StochasticMealyMachine': 'smm',
        'NDMooreMachine': 'ndmoore', 'Onfsm': 'onfsm', 'MarkovChain': 'mc', 'Vpa': 'vpa', 'Sevpa': 'sevpa'}


class NRef:
    """cells[s][i]: tuple of (target, output or None, probability or None), empty = undefined; so: state outputs or None.
    State 0 is initial.  kinds onfsm, smm: outputs on transitions; ndmoore, mdp, mc: on states; smm, mdp, mc: probabilities."""

    def __init__(self, kind, k, cells, so=None):
        self.kind, self.k, self.cells, self.so = kind, k, cells, so

    @property
    def n(self):
        return len(self.cells)

    def key(self):
        return (self.kind, self.k, self.cells, self.so)

    def __repr__(self):
        return f'{self.kind}:{self.cells}/{self.so}'


def of_key(t):
    return NRef(*t)


STATE_OUT = ('ndmoore', 'mdp', 'mc')
PROB = ('smm', 'mdp', 'mc')
SPLITS = ((1.0,), (0.5, 0.5), (0.25, 0.75), (0.125, 0.375, 0.5))


def options(kind, n, outs=2, partial=True, width=2, observable=True):
    """All contents of one cell: sets of up to width branches, with every probability split of that size (in PROB kinds)."""
    br = [(t, o) for t in range(n) for o in (range(outs) if kind not in STATE_OUT else (None,))]
    res = [()] if partial else []
    for w in range(1, width + 1):
        for c in product(br, repeat=w):
            if list(c) != sorted(set(c), key=lambda x: (x[0], -1 if x[1] is None else x[1])):
                continue
            if observable and kind not in STATE_OUT and len({o for _, o in c}) < w:
                continue
            if kind in PROB:
                for sp in SPLITS:
                    if len(sp) == w:
                        res.append(tuple((t, o, p) for (t, o), p in zip(c, sp)))
            else:
                res.append(tuple((t, o, None) for t, o in c))
    return res


def space(kind, n, k, outs=2, partial=True, width=2, observable=True):
    """(number of tables, function index -> table)."""
    opts = options(kind, n, outs, partial, width, observable)
    cells = n * k
    nso = outs ** n if kind in STATE_OUT else 1
    tot = len(opts) ** cells * nso

    def at(idx):
        flat = []
        for _ in range(cells):
            flat.append(opts[idx % len(opts)])
            idx //= len(opts)
        so = None
        if kind in STATE_OUT:
            so = []
            for _ in range(n):
                so.append(idx % outs)
                idx //= outs
            so = tuple(so)
        return NRef(kind, k, tuple(tuple(flat[s * k:(s + 1) * k]) for s in range(n)), so)
    return tot, at


def tables(kind, n, k, step=1, **kw):
    tot, at = space(kind, n, k, **kw)
    for i in range(1 if step > 1 else 0, tot, step):
        yield at(i)


def build(p, alpha, order=None, ids=None, om=None, out=None):
    from aalpy import automata as A
    om = om or (lambda o: o)
    ids = ids or [f's{j}' for j in range(p.n)]
    scls, cls = {'onfsm': (A.OnfsmState, A.Onfsm), 'smm': (A.StochasticMealyState, A.StochasticMealyMachine), 'mdp': (A.MdpState, A.Mdp),
                 'ndmoore': (A.NDMooreState, A.NDMooreMachine), 'mc': (A.McState, A.MarkovChain)}[p.kind]
    st = [scls(ids[s], om(p.so[s])) if p.kind in STATE_OUT else scls(ids[s]) for s in range(p.n)]
    for s in range(p.n):
        for i in range(p.k):
            for t, o, pr in p.cells[s][i]:
                if p.kind == 'onfsm':
                    st[s].transitions[alpha[i]].append((om(o), st[t]))
                elif p.kind == 'smm':
                    st[s].transitions[alpha[i]].append((st[t], om(o), pr))
                elif p.kind == 'mdp':
                    st[s].transitions[alpha[i]].append((st[t], pr))
                elif p.kind == 'ndmoore':
                    st[s].transitions[alpha[i]].append(st[t])
                else:
                    st[s].transitions.append((st[t], pr))
    if out is not None:
        out.extend(st)
    return cls(st[0], [st[q] for q in order] if order else list(st))


def kind_of(m):
    return CODE[type(m).__name__]


def label(kind, s):
    if kind in ('dfa', 'vpa', 'sevpa'):
        return bool(s.is_accepting)
    return s.output if kind in ('moore', 'ndmoore', 'mdp', 'mc') else None


def branches(kind, s, i):
    """Outgoing branches of state s under input i: list of (target state object, everything else)."""
    x = s.transitions[i]
    if kind in ('dfa', 'moore'):
        return [(x, ())]
    if kind == 'mealy':
        return [(x, (s.output_fun[i],))]
    if kind == 'onfsm':
        return [(t, (o,)) for o, t in x]
    if kind == 'smm':
        return [(t, (o, p)) for t, o, p in x]
    if kind == 'mdp':
        return [(t, (p,)) for t, p in x]
    if kind == 'ndmoore':
        return [(t, ()) for t in x]
    if kind == 'vpa':
        return [(t.target_state, (t.action, t.stack_guard)) for t in x]
    if kind == 'sevpa':
        return [(t.target_state, (t.action, t.stack_guard)) for t in x]


def describe(m, key=None):
    """(type, initial id, {id: (label, {input: [(target id, rest)]})}); branch order matters; empty entries are dropped."""
    kind = kind_of(m)
    key = key or (lambda s: s.state_id)
    res = {}
    for s in m.states:
        k = key(s)
        if kind in ('vpa', 'sevpa') and k == 'ErrorSinkState':
            continue
        if k in res:
            raise AssertionError(f'duplicate state {k!r}')
        if kind == 'mc':
            res[k] = (s.output, [(key(t), p) for t, p in s.transitions])
        else:
            d = {i: [(key(t), r) for t, r in branches(kind, s, i)] for i in s.transitions.keys()}
            res[k] = (label(kind, s), {i: l for i, l in d.items() if l})
    return (kind, key(m.initial_state), res)


def containers(m):
    """ids of all mutable objects an automaton consists of (states, transition dictionaries and lists)."""
    r = set()
    for s in m.states:
        if s.state_id == 'ErrorSinkState':
            continue
        r.add(id(s))
        r.add(id(s.transitions))
        if hasattr(s, 'output_fun'):
            r.add(id(s.output_fun))
        it = s.transitions.values() if isinstance(s.transitions, dict) else ()
        r |= {id(v) for v in it}
        for v in it:
            if isinstance(v, list):
                r |= {id(t) for t in v if hasattr(t, 'target_state')}
    return r


def bigs(kind, outs=2, partial=True, sparse=0):
    """Larger automata (9-16 states, 2-4 inputs), up to three branches per input."""
    from .ref import big
    for name, r in big('moore'):
        n = r.n
        k = 1 if kind == 'mc' else r.k
        cells = []
        for s in range(n):
            row = []
            for i in range(k):
                w = (2 if (s * 2 + i) % sparse == 0 else 1) if sparse else (s * 2 + i) % 3 + 1
                if partial and (s * 3 + i) % 7 == 4:
                    row.append(())
                    continue
                ts = list(dict.fromkeys((r.delta[s][i], (r.delta[s][i] * 3 + 1) % n, (s + 5 + i) % n)))[:w]
                w = min(len(ts), outs) if kind not in STATE_OUT else len(ts)
                sp = SPLITS[(0, 2, 3)[w - 1]]
                row.append(tuple((t, None if kind in STATE_OUT else (s + j) % outs, sp[j] if kind in PROB else None) for j, t in enumerate(ts[:w])))
            cells.append(tuple(row))
        yield name, NRef(kind, k, tuple(cells), tuple(x % outs for x in r.out) if kind in STATE_OUT else None)


def upto(base, n):
    """n identifiers: the given ones first, then numbered ones."""
    return (base + [f's{j}' for j in range(n)])[:n]
