"""Translation between reference tables and the library's own automata (public constructors and attributes only)."""
from .ref import Ref

ALPHABETS = {
    'str': ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'a1', 'a10', 'a2', 'b1'],
    'int': [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12],
    'zero': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],          # contains a falsy letter
    'word': ['coin', 'button', 'reset', 'x', 'i1', 'i10', 'i2', 'y', 'z', 'w', 'reset1', 'on'],
    'tuple': [(0,), (1, 'x'), ('a', 'b'), (2,)] + [(j, j) for j in range(3, 11)],
    'mixed': ['', 'a', 0, (1,)] + [f'm{j}' for j in range(4, 12)],
}


def build(ref, alpha=None, outmap=None, order=None, ids=None):
    """order: permutation of the state list handed to the constructor (the initial state need not come first)."""
    from aalpy.automata import Dfa, DfaState, MealyMachine, MealyState, MooreMachine, MooreState
    alpha = alpha or ALPHABETS['str'][:ref.k]
    om = outmap or (lambda o: o)
    ids = ids or [f's{j}' for j in range(ref.n)]
    if ref.kind == 'dfa':
        st = [DfaState(ids[j], is_accepting=bool(ref.out[j])) for j in range(ref.n)]
        cls = Dfa
    elif ref.kind == 'moore':
        st = [MooreState(ids[j], om(ref.out[j])) for j in range(ref.n)]
        cls = MooreMachine
    else:
        st = [MealyState(ids[j]) for j in range(ref.n)]
        cls = MealyMachine
    for j in range(ref.n):
        for i in range(ref.k):
            st[j].transitions[alpha[i]] = st[ref.delta[j][i]]
            if ref.kind == 'mealy':
                st[j].output_fun[alpha[i]] = om(ref.out[j][i])
    lst = [st[p] for p in order] if order else list(st)
    return cls(st[0], lst)


def kind_of(model):
    from aalpy.automata import Dfa, MealyMachine, MooreMachine
    return 'dfa' if isinstance(model, Dfa) else 'mealy' if isinstance(model, MealyMachine) else \
        'moore' if isinstance(model, MooreMachine) else None


def read(model, alpha, outmap_inv=None):
    """Reference table of the reachable part of an (input complete) deterministic model, BFS numbering."""
    kind = kind_of(model)
    inv = outmap_inv or (lambda o: o)
    idx, order = {id(model.initial_state): 0}, [model.initial_state]
    delta, out = [], []
    p = 0
    while p < len(order):
        s = order[p]
        p += 1
        row, orow = [], []
        for a in alpha:
            t = s.transitions[a]
            if id(t) not in idx:
                idx[id(t)] = len(order)
                order.append(t)
            row.append(idx[id(t)])
            if kind == 'mealy':
                orow.append(inv(s.output_fun[a]))
        delta.append(tuple(row))
        out.append(tuple(orow) if kind == 'mealy' else inv(s.is_accepting if kind == 'dfa' else s.output))
    return Ref(kind, len(alpha), tuple(delta), tuple(out))


_sul_cls = None


def ref_sul(*a, **k):
    """A system under learning that executes the reference table, checks the reset/step protocol and keeps a log."""
    global _sul_cls
    if _sul_cls is None:
        from aalpy.base import SUL

        class RefSUL(SUL):
            def __init__(self, ref, alpha, outmap=None, budget=200000):
                super().__init__()
                self.ref, self.om = ref, outmap or (lambda o: o)
                self.idx = {a: i for i, a in enumerate(alpha)}
                self.cur, self.open = None, False
                self.log, self.pres, self.posts, self.raw_steps, self.null_steps = [], 0, 0, 0, 0
                self.budget, self.word, self.protocol = budget, None, []
                self.keep_log = True

            def pre(self):
                if self.open:
                    self.protocol.append('pre without post')
                self.open, self.cur, self.word = True, 0, []
                self.pres += 1

            def post(self):
                if self.open and self.keep_log:
                    self.log.append(tuple(self.word))
                self.open = False
                self.posts += 1

            def step(self, letter):
                if not self.open:
                    self.protocol.append(f'step {letter!r} outside pre/post')
                    self.cur = 0 if self.cur is None else self.cur
                if letter is None and letter not in self.idx:
                    self.null_steps += 1
                    return self.om(self.ref.out[self.cur]) if self.ref.kind != 'mealy' else None
                self.raw_steps += 1
                if self.raw_steps > self.budget:
                    from .core import Violation
                    raise Violation(f'more than {self.budget} steps executed on the system: no termination', 'steps')
                i = self.idx[letter]
                s = self.cur
                self.cur = self.ref.delta[s][i]
                if self.word is not None:
                    self.word.append(letter)
                return self.om(self.ref.out[s][i] if self.ref.kind == 'mealy' else self.ref.out[self.cur])
        _sul_cls = RefSUL
    return _sul_cls(*a, **k)
