"""Adaptive L#: correctness must not depend on what the reference models say."""
from mc import active
from mc.ref import machines, family, big, from_key, Ref
from mc.build import build, ALPHABETS, read
from mc.active import learn, configs

from mc.props import P
META = P['C04']
CHUNK = 4


def cases(tier):
    for kind in ('dfa', 'moore', 'mealy'):
        small = [m.key() for n in (1, 2) for m in machines(kind, n, 2)]
        for m in small:
            yield (m, 'pairs', 0)
        for name, m in family(kind, 2):
            yield (m.key(), 'family', name)
        for name, m in big(kind):
            yield (m.key(), 'big', name)
        ms = list(machines(kind, 2, 3, minimal=True))
        for m in ms[::max(1, len(ms) // 100)] if tier == 'quick' else ms:
            yield (m.key(), 'alpha', 0)
        for m in machines(kind, 3, 2, minimal=True):
            yield (m.key(), 'medium', 0)


def variants(m):
    """References that are close to the system: itself, one output changed, one transition redirected, one state less."""
    res = [m]
    flip = (lambda o: not o) if m.kind == 'dfa' else (lambda o: 1 - o if o in (0, 1) else 0)
    s = m.n - 1
    if m.kind == 'mealy':
        out = tuple(tuple(flip(o) if (a == s and i == 0) else o for i, o in enumerate(r)) for a, r in enumerate(m.out))
    else:
        out = tuple(flip(o) if a == s else o for a, o in enumerate(m.out))
    res.append(Ref(m.kind, m.k, m.delta, out))
    d = [list(r) for r in m.delta]
    d[s][-1] = 0
    res.append(Ref(m.kind, m.k, d, m.out))
    if m.n > 1:
        d = [[min(t, m.n - 2) for t in r] for r in m.delta[:-1]]
        res.append(Ref(m.kind, m.k, d, m.out[:-1]))
    return res


def run(case, ctx):
    key, plan, extra = case
    ref = from_key(key)
    mini = ref.minimal()
    A = ALPHABETS['str'][:ref.k]

    def go(cfg, pol, models, alpha=A, **kw):
        learn(ctx, 'adaptive', ref, mini, cfg, pol, alpha, references=list(models), **kw)

    if plan == 'pairs':
        others = [m for n in (1, 2) for m in machines(ref.kind, n, 2)]
        cfgs = configs('adaptive', 'core')
        for j, o in enumerate(others):
            # quick: every pair, the configurations in rotation; thorough: every pair under every configuration
            for cfg in (cfgs if ctx.tier != 'quick' or ref.kind != 'mealy' else cfgs[j % 3::3]):
                go(cfg, 'first', [build(o)])
        for cfg in configs('adaptive', 'full'):
            for pol in ('first', 'late2', 'long1'):
                go(cfg, pol, [build(ref)])
            go(cfg, 'long1', [build(others[0]), build(others[-1])])
            go(cfg, 'long1', [build(others[-1]), build(ref), build(others[len(others) // 2])])
            go(cfg, 'first', [])
            go(cfg, 'first', [build(ref)], max_rounds=1)
            go(cfg, 'first', [build(others[-1])], max_rounds=2)
            tr = [((A[0], A[1]), tuple(ref.outputs((0, 1)))), ((A[1],), tuple(ref.outputs((1,))))]
            go(cfg, 'first', [build(ref)], samples=tr)
    elif plan == 'family':
        vs = variants(ref)
        for cfg in configs('adaptive', 'core'):
            for v in vs:
                go(cfg, 'first', [build(v)])
            go(cfg, 'long2', [build(v) for v in vs])
            go(cfg, 'long1', [build(v) for v in vs[::-1][:2]])
    elif plan == 'big':
        vs = variants(ref)
        for j, cfg in enumerate(configs('adaptive', 'core')):
            go(cfg, ('first', 'pad4')[j % 2], [build(vs[j % len(vs)])])
            if j % 4 == 0:
                go(cfg, 'pad4', [build(v) for v in vs[1:]])
    elif plan == 'alpha':
        # references over a smaller, a larger and a disjoint alphabet
        sub = [m for m in machines(ref.kind, 2, 1)] + [m for m in list(machines(ref.kind, 2, 2, minimal=True))[::9]]
        r4 = Ref(ref.kind, 4, [r + (0,) for r in ref.delta],
                 ref.out if ref.kind != 'mealy' else tuple(o + (0,) for o in ref.out))
        for cfg in configs('adaptive', 'mini'):
            for r in sub[:6]:
                go(cfg, 'first', [build(r, A[1:1 + r.k])])
                go(cfg, 'first', [build(r, A[:r.k]), build(ref, A)])
            go(cfg, 'first', [build(sub[0], ['z'])])
            go(cfg, 'first', [build(sub[0], ['z']), build(ref, A)])
            go(cfg, 'first', [build(ref, A), build(sub[0], ['z'])])
            go(cfg, 'first', [build(r4, A + ['zz'])])
    else:
        vs = variants(ref)
        for j, cfg in enumerate(configs('adaptive', 'mini')):
            if ctx.tier == 'quick':
                go(cfg, 'long1', [build(vs[j % len(vs)])])
            else:
                for v in vs:
                    go(cfg, 'long1', [build(v)])
                go(cfg, 'first', [build(v) for v in vs])
    ctx.sample(case)
