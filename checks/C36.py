"""Statistical tests of stochastic learning decide as their definitions say, on every pair of bounded frequency tables."""
from decimal import Decimal, getcontext
from fractions import Fraction
from itertools import product
from math import sqrt, log, exp, lgamma
from mc.props import P

META = P['C36']
CHUNK = 1
getcontext().prec = 40
VALS = {2: (0, 1, 2, 3, 4, 5, 6, 9, 20, 59, 100, 333, 999, 5000), 3: (0, 1, 4, 5, 30, 999), 1: (0, 1, 5, 100)}
NAMES = (('x', 'y', 'z'), (0, 'y', (1,)), ('', False, None), ((), '1', 1))


def cases(tier):
    q = tier == 'quick'
    for chk in ('classic', 'normal', 'diff', 'chi2', 'alergia', 'ioalergia', 'gsm'):
        for a in ((0.05, 0.001, 0.5) if chk not in ('chi2',) else (0.05, 0.01, 0.001)):
            for no in (1, 2, 3) if q or chk in ('alergia',) else (1, 2, 3, 4):
                vals = VALS.get(no, (0, 1, 5, 300))
                if not q and no == 2:
                    vals = tuple(range(0, 13)) + (17, 40, 59, 100, 333, 999, 5000, 10 ** 6)
                if not q and no == 3:
                    vals = (0, 1, 2, 4, 5, 30, 300, 999)
                for f in range(0, len(vals)):
                    yield (chk, a, no, vals, f)
            for no, vals in ((5, (0, 5, 300)), (8, (0, 40))) if q else ((5, (0, 1, 5, 300)), (8, (0, 40)), (7, (0, 4, 100))):
                for f in range(len(vals)):
                    yield (chk, a, no, vals, f)
    yield ('table',)


def gammap(a, x):
    """Regularized lower incomplete gamma function (series)."""
    t = s = 1.0 / a
    n = a
    for _ in range(10000):
        n += 1
        t *= x / n
        s += t
        if t < s * 1e-16:
            break
    return s * exp(-x + a * log(x) - lgamma(a))


def hoeffding(a, b, alpha):
    """(statistic, threshold) with the largest excess; None without data."""
    n, m = sum(a.values()), sum(b.values())
    if not n or not m:
        return None
    th = ((Decimal(1) / n).sqrt() + (Decimal(1) / m).sqrt()) * ((Decimal(2) / Decimal(alpha)).ln() / 2).sqrt()
    d = max(abs(Decimal(a.get(o, 0)) / n - Decimal(b.get(o, 0)) / m) for o in set(a) | set(b))
    return d, th


def chi2(a, b):
    """Pearson's statistic for homogeneity; with Yates' correction for two outputs and a count below five."""
    n, m = sum(a.values()), sum(b.values())
    keys = set(a) | set(b)
    y = Fraction(1, 2) if len(keys) == 2 and any(a.get(k, 0) < 5 or b.get(k, 0) < 5 for k in keys) else 0
    s = Fraction(0)
    for k in keys:
        p = Fraction(a.get(k, 0) + b.get(k, 0), n + m)
        for c, tot in ((a, n), (b, m)):
            s += max(abs(c.get(k, 0) - tot * p) - y, 0) ** 2 / (tot * p)
    return s


TH = {0.05: {1: 3.841458820694124, 2: 5.991464547107979, 3: 7.814727903251179}, 0.01: {1: 6.6348966010212145, 2: 9.21034037197618, 3: 11.344866730144373},
      0.001: {1: 10.827566170662733, 2: 13.815510557964274, 3: 16.26623619623813}}


def quantile(alpha, dof):
    if dof not in TH[alpha]:
        lo, hi = 0.0, 200.0
        for _ in range(100):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if gammap(dof / 2, mid / 2) < 1 - alpha else (lo, mid)
        TH[alpha][dof] = lo
    return TH[alpha][dof]


def run(case, ctx):
    from aalpy.learning_algs.stochastic import DifferenceChecker as D
    ctx.state()
    if case[0] == 'table':
        for lv in D.chi2_table:
            for dof, x in D.chi2_table[lv].items():
                ctx.check(abs(gammap(dof / 2, x / 2) - lv) < 1e-7, lambda: f'chi2 quantile {lv} with {dof} degrees of freedom: {x} has probability {gammap(dof / 2, x / 2)}')
                ctx.trace()
            ctx.eq(sorted(D.chi2_table[lv]), list(range(1, 21)), f'degrees of freedom for {lv}')
        ctx.eq(sorted(D.chi2_table), [0.95, 0.99, 0.999], 'levels')
        for bad in (0.02, 0.5, 0.1):
            try:
                D.ChiSquareChecker(alpha=bad)
                ctx.fail(f'alpha={bad} accepted')
            except ValueError:
                pass
        c = D.ChiSquareChecker(alpha=0.05)
        for n in (20, 21):
            a = {x: 5 for x in range(n)}
            ctx.eq(c.are_cells_different(dict(a), dict(a)), False, f'{n} outputs')
        try:
            c.are_cells_different({x: 5 for x in range(22)}, {x: 5 for x in range(22)})
            ctx.fail('22 outputs: no error, but no quantile either')
        except ValueError:
            pass
        return
    chk, alpha, no, vals, f = case
    names = NAMES[f % 4] + ('w', 2, 'v', -1, (0, 'y'))
    mk = lambda v, rev=False: {names[o]: v[o] for o in (reversed(range(no)) if rev else range(no)) if v[o]}
    if chk == 'classic':
        obj = D.HoeffdingChecker(alpha)
    elif chk in ('normal', 'diff'):
        obj = D.AdvancedHoeffdingChecker(alpha, use_diff=chk == 'diff')
    elif chk == 'chi2':
        obj = D.ChiSquareChecker(alpha, use_diff_value=f % 2 == 1)
        ctx.eq(obj.use_diff_value(), f % 2 == 1, 'use_diff_value')
    decide = decider(chk, alpha, locals().get('obj'), names)
    same = 0
    rb = product(vals, repeat=no)
    rb = list(rb) if no < 5 else [x for j, x in enumerate(rb) if j % (3 if no == 5 else 5) == f % 3]
    for ra in product(vals, repeat=no - 1):
        va = (vals[f],) + ra
        a = mk(va)
        for vb in rb:
            b = mk(vb)
            what = lambda: f'{chk} alpha={alpha}: {a} / {b}'
            got = decide(a, b)
            h = hoeffding(a, b, alpha)
            if chk == 'chi2':
                keys = set(a) | set(b)
                if not a or not b or len(keys) == 1:
                    want = False
                elif not set(a) & set(b):
                    h = hoeffding(a, b, 0.05)
                    want = h[0] > h[1] if abs(h[0] - h[1]) > Decimal('1e-9') else None
                else:
                    Q, th = chi2(a, b), quantile(alpha, len(keys) - 1)
                    want = Q >= th if abs(float(Q) - th) > 1e-7 else None
            else:
                want = False if h is None else h[0] > h[1] if abs(h[0] - h[1]) > Decimal('1e-9') else None
                if chk == 'classic' and set(a) != set(b):
                    want = True
            if want is not None:
                ctx.eq(bool(got), want, what)
            ctx.trace()
            if chk in ('classic', 'normal', 'diff', 'chi2'):
                a2, b2 = mk(va, True), mk(vb, True)
                ctx.eq(bool(decide(b, a)), bool(got), lambda: f'{what()}: depends on the order of the tables')
                ctx.eq(bool(decide(a2, b2)), bool(got), lambda: f'{what()}: depends on the order of outputs')
                ctx.check(a2 == a and b2 == b and mk(va) == a and mk(vb) == b, lambda: f'{what()}: tables changed')
            if chk == 'diff' and (f + sum(vb)) % 3 == 0 or chk == 'chi2' and sum(vb) % 3 == 0:
                v, v2 = obj.difference_value(a, b), obj.difference_value(b, a)
                if a and b:
                    if chk == 'diff':
                        w = sum(abs(Fraction(a.get(o, 0), sum(a.values())) - Fraction(b.get(o, 0), sum(b.values()))) for o in set(a) | set(b))
                    else:
                        w = chi2(a, b) if len(set(a) | set(b)) > 1 else 0
                    ctx.check(abs(v - float(w)) <= 1e-6 * max(1, float(w)), lambda: f'{what()}: difference value {v}, not {float(w)}')
                ctx.check(abs(v - v2) <= 1e-6 * max(1, abs(v)), lambda: f'{what()}: difference value is not symmetric')
            if got is False or not got:
                same += 1
    ctx.outcome((chk, alpha, no, f, same))
    ctx.trans(same)
    if f == 3:
        ctx.sample(case)


def decider(chk, alpha, obj, names):
    if chk in ('classic', 'normal', 'diff', 'chi2'):
        return obj.are_cells_different
    if chk in ('alergia', 'ioalergia'):
        from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
        from aalpy.learning_algs.stochastic_passive.FPTA import AlergiaPtaNode
        h = HoeffdingCompatibility(alpha)

        def node(c):
            n = AlergiaPtaNode('o', ())
            for o, x in c.items():
                # one input; Alergia: outputs are the keys themselves
                key = o if chk == 'alergia' else ('i', o)
                if chk == 'alergia' and isinstance(o, tuple):
                    key = repr(o)
                n.original_input_frequency[key] = x
                n.input_frequency[key] = x
                n.original_children[key] = n.children[key] = AlergiaPtaNode(o, ())
            return n
        return lambda a, b: h.are_states_different(node(a), node(b))
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import hoeffding_compatibility
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
    fun = hoeffding_compatibility(alpha)

    def gnode(c):
        n = GsmNode((None, None), None)
        if c:
            n.transitions['i'] = {o: TransitionInfo(None, -1, None, x) for o, x in c.items()}
        return n
    return lambda a, b: not fun(gnode(a), gnode(b))
