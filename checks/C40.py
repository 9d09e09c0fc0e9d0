"""Statistical and PRISM based model checking: exact distributions of estimates, results read from the tool, stopping; JAlergia."""
import os
import stat
import tempfile
from contextlib import contextmanager
from fractions import Fraction as F
from itertools import combinations_with_replacement, product
from checks.C28 import replay
from checks.C34 import usable
from checks.C35 import post_any
from mc import anyaut as aa, stoch as st
from mc.build import ALPHABETS, build
from mc.choices import distribution, explore
from mc.ref import from_key, machines
from mc.props import P

META = P['C40']
CHUNK = 4
VALS = ('0.0', '1.0', '0.5', '0.25', '0.16800000000000004', '0.9984375', '6.103515625E-5', '2.5E-4', '1.0E-10', '9.9E-4', '0.001')
FORM = ('Result: {}\n', 'Result: {} (exact floating point)\n', 'Result: {} (+/- 4.1E-12 estimated; rel err 4.8E-12)\r\n', 'Result: {} (value in the initial state)\n')
# a stand-in for the model checker: keeps what it was given and prints the results the properties file asks for
TOOL = '''#!/bin/sh
cp "$1" "$2.seen"
pwd > "$2.cwd"
echo PRISM
echo =====
echo 'Model checking: Pmax=? [ F "Result: 7.7" ]'
cat "$2"
'''


def cases(tier):
    q = tier == 'quick'
    j = 0
    for kind in ('dfa', 'moore', 'mealy'):
        for n, k, step in ((1, 1, 1), (2, 1, 1), (2, 2, 1 if kind != 'mealy' or not q else 5), (3, 2, {'mealy': 5003}.get(kind, 29) if q else {'mealy': 211}.get(kind, 1))):
            for i, m in enumerate(machines(kind, n, k)):
                if i % step == 0:
                    j += 1
                    yield ('smc', m.key(), j)
    for kind in ('mdp', 'smm'):
        for n, k, step in ((1, 1, 1), (1, 2, 1 if kind == 'mdp' else 7), (2, 1, 1 if kind == 'mdp' else 29), (2, 2, (997 if kind == 'mdp' else 40009) // (1 if q else 11))):
            for m in aa.tables(kind, n, k, step, width=2, observable=True, partial=False):
                j += 1
                yield ('smc', m.key(), j)
    for kind, n, k, step in (('mdp', 1, 1, 1), ('mdp', 2, 1, 5 if q else 1), ('mdp', 2, 2, 4001 if q else 499), ('smm', 1, 1, 1), ('smm', 2, 1, 211 if q else 17)):
        for m in aa.tables(kind, n, k, step, width=2, observable=True, partial=False):
            j += 1
            yield ('prism', m.key(), j)
    for kind, n, k, step in (('mdp', 1, 1, 1), ('mdp', 2, 1, 5 if q else 1), ('mdp', 2, 2, 3001 if q else 299), ('smm', 1, 1, 1), ('smm', 2, 1, 151 if q else 17)):
        for m in aa.tables(kind, n, k, step, width=2, observable=True, partial=False):
            if usable(m):
                j += 1
                yield ('pstop', m.key(), j)
    tr = [t for l in range(0, 3) for t in product([(i, x) for i in range(2) for x in range(2)], repeat=l)]
    for i, ts in enumerate(combinations_with_replacement(tr, 2)):
        if i % (7 if q else 1) == 3 % (7 if q else 1):
            yield ('jal', ts, i)


def run_smc(key, j, ctx):
    from aalpy.utils import statistical_model_checking
    if key[0] in aa.PROB:
        p = aa.of_key(key)
        k, kind = p.k, p.kind
        step = lambda s, i: [(t, p.so[t] if kind == 'mdp' else o, F(pr)) for t, o, pr in p.cells[s][i]]
        outs = [['x', 'y'], [0, 1], ['', None]][j % 3]
        om = lambda o: outs[o]
        mk = lambda al: aa.build(p, al, om=om)
    else:
        p = from_key(key)
        k, kind = p.k, p.kind
        step = lambda s, i: [(p.delta[s][i], p.out[s][i] if kind == 'mealy' else p.out[p.delta[s][i]], F(1))]
        om = (lambda o: bool(o)) if kind == 'dfa' else (lambda o: [['x', 'y', 'z'], [0, 1, 2], ['', None, 'z']][j % 3][o])
        mk = lambda al: build(p, al, om)
    al = ALPHABETS[('str', 'zero')[j % 2]][:k]
    dom = [om(o) for o in ((False, True) if kind == 'dfa' else (0, 1))]
    for goals in ([dom[1]], dom, [dom[0]], ['never'])[j % 2::2]:
        for steps, tests in ((1, 2), (2, 1), (0, 2), (3, 1))[: 4 if k * p.n < 4 else 2]:
            model = mk(al)
            d0 = aa.describe(model)
            got = distribution(lambda c: repr(statistical_model_checking(model, set(goals), steps, num_tests=tests)), ctx)
            # probability that a run over uniformly random inputs shows a goal
            cur = {(0, False): F(1)}
            for _ in range(steps):
                nxt = {}
                for (s, hit), pr in cur.items():
                    for i in range(k):
                        for t, o, q in step(s, i):
                            x = (t, hit or any(om(o) == g and type(om(o)) is type(g) for g in goals))
                            nxt[x] = nxt.get(x, 0) + pr * q / k
                cur = nxt
            h = sum((pr for (s, hit), pr in cur.items() if hit), F(0))
            exp = {}
            for hits in range(tests + 1):
                w = {1: {0: 1 - h, 1: h}, 2: {0: (1 - h) ** 2, 1: 2 * h * (1 - h), 2: h * h}}[tests][hits]
                if w:
                    exp[repr(hits / tests)] = w
            ctx.trans(len(exp))
            ctx.check(got == exp, lambda: f'{p} letters {al} outputs {dom}: estimates for {goals} in {steps} steps, {tests} tests: {got}, expected {exp}')
            ctx.check(aa.describe(model) == d0, f'{p}: statistical model checking changes the model')
            ctx.trace()
    ctx.outcome((kind, p.n))


@contextmanager
def workplace():
    import aalpy.paths
    old, prism = os.getcwd(), aalpy.paths.path_to_prism
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'bin'))
        os.mkdir(os.path.join(d, 'work'))
        tool = os.path.join(d, 'bin', 'prism')
        with open(tool, 'w') as f:
            f.write(TOOL)
        os.chmod(tool, stat.S_IRWXU)
        aalpy.paths.path_to_prism = tool
        os.chdir(os.path.join(d, 'work'))
        try:
            yield d
        finally:
            os.chdir(old)
            aalpy.paths.path_to_prism = prism


def run_prism(key, j, ctx):
    from aalpy.utils import mdp_2_prism_format, model_check_experiment, model_check_properties
    from aalpy.utils.ModelChecking import evaluate_all_properties, stop_based_on_confidence
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    p = aa.of_key(key)
    m = aa.build(p, ALPHABETS['word'][:p.k], om=lambda o: ['x', 'goal__y'][o])
    with workplace():
        for num in (0, 1, 2, 3):
            vals = [VALS[(j * 3 + num + x * 5) % len(VALS)] for x in range(num)]
            form = FORM[(j + num) % len(FORM)]
            text = ''.join(f'Property {x}\n' + form.format(v) + '\n' for x, v in enumerate(vals))
            with open('props.txt', 'w', newline='') as f:
                f.write(text)
            want = [float(v) for v in vals]
            what = f'{p}: results {text!r}'
            ctx.trans()
            mdp = m if p.kind == 'mdp' else smm_to_mdp_conversion(m)
            d0 = aa.describe(m)
            string = mdp_2_prism_format(mdp, 'mc_exp')
            for name, f in (('model_check_properties', lambda: model_check_properties(mdp, 'props.txt')),
                            ('model_check_properties with an absolute path', lambda: model_check_properties(mdp, os.path.abspath('props.txt')))):
                r = f()
                ctx.eq(list(r.values()), want, f'{what}: {name}')
                ctx.eq(list(r), [f'prop{x + 1}' for x in range(num)], f'{what}: names')
                ctx.eq(open('props.txt.seen').read(), string, f'{what}: model given to the tool')
                ctx.check(sorted(os.listdir('.')) == ['props.txt', 'props.txt.cwd', 'props.txt.seen'], lambda: f'{what}: files left behind: {os.listdir(".")}')
            with open('own.prism', 'w') as f:
                f.write('own model')
            ctx.eq(list(evaluate_all_properties('own.prism', 'props.txt').values()), want, f'{what}: evaluate_all_properties')
            ctx.eq(open('props.txt.seen').read(), 'own model', f'{what}: model given to the tool')
            os.remove('own.prism')
            for delta in ((0, 0, 0), (0.1, 0, 0), (0, -0.25, 0), (0.01, 0.02, -0.3)):
                correct = [v + d for v, d in zip(want, delta)]
                res, diff = model_check_experiment('props.txt', correct, mdp)
                ctx.eq(res, {f'prop{x + 1}': round(v, 4) for x, v in enumerate(want)}, f'{what}: rounded results')
                ctx.check(all(abs(diff[f'prop{x + 1}'] - abs(d)) < 1e-4 for x, d in zip(range(num), delta)) and len(diff) == num, lambda: f'{what}: differences {diff} to {correct}')
                for bound in (0.005, 0.015, 0.05, 0.2, 0.5):
                    stop = stop_based_on_confidence(m, ('props.txt', correct, bound), print_level=(0, 2)[j % 2])
                    ctx.check(stop is (num > 0 and all(abs(d) < bound for d in delta[:num])), lambda: f'{what}: bound {bound}, correct values {correct}: stop = {stop}')
            ctx.check(aa.describe(m) == d0, f'{what}: the model was changed')
            ctx.trace()
    ctx.outcome((p.kind, p.n))


def run_pstop(key, j, ctx):
    """Stochastic L* that stops based on properties: not before min_rounds, then as soon as they hold, at the latest after max_rounds."""
    t = aa.of_key(key)
    al, outs = ['a', 'b'][:t.k], ['x', 'y']
    for x, (low, high, when) in enumerate(((2, 5, 0), (1, 3, None), (3, 4, 'none'), (1, 6, 3), (2, 6, 4), (3, 3, None))):
        opt = (x, low, high, when)
        _, full = explore(lambda c: one_pstop(c, t, al, outs, j, *opt, ctx), ctx, max_runs=1 if ctx.tier == 'quick' else 3, floats=[0.1, 0.5, 0.9], tail=2)
        ctx.capped += not full


def one_pstop(c, t, al, outs, j, x, low, high, when, ctx):
    from aalpy.base import Oracle
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.utils import mdp_2_prism_format
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    strategy = ('normal', 'chi2', 'classic')[(j + x) % 3]
    what = f'{t}: stochastic L* {strategy} with property based stopping, {low} to {high} rounds, properties hold from query {when}'
    with workplace():
        def results(good):
            with open('props.txt', 'w') as f:
                f.write('' if when == 'none' else 'Property\nResult: 0.5\nProperty\n' + ('Result: 0.25\n' if good else 'Result: 0.75\n'))
        results(when == 0)
        sul = st.make_sul(t, al, outs, st.Proportional(key='history'))
        sul.post = post_any(sul)
        calls = []

        class Teacher(Oracle):
            def find_cex(self, hyp):
                calls.append(hyp)
                if len(calls) == when:
                    results(True)
        m, info = run_stochastic_Lstar(list(al), sul, Teacher(list(al), sul), automaton_type=t.kind, min_rounds=low, max_rounds=high, custom_oracle=True, strategy=strategy,
                                       property_based_stopping=('props.txt', [0.5, 0.26], 0.02), n_c=20, n_resample=100, return_data=True, print_level=0)
        r = info['learning_rounds']
        ctx.trace()
        ctx.trans(r)
        ctx.check(1 <= r <= high, lambda: f'{what}: {r} rounds')
        if strategy != 'classic':             # 'classic' also ends when every cell has enough data
            if when == 0:
                ctx.eq(r, low, f'{what}: rounds')
            elif when in (None, 'none'):
                ctx.eq(r, high, f'{what}: rounds')
            else:
                ctx.check(r == high or len(calls) == max(when, low - r + len(calls)), lambda: f'{what}: {r} rounds, {len(calls)} queries')
        if r >= low:
            mdp = m if t.kind == 'mdp' else smm_to_mdp_conversion(m)
            ctx.eq(open('props.txt.seen').read(), mdp_2_prism_format(mdp, 'mc_exp'), f'{what}: the properties were not checked on the returned model')
        ctx.outcome((t.kind, r, len(m.states), when))


def run_jal(ts, i, ctx):
    from aalpy.learning_algs import run_JAlergia, run_Alergia
    repo = os.environ.get('VERIF_REPO', '/repo')
    jar = os.path.join(repo, 'jAlergia', 'alergia.jar')
    base = [tuple((('a', 'b')[a], ('x', 'y')[o]) for a, o in t) for t in ts]
    typ = ('mdp', 'smm')[i % 2]
    if not any(base):
        return
    mult = ((1, 1), (2, 1), (1, 3), (20, 1))[i // 2 % 4]
    traces = [t for t, n in zip(base, mult) for _ in range(n)]
    flat = [(['init'] if typ == 'mdp' else []) + [x for st in t for x in st] for t in traces]
    what = f'JAlergia {typ} on {traces}'
    with workplace() as d:
        if i % 3:
            data = flat if i % 3 == 1 else tuple(map(tuple, flat))
        else:
            data = os.path.join(d, 'data.txt')
            with open(data, 'w') as f:
                f.writelines(','.join(x) + '\n' for x in flat)
        out, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)                                        # the tool reports on standard output
        try:
            m = run_JAlergia(data, typ, jar, eps=(0.05, 0.9)[i // 3 % 2], heap_memory='-Xmx128M')
        finally:
            os.dup2(out, 1)
            os.close(out)
            os.close(null)
        ctx.check(m is not None, f'{what}: no model')
        ctx.check(os.listdir('.') == [], lambda: f'{what}: files left behind: {os.listdir(".")}')
        ctx.eq(aa.kind_of(m), typ, f'{what}: type')
        replay(m, typ, traces, ctx, what)
        ctx.eq(run_JAlergia('nothing.txt', typ, jar), None, f'{what}: missing file')
        ctx.eq(run_JAlergia(flat, typ, 'nothing.jar'), None, f'{what}: missing jar')
    ctx.trace()
    ctx.outcome((typ, len(m.states)))


def run(case, ctx):
    ctx.state()
    {'smc': run_smc, 'prism': run_prism, 'pstop': run_pstop, 'jal': run_jal}[case[0]](*case[1:], ctx)
    ctx.sample(case)
