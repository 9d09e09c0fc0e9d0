"""Oracles count exactly what they execute and leave hypothesis and arguments unchanged."""
from mc import orc
from mc.ref import from_key
from mc.build import build
from mc.choices import explore
from mc.props import P

META = P['C14']
CHUNK = 4
A = ['a', 'b']


def cases(tier):
    for s, h in orc.pairs(tier, 3 if tier == 'quick' else 1):
        yield (s, h)


def run(case, ctx):
    sref, href = from_key(case[0]), from_key(case[1])
    F = orc.factories()
    ctx.state()
    for name in orc.OPTS:
        def body(c):
            base, sul, hyp, x = orc.env(name, sref, href, A)
            p0, s0 = base.pres, base.raw_steps
            alpha, words = list(A), [list(w) for w in x['words']]
            orac = F[name](alpha, sul, x)
            ctx.eq((orac.num_queries, orac.num_steps), (0, 0), f'{name}: fresh counters')
            model = build(sref, A)
            model.compute_prefixes()
            for rnd, h in enumerate((hyp, hyp, model)):
                before = orc.snapshot(h)
                what = f'{name} round {rnd}'
                orac.find_cex(h)
                ctx.trace()
                ctx.check(orc.snapshot(h) == before, lambda: f'{what}: the hypothesis was changed: {before} -> {orc.snapshot(h)}')
                ctx.eq(orac.num_queries, base.pres - p0, f'{what}: queries counted vs resets executed')
                ctx.eq(orac.num_steps, base.raw_steps - s0, f'{what}: steps counted vs steps executed')
                ctx.eq(alpha, list(A), f'{what}: alphabet changed')
                ctx.eq([list(w) for w in x['words']], words, f'{what}: the provided sequences changed')
                bad = [p for p in base.protocol if not p.startswith('pre without')]
                ctx.check(not bad, lambda: f'{what}: {bad[0]}')
                ctx.outcome((name, rnd, orac.num_queries, orac.num_steps))
                ctx.trans(base.raw_steps - s0)
        runs, complete = explore(body, ctx, max_runs=200 if ctx.tier == 'quick' else 3000, max_dev=2 if ctx.tier == 'quick' else 4, **orc.OPTS[name])
        if not complete:
            ctx.count('capped_' + name)
            ctx.capped += 1
    ctx.sample(case)
