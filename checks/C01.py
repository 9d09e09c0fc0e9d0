from mc import active
from mc.props import P
META = P['C01']
CHUNK = 4
_tier = 'quick'


def setup(tier):
    global _tier
    _tier = tier


def cases(tier):
    yield from active.spaces('lstar', tier)


def run(case, ctx):
    active.run_case(ctx, 'lstar', case, ctx.tier)
