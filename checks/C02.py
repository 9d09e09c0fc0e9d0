from mc import active
from mc.props import P
META = P['C02']
CHUNK = 4
_tier = 'quick'


def setup(tier):
    global _tier
    _tier = tier


def cases(tier):
    yield from active.spaces('kv', tier)


def run(case, ctx):
    active.run_case(ctx, 'kv', case, ctx.tier)
