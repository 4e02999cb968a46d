"""C07: decided on every graph shape within the bounds, however it came about."""
from .. import observe, structural

ASSUMPTIONS = ['node names are treated uniformly (5 naming schemes are enumerated)']


def check(ctx, g, r):
    return observe.check_relatives(g, r)


def stages(tier):
    return structural.stages(check, tier, ('relatives',))
