"""C10: a copy equals its original and shares nothing with it."""
from .. import long, twin

ASSUMPTIONS = ['values are copyable']


def stages(tier):
    return twin.stages(tier, ('copy', 'deepcopy', 'twice', 'listcopy')) + [long.stage(long.copies)]
