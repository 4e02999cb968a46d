"""C11: pickling a graph and loading it back loses nothing."""
from .. import long, twin

ASSUMPTIONS = ['values, label converters and extra settings are picklable']


def stages(tier):
    return twin.stages(tier, ('pickle2', 'pickle5', 'pickle0', 'pickle1', 'pickle3', 'pickle4', 'twicepickle') if tier == 'thorough' else ('pickle2', 'pickle5', 'pickle0', 'twicepickle'),
                       pickles=(0, 1, 2, 3, 4, 5) if tier == 'thorough' else (0, 2, 5)) + [long.stage(long.pickles)]
