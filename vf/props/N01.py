from vf.core import Harness
HARNESSES = []
for n, t in ((4, 'quick'), (6, 'thorough'), (7, 'thorough')):
    HARNESSES.append(Harness('sort%d' % n, 'utils.c', 's', unwind=12, defs=['K=1', 'LEN=%d' % n], checks=['bounds', 'pointer'], functions=['MMG5_nsort'], bounds='arrays of 0 to %d arbitrary non-NaN values' % n, tier=t, timeout=900))
for n, t in ((4, 'quick'), (6, 'quick')):
    HARNESSES.append(Harness('perm%d' % n, 'utils.c', 's', unwind=26, defs=['K=2', 'LEN=%d' % n], checks=['bounds', 'pointer'], functions=['MMG5_nperm'], bounds='0 to %d arbitrary values, every permutation, several strides and shifts' % n, tier=t))
META = {'assumptions': ['values are not NaN']}
