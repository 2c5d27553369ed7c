from vf.core import Harness
HARNESSES = []
def H(n, op, ne, nv, fix, init, lib, fn, tier='quick'):
    HARNESSES.append(Harness('%s_%d_%d_%d' % (n, ne, nv, fix), 'adj.c', lib, unwind=max(3 * ne + 2, nv * 4 if op == 2 else 0), defs=['OP=%d' % op, 'NE=%d' % ne, 'NV=%d' % nv, 'FIX=%d' % fix, 'INIT=' + init], functions=fn, timeout=600 if tier == 'thorough' else 300, mem_gb=4, tier=tier,
        bounds='%d triangles over %d vertices, %d of them of any connectivity%s' % (ne, nv, ne - fix, ', any edge attributes' if op == 2 else '')))
def d2(*a, **k): H('planar', 1, *a, '2d', ['MMG2D_hashTria'], **k)
def sf(*a, **k): H('surface', 2, *a, 's', ['MMGS_hashTria', 'MMG5_mmgHashTria'], **k)
d2(2, 5, 0, '')
d2(3, 5, 1, '{1,2,3}')
d2(3, 6, 2, '{1,2,3},{3,2,4}')
d2(4, 6, 2, '{1,2,3},{3,2,4}', tier='thorough')
d2(4, 6, 3, '{1,2,3},{3,2,4},{5,3,4}', tier='thorough')
# surfaces: every way of adding triangles to a first one, up to equal vertex sets, with varying numberings
from itertools import combinations, permutations
def lists(ne, nv):
    sets = list(combinations(range(1, nv + 1), 3))
    out = []
    for n, c in enumerate(combinations([s for s in sets if s != (1, 2, 3)], ne - 1)):
        t = [(1, 2, 3)] + list(c)
        out.append([list(permutations(x))[(n * 5 + 3 * i) % 6] for i, x in enumerate(t)])
    return out
def sl(ne, nv, part, of, tier='quick'):
    l = lists(ne, nv)[part::of]
    HARNESSES.append(Harness('surface_%d_%d_%d' % (ne, nv, part), 'adj.c', 's', unwind=max(3 * ne + 2, 4 * nv, len(l) + 1), defs=['OP=2', 'NE=%d' % ne, 'NV=%d' % nv, 'NLIST=%d' % len(l), 'LIST=' + ','.join('{' + ','.join('{%d,%d,%d}' % x for x in t) + '}' for t in l)],
        functions=['MMGS_hashTria', 'MMG5_mmgHashTria'], timeout=300, mem_gb=4, tier=tier, flags=['--max-field-sensitivity-array-size', '300'], bounds='%d of the %d sets of %d triangles over %d vertices that hold a given one, any references, varying edge attributes' % (len(l), len(lists(ne, nv)), ne, nv)))
sl(2, 5, 0, 1)
sl(3, 4, 0, 1)
for i in range(3): sl(3, 5, i, 3)
for i in range(6): sl(4, 5, i, 6, tier='quick' if i < 2 else 'thorough')
META = {'outside': ['larger meshes, in particular longer hash chains', 'parallel (partition interface) edges', 'a triangle given twice']}
