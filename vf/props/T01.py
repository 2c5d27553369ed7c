from vf.core import Harness
HARNESSES = []
def H(n, op, ne, nv, fix, init, lib, fn, tier='quick', table=None, nm=''):
    HARNESSES.append(Harness('%s_%d_%d_%d%s' % (n, ne, nv, fix, nm), 'adj.c', lib, unwind=(5 if op == 3 else 4) * ne + 2, defs=['OP=%d' % op, 'NE=%d' % ne, 'NV=%d' % nv, 'FIX=%d' % fix, 'INIT=' + init] + (['TABLE=' + table] if table else []), functions=fn, timeout=600 if tier == 'thorough' else 300, mem_gb=4, tier=tier,
        bounds='%d elements over %d vertices, %s' % (ne, nv, 'one of them glued in every way to %s' % nm[1:] if table else '%d of them of any connectivity' % (ne - fix))))
def tet(*a, **k): H('tetra', 0, *a, '3d', ['MMG3D_hashTetra'], **k)
tet(2, 5, 1, '{1,2,3,4}')
tet(2, 6, 1, '{4,3,1,2}')
tet(2, 5, 0, '', tier='thorough')
tet(3, 6, 2, '{1,2,3,4},{1,3,2,5}')
tet(4, 7, 3, '{1,2,3,4},{1,3,2,5},{5,2,6,1}', tier='thorough')
# a second prism glued to a face of the first one, in every numbering
FC = [(0, 1, 2), (3, 5, 4), (1, 4, 5, 2), (0, 2, 5, 3), (0, 3, 4, 1)]
def prisms(f):
    out = []
    a = [v + 1 for v in FC[f]]
    for g in range(5):
        if len(FC[g]) != len(a): continue
        for d in (1, -1):
            for r in range(len(a)):
                p = [0] * 6
                for i, c in enumerate(FC[g]): p[c] = a[(r + d * i) % len(a)]
                new = iter((7, 8, 9))
                out.append('{' + ','.join(str(x or next(new)) for x in p) + '}')
    return ','.join(out)
for f in range(5):
    H('prism', 3, 2, 9, 1, '{1,2,3,4,5,6}', '3d', ['MMG3D_hashPrism'], table=prisms(f), nm='_face%d' % f, tier='quick' if f in (1, 2) else 'thorough')
META = {'outside': ['larger meshes, in particular longer hash chains']}
