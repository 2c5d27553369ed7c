from vf.core import Harness
HARNESSES = []
for lib, n in ((2, '2d'), (1, 's')):
    fn = ['MMG2D_swapar'] if lib == 2 else ['swapar']
    for side in (0, 1):
        for mlo, t in ((15, 'all neighbours, every numbering'), (0, 'the 15 other presence patterns of the neighbours, one numbering each'), (1, 'the 15 other presence patterns of the neighbours, every numbering')):
            HARNESSES.append(Harness('%s_swap_side%d_%s' % (n, side, {15: 'full', 0: 'open', 1: 'deep'}[mlo]), 'triops.c', n, unwind=20, defs=['LIB=%d' % lib, 'OP=0', 'SIDE=%d' % side, 'MLO=%d' % mlo],
                tier='thorough' if mlo == 1 else 'quick', timeout=800 if mlo == 1 else 240, functions=fn, bounds='two triangles, %s; references, tags and edge references of all edges arbitrary' % t))
    if lib == 1:
        for side in (0, 1):
            HARNESSES.append(Harness('s_swap_fold%d' % side, 'triops.c', n, unwind=20, defs=['LIB=1', 'OP=0', 'LOST', 'SIDE=%d' % side, 'MLO=0'], functions=fn,
                bounds='two triangles, a neighbour of which already holds the opposite vertex'))
    HARNESSES.append(Harness('%s_protected' % n, 'triops.c', n, unwind=20, defs=['LIB=%d' % lib, 'OP=1'], functions=fn + (['MMG2D_chkswp'] if lib == 2 else ['chkswp']),
        bounds='every numbering, with all neighbours; tag of the edge arbitrary with ridge, reference%s or required set' % (', non-manifold' if lib == 1 else '')))
for mlo in (0, 1, 2, 3, 4):
    HARNESSES.append(Harness('2d_delaunay_m%d' % mlo, 'triops.c', '2d', unwind=20, defs=['LIB=2', 'OP=4', 'MLO=%d' % mlo], stubs=['MMG2D_caltri_iso'], functions=['MMG2D_swapdelone'], tier='quick' if mlo in (0, 3) else 'thorough',
        bounds='two triangles with a fixed convex position, every numbering, 3 of the 16 neighbour patterns; quality values arbitrary'))
META = {'assumptions': ['the two triangles carry the same reference (an edge between two references is tagged and refused, which is checked)'], 'outside': ['the geometric criteria by which a swap is proposed']}
