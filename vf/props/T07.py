from vf.core import Harness
HARNESSES = []
for lib, n in ((2, '2d'), (1, 's')):
    p = 'MMG2D_' if lib == 2 else ''
    for nb, op in ((2, 1), (3, 0), (3, 1), (4, 0), (4, 1), (5, 0), (5, 1)):
        if lib == 1 and nb == 3 and op:
            continue
        HARNESSES.append(Harness('%s_ball%d_%s' % (n, nb, 'open' if op else 'closed'), 'triops.c', n, unwind=70, defs=['LIB=%d' % lib, 'OP=2', 'NB=%d' % nb, 'OPEN=%d' % op, 'NTX=%d' % (2 * nb + 1)],
            functions=[p + ('colver2' if nb == 2 else 'colver3' if nb == 3 and not op else 'colver'), ('MMG2D' if lib == 2 else 'MMGS') + '_delPt', ('MMG2D' if lib == 2 else 'MMGS') + '_delElt'],
            bounds='%s ball of %d triangles, %s of the outer neighbours, several numberings; references, tags and edge references arbitrary' % ('open' if op else 'closed', nb, 'four presence patterns' if nb > 4 else 'every presence pattern')))
META = {'assumptions': ['edge references are not negative', 'in the collapse of a vertex with two triangles the edge between them carries no attribute (the callers exclude it)']}
for h in list(HARNESSES):
    if 'ball2' not in h.name:
        d = Harness(h.name + '_deep', 'triops.c', h.lib, unwind=70, defs=list(h.defs) + ['DEEP'], functions=h.functions, tier='thorough', timeout=800, bounds=h.bounds.replace('several numberings', 'more numberings'))
        HARNESSES.append(d)
