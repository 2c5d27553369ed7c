from vf.core import Harness
HARNESSES = []
OPS = ['newPt', 'delPt', 'newElt', 'delElt', 'growPt', 'growElt', 'newPt_bdy']
for lib, n in ((3, '3d'), (2, '2d'), (1, 's')):
    p = {3: 'MMG3D', 2: 'MMG2D', 1: 'MMGS'}[lib]
    for op in range(7 if lib == 3 else 6):
        for fail in ((0, 1) if op >= 4 else (0,)):
            HARNESSES.append(Harness('%s_%s%s' % (n, OPS[op], '_full' if fail else ''), 'freelist.c', n, unwind=24, defs=['LIB=%d' % lib, 'OP=%d' % op, 'FAIL=%d' % fail],
                checks=['bounds', 'pointer'],
                functions=[[p + '_newPt'], [p + '_delPt', p + '_newPt'], [p + '_newElt'], [p + '_delElt', p + '_newElt'], ['POINT_REALLOC', p + '_newPt'], ['TETRA/TRIA_REALLOC', p + '_newElt'], [p + '_newPt']][op],
                bounds='tables of 4 slots; any consistent state: any set of live slots, any order of the free list, any contents; one step' + ('; the memory budget stops the growth half-way' if fail else '')))
META = {'assumptions': ['consistent state: the list holds free slots only, each once; untouched slots come last in increasing order, except the last slot of the table, which is never linked']}
