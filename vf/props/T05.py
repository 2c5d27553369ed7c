from vf.core import Harness
HARNESSES = []
ON = ['pattern', 'split_edge', 'insert']
for lib, n in ((2, '2d'), (1, 's')):
    for op in range(3 if lib == 2 else 2):
        for nei, grow in ((1, 0), (0, 0), (1, 1), (1, 2)):
            HARNESSES.append(Harness('%s_%s_%s%s' % (n, ON[op], 'pair' if nei else 'alone', ['', '_grow', '_grow2'][grow]), 'tsplit.c', n, unwind=24, defs=['LIB=%d' % lib, 'OP=%d' % op, 'NEI=%d' % nei, 'GROW=%d' % grow],
                checks=['bounds', 'pointer'],
                functions=[['MMG2D_split1', 'MMG2D_split2', 'MMG2D_split3'], ['MMG2D_split1b'], ['MMG2D_splitbar']][op] if lib == 2 else [['MMGS_split1', 'MMGS_split2', 'MMGS_split3'], ['split1b']][op],
                bounds='two triangles (or one alone), every pattern and numbering of the split triangle; references, tags and edge references arbitrary' + ('; the triangle array has to grow' if grow else '')))
META = {'assumptions': ['coordinates are those of one right triangle pair (the split functions do not read coordinates, except the areas tested by splitbar)']}
