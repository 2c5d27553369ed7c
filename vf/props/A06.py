from vf.core import Harness
HARNESSES = []
ON = ['local_parameters', 'materials', 'base_references']
FN = [['Set_localParameter'], ['Set_multiMat'], ['Set_lsBaseReference']]
for lib, n, p in ((3, '3d', 'MMG3D_'), (2, '2d', 'MMG2D_'), (1, 's', 'MMGS_')):
    for op in range(3):
        for n1, n2, nreg in ((0, 0, 1), (2, 1, 3), (1, 3, 2), (3, 2, 3)):
            if op == 1 and n1 == 0: pass
            HARNESSES.append(Harness('%s_%s_%d_%d' % (n, ON[op], n1, n2), 'tables.c', n, unwind=12, defs=['LIB=%d' % lib, 'OP=%d' % op, 'N1=%d' % n1, 'N2=%d' % n2, 'NREG=%d' % nreg],
                stubs=['MMG5_MultiMat_init'] if op == 1 else [], functions=[p + f for f in FN[op]] + [p + 'Set_iparameter'] + (['MMG5_' + FN[op][0]] if op else []),
                bounds='%d entries declared, %d registrations with arbitrary arguments, then %d entries declared and one registration' % (n1, nreg, n2)))
META = {'assumptions': ['allocation succeeds', 'the indexing of a complete material table (MMG5_MultiMat_init, see L01) may succeed or fail']}
