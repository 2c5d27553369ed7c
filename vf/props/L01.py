from vf.core import Harness
HARNESSES = []
for lib, n, p in ((3, '3d', 'MMG3D_'), (2, '2d', 'MMG2D_'), (1, 's', 'MMGS_')):
    for op, nm in ([(0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (2, 2)] if lib == 3 else [(0, 2), (1, 2)]):
        HARNESSES.append(Harness('%s_%s_%d' % (n, ['rules', 'unlisted', 'kept'][op], nm), 'mats.c', n, unwind=12, defs=['LIB=%d' % lib, 'OP=%d' % op, 'NM=%d' % nm, 'HI=%d' % (5 if nm < 3 else 8)], checks=['bounds', 'pointer'] if op == 1 else ['bounds'],
            known='K-isnotsplit' if op == 2 else None, tier='thorough' if nm == 3 else 'quick', timeout=600,
            functions=[p + 'Set_iparameter', p + 'Set_multiMat', 'MMG5_MultiMat_init', 'MMG5_isSplit', 'MMG5_getStartRef', 'MMG5_isLevelSet', 'MMG5_isNotSplit'],
            bounds='%d rules, references in 0..5 (0..8 for three rules), all pairwise different except that a split reference may be one of its own sides' % nm))
META = {'assumptions': ['the references given to different rules and sides are pairwise different, as the documentation of the table requires']}
