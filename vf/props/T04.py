from vf.core import Harness
HARNESSES = []
NM = [None, 'MMG5_split1', 'MMG5_split2sf', 'MMG5_split2', 'MMG5_split3', 'MMG5_split3cone', 'MMG5_split3op', 'MMG5_split4sf', 'MMG5_split4op', 'MMG5_split5', 'MMG5_split6', 'MMG5_split4bar']
NF = [0, 6, 12, 3, 4, 4, 12, 12, 3, 6, 1, 1]
def H(tag, fn, defs, b, tier='quick'):
    HARNESSES.append(Harness('%s_%s' % (NM[fn][5:], tag), 'tetsplit.c', '3d', unwind=30, defs=['FN=%d' % fn] + defs, checks=['bounds'], functions=[NM[fn], 'MMG3D_newElt'], bounds=b, tier=tier, timeout=400, mem_gb=6))
B = 'attributes arbitrary, every pattern of the family'
for fn in range(1, 12):
    if NF[fn] <= 6:
        H('id', fn, ['LLO=0', 'LHI=99', 'PLO=0', 'PHI=1', 'MOFF=5'], B + '; one numbering')
    else:
        for a in range(0, NF[fn], 4):
            H('id%d' % a, fn, ['LLO=%d' % a, 'LHI=%d' % (a + 4), 'PLO=0', 'PHI=1', 'MOFF=5'], B + ' (4 of 12); one numbering')
    # every numbering and every set of boundary faces, for each pattern
    for l in range(NF[fn]):
        for a in range(0, 24, 6):
            H('num_%d_%d' % (l, a), fn, ['LLO=%d' % l, 'LHI=%d' % (l + 1), 'PLO=%d' % a, 'PHI=%d' % (a + 6), 'MOFF=%d' % (l + a)], 'pattern %d of the family; vertex numberings %d to %d of 24, boundary faces varying with the numbering; attributes arbitrary' % (l, a, a + 5), 'thorough')
        for a in range(0, 16, 4):
            H('mask_%d_%d' % (l, a), fn, ['LLO=%d' % l, 'LHI=%d' % (l + 1), 'PLO=%d' % ((5 * l + 3) % 24), 'PHI=%d' % ((5 * l + 3) % 24 + 1), 'MLO=%d' % a, 'MHI=%d' % (a + 4)], 'pattern %d of the family; one vertex numbering, sets %d to %d of 16 of boundary faces; attributes arbitrary' % (l, a, a + 3), 'thorough')
    if fn != 11:
        for g in (1, 2, 3):
            H('grow%d' % g, fn, ['LLO=0', 'LHI=1', 'PLO=9', 'PHI=10', 'MOFF=15', 'GROW=%d' % g], 'first pattern of the family; the %s array has to grow; attributes arbitrary' % ('boundary' if g == 3 else 'tetrahedron'))
META = {'assumptions': ['element quality is not part of the property (its evaluation is replaced by a constant)']}
