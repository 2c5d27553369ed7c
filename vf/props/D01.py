from vf.core import Harness
COMMON = ['MMG5_scaleMesh', 'MMG5_unscaleMesh', 'MMG5_version']
ST = {3: ['MMG3D_' + f for f in ('Set_commonFunc setfunc Free_topoTables Clean_isoSurf tetraQual inqua outqua analys prilen Set_constantSize mmg3d2 hashTetra packMesh').split()] + ['MMG5_mmg3d1_delone', 'MMG5_mmg3d1_pattern', 'MMG5_scotchCall'],
      2: ['MMG2D_' + f for f in 'Set_commonFunc setfunc keep_only1Subdomain outqua analys prilen Set_constantSize hashTria mmg2d1n mmg2d2 mmg2d6 pack'.split()] + ['MMG5_Set_defaultTruncatureSizes'],
      1: ['MMGS_' + f for f in 'Set_commonFunc setfunc Free_topoTables Clean_isoSurf inqua outqua analys prilen Set_constantSize mmgs2 hashTria packMesh'.split()] + ['MMG5_mmgs1']}
NM = {3: '3d', 2: '2d', 1: 's'}
FN = {(3, 0): 'MMG3D_mmg3dlib', (3, 1): 'MMG3D_mmg3dls', (3, 2): 'MMG3D_mmg3dmov', (2, 0): 'MMG2D_mmg2dlib', (2, 1): 'MMG2D_mmg2dls', (2, 2): 'MMG2D_mmg2dmov', (2, 3): 'MMG2D_mmg2dmesh', (1, 0): 'MMGS_mmgslib', (1, 1): 'MMGS_mmgsls'}
MN = ['remesh', 'levelset', 'motion', 'generate']
def build(part):
    hs = []
    for (lib, mode), fn in FN.items():
        if mode == 2 and part == 0:
            continue
        for met in ((0, 1) if mode == 1 else (1,)):
            for imprim, dd in (((-1, 0), (5, 1)) if part == 0 else ((-1, 0),)):
                for adja in ((0, 1) if lib != 2 and part == 0 else (0,)):
                    hs.append(Harness('%s_%s%s%s%s' % (NM[lib], MN[mode], '_nomet' if not met else '', '_verbose' if imprim > 0 else '', '_adja' if adja else ''), 'run.c', NM[lib], unwind=8,
                        defs=['LIB=%d' % lib, 'MODE=%d' % mode, 'PART=%d' % part, 'METSET=%d' % met, 'IMPRIM=%d' % imprim, 'DDEBUG=%d' % dd] + (['ADJA'] if adja else []), stubs=COMMON + ST[lib], functions=[fn], checks=['pointer', 'bounds'],
                        bounds='every combination of success and failure of the phases of %s, any option flags and solution layout (up to 4 values)' % fn))
    return hs
HARNESSES = build(0)
META = {'assumptions': ['the phases themselves are replaced by stand-ins that succeed or fail arbitrarily (their content is the subject of other properties)', 'renumbering (SCOTCH) is replaced by a stand-in that succeeds; built without the elasticity solver, as in this repository build']}
