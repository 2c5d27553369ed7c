from vf.core import Harness
HARNESSES = []
D = ['-D%s=vf_%s' % (x, x) for x in ('free', 'malloc', 'calloc', 'realloc')]
OPS = {'sizes': '1,2,3,4,1,2,3', 'tables': '6,7,8,6,7,8', 'fields': '1,5'}
def H(lib, w, ops, tier='quick'):
    n = ['', '2d', 's', '3d'][lib]; p = ['', 'MMG2D_', 'MMGS_', 'MMG3D_'][lib]
    HARNESSES.append(Harness('%s_%d_%s' % (n, w, ops), 'life.c', n, unwind=20, defs=['LIB=%d' % lib, 'W=%d' % w, 'OPS=' + OPS[ops]], libdefs=D, oom=True,
        stubs=[p + 'memOption', 'MMG5_memSize'] + ['MMG5_Set_%sName' % x for x in ('inputMesh', 'outputMesh', 'inputSol', 'outputSol')], flags=['--max-field-sensitivity-array-size','300'], functions=[p + f for f in ('Init_mesh', 'Free_all', 'Free_structures', 'Free_names')], timeout=300, mem_gb=4, tier=tier,
        bounds='optional structures %d, calls %s (%s), every allocation of one call (each in turn) may fail, then release' % (w, ops, OPS[ops])))
for lib in (1, 2, 3):
    H(lib, 0, 'tables'); H(lib, 8, 'fields')
    H(lib, 3, 'sizes')
    if lib != 2:
        H(lib, 7, 'sizes'); H(lib, 5, 'sizes', 'thorough'); H(lib, 4, 'sizes', 'thorough')
    H(lib, 2, 'sizes', 'thorough'); H(lib, 3, 'tables', 'thorough'); H(lib, 15 if lib != 2 else 11, 'fields', 'thorough')
META = {'assumptions': ['memory sizing (memOption) may succeed or fail and, when it succeeds, gives capacities slightly above the sizes', 'the amount of physical memory is 1 GB']}
