from vf.core import Harness
HARNESSES = []
def pk(lib, masks, v, sz, opn=0, tier='quick'):
    n = ['', '2d', 's', '3d'][lib]
    HARNESSES.append(Harness('%s_%d_%d%s_%d' % (n, masks[0], v, '_open' if opn else '', sz), 'pack.c', n, unwind=50, defs=['LIB=%d' % lib, 'MASKS=' + ','.join(map(str, masks)), 'V=%d' % v, 'SZ=%d' % sz, 'OPN=%d' % opn], stubs=['MMG3D_bdryBuild'] if lib == 3 else [],
        functions={1: ['MMG2D_pack', 'MMG2D_hashQuad', 'MMG2D_keep_only1Subdomain'], 2: ['MMGS_packMesh', 'MMGS_keep_only1Subdomain'], 3: ['MMG3D_packMesh', 'MMG3D_keep_only1Subdomain']}[lib], timeout=300, mem_gb=4, tier=tier, flags=['--max-field-sensitivity-array-size', '300'],
        bounds='%d patterns of deleted elements among 5, numbering %d, any coordinates, references and values (%d per vertex)' % (len(masks), v, sz)))
for lib in (1, 2, 3):
    for v in range(5):
        pk(lib, [0, 1, 10, 16], v, [1, 3, 6][(lib + v) % 3] if lib != 1 else [1, 3][v % 2], opn=int(lib == 1 and v % 2 == 1))
META = {'outside': ['the listing of the boundary triangles of a volume mesh (replaced by a stand-in)'], 'assumptions': ['the two sides of an edge carry the same attributes']}
