from vf.core import Harness
HARNESSES = []
ON = ['vertices', 'volume_elements', 'surface_elements', 'edges', 'solutions']
FN = [['Set_vertex', 'GetByIdx_vertex', 'Get_vertex'], ['Set_tetrahedron', 'Set_prism', 'Get_tetrahedron'], ['Set_triangle', 'Set_quadrilateral', 'Get_triangle'], ['Set_edge', 'Get_edge'],
      ['Set_scalarSol(s)', 'Set_vectorSol(s)', 'Set_tensorSol(s)', 'Set_ithSol(s)_inSolsAtVertices', 'Get_ithSol(s)_inSolsAtVertices']]
for lib, n, p in ((3, '3d', 'MMG3D_'), (2, '2d', 'MMG2D_'), (1, 's', 'MMGS_')):
    for op in range(5):
        if lib != 3 and op == 1:
            continue
        for k in (0, 2):
            HARNESSES.append(Harness('%s_%s_%d' % (n, ON[op], k), 'refuse.c', n, unwind=20, defs=['LIB=%d' % lib, 'OP=%d' % op, 'N=%d' % k], checks=['bounds', 'pointer'],
                functions=[p + f for f in FN[op]], bounds='%d entities of each kind declared, any position above, arbitrary other arguments' % k))
META = {'assumptions': []}
