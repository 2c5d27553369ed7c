from vf.core import Harness
KN = ['vertex', 'tetra', 'prism', 'tria', 'quad', 'edge']
ON = ['set_one', 'set_all', 'attributes']
LIBS = {3: ('3d', 'MMG3D'), 2: ('2d', 'MMG2D'), 1: ('s', 'MMGS')}
ONE = [('Set_vertex', 'Set_vertices', 'Get_vertex', 'Get_vertices', 'GetByIdx_vertex'), ('Set_tetrahedron', 'Set_tetrahedra', 'Get_tetrahedron', 'Get_tetrahedra'),
       ('Set_prism', 'Set_prisms', 'Get_prism', 'Get_prisms'), ('Set_triangle', 'Set_triangles', 'Get_triangle', 'Get_triangles'),
       ('Set_quadrilateral', 'Set_quadrilaterals', 'Get_quadrilateral', 'Get_quadrilaterals'), ('Set_edge', 'Set_edges', 'Get_edge', 'Get_edges')]
ATT = {0: ['Set_corner', 'Unset_corner', 'Set_requiredVertex', 'Unset_requiredVertex', 'Set_normalAtVertex', 'Get_normalAtVertex'],
       1: ['Set_requiredTetrahedron', 'Unset_requiredTetrahedron', 'Set_requiredTetrahedra', 'Unset_requiredTetrahedra'],
       3: ['Set_requiredTriangle', 'Unset_requiredTriangle', 'Set_requiredTriangles', 'Set_parallelTriangle', 'Unset_parallelTriangle'],
       5: ['Set_ridge', 'Unset_ridge', 'Set_requiredEdge', 'Unset_requiredEdge', 'Set_parallelEdge']}

def entity_harnesses(lib, kinds, noattr=(2, 4)):
    out = []
    for k in kinds:
        for op in (0, 1, 2):
            if op == 2 and k in noattr:
                continue
            stubs = []
            ass = []
            if lib == 3 and k == 1 and op < 2:
                stubs = ['MMG5_orvol']
            if lib == 2 and k == 3 and op < 2:
                stubs = ['MMG2D_quickarea']
            if stubs:
                ass = ['the signed volume/area of an element (%s) is an arbitrary function of its vertices' % stubs[0]]
            p = LIBS[lib][1] + '_'
            fn = [p + x for x in (list(ONE[k][2:]) + ATT.get(k, []) if op == 2 else ONE[k])] + [p + 'Get_meshSize']
            out.append(Harness('%s_%s_%s' % (LIBS[lib][0], KN[k], ON[op]), 'api_rt.c', LIBS[lib][0], unwind=20, defs=['LIB=%d' % lib, 'KIND=%d' % k, 'OP=%d' % op] + (['NE_=2'] if (k in (1, 2) and op < 2) or (k == 3 and op == 2) or (lib == 2 and k in (3, 4) and op == 1) else []),
                               stubs=stubs, functions=fn, assumptions=ass,
                               bounds='1..3 entities of each kind, every stored field symbolic; one write with arbitrary arguments, then full read-out'))
    return out
