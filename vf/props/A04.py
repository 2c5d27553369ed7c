from vf.core import Harness
HARNESSES = []
TN = {1: 'scalar', 2: 'vector', 3: 'tensor'}
ON = ['one', 'all', 'field_one', 'field_all', 'layout']
for lib, n, p in ((3, '3d', 'MMG3D_'), (2, '2d', 'MMG2D_'), (1, 's', 'MMGS_')):
    for op in range(5):
        for t in ((1, 2, 3) if op < 4 else (1,)):
            HARNESSES.append(Harness('%s_%s_%s' % (n, ON[op], TN[t]), 'sol.c', n, unwind=20, defs=['LIB=%d' % lib, 'OP=%d' % op, 'TYP=%d' % t],
                stubs=[p + 'Set_inputSolName', p + 'Set_outputSolName'] if op in (2, 3) else [], flags=[], checks=['bounds', 'pointer'] if op == 4 else [],
                functions=[p + f for f in ('Set_solSize', 'Get_solSize', 'Set_scalarSol(s)', 'Set_vectorSol(s)', 'Set_tensorSol(s)', 'Get_scalarSol(s)', 'Get_vectorSol(s)', 'Get_tensorSol(s)')] + ([p + 'Set_ithSol(s)_inSolsAtVertices', p + 'Get_ithSol(s)_inSolsAtVertices', p + 'Set_solsAtVerticesSize', p + 'Get_solsAtVerticesSize'] if op in (2, 3) else []),
                bounds='3 vertices, 1 or 3 fields, arbitrary previous values, arbitrary written values, any vertex'))
META = {'assumptions': ['allocation succeeds', 'fields are named without failure']}
